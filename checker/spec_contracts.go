package main

// Contracts: what the small building blocks that the other rules take as primitives must do. Each
// is checked against the block's own body, so nothing is assumed that the source does not give.

import (
	"golang.org/x/tools/go/ssa"
	"strings"
)

// contract requires pred on every normal return of a function, and, when pure is set, that the
// function has no effect.
func (c *Ctx) contract(rule, fname, what string, opt runOpt, pred func(r *runRes, k K, v []*Term) bool) *runRes {
	r := c.run(fname, opt)
	if r == nil {
		return nil
	}
	n := 0
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		n++
		var vs []*Term
		for _, v := range o.vals {
			vs = append(vs, r.in.resolve(o.st, v))
		}
		r.cur = o
		ok := pred(r, r.k(o), vs)
		d := "holds on every return"
		if !ok {
			d = "a return does not satisfy: " + what
			for _, v := range vs {
				d += "\n  returned: " + clip(v.String(), 600)
			}
			d += r.describe(o)
		}
		c.ob(rule, fname+": "+what, ok, o.pos, "%s", d)
	}
	if n == 0 {
		c.ob(rule, fname+": "+what, false, r.fn.Pos(), "the function never returns normally")
	}
	return r
}

// same tells whether two values are certainly equal here.
func (k K) same(a, b *Term) bool {
	a, b = k.in.resolve(k.st, a), k.in.resolve(k.st, b)
	return a == b || k.has(mkEq(a, b))
}

// iff tells whether a boolean value certainly equals a condition here.
func (k K) iff(v, cond *Term) bool {
	v = k.in.resolve(k.st, v)
	if v == cond {
		return true
	}
	if n, ok := k.with(v); ok && v != tFalse && !n.has(cond) {
		return false
	}
	if n, ok := k.with(mkNot(v)); ok && v != tTrue && !n.has(mkNot(cond)) {
		return false
	}
	return true
}

// onlyEffects fails when the function does anything but the named effects.
func (c *Ctx) onlyEffects(rule string, r *runRes, ok func(s Sink) bool) {
	if r == nil {
		return
	}
	good := true
	d := "no other effect"
	for _, s := range r.in.sinks {
		switch s.kind {
		case "panic", "make", "go":
			if s.kind != "go" {
				continue
			}
		case "store":
			if freshBase(s.args[0]) {
				continue
			}
		}
		if !ok(s) {
			good = false
			d = "unexpected effect " + s.kind + " " + s.name
			for _, a := range s.args {
				d += " " + clip(a.String(), 200)
			}
		}
	}
	c.ob(rule, shortName(r.fn)+": no other effect", good, r.fn.Pos(), "%s", d)
}

// freshBase: the target is memory allocated by the analysed code itself.
func freshBase(t *Term) bool {
	for t.Op == "field" || t.Op == "elem" || t.Op == "ref" {
		t = t.Args[0]
	}
	return t.Op == "alloc" || t.Op == "new" || t.Op == "obj"
}

func noEffects(s Sink) bool { return false }

// contractInvReads: every reader of the inventory returns what is stored under the id asked for.
func (c *Ctx) contractInvReads(names ...string) {
	I := mkSym("inv")
	x := mkSym("x")
	one := func(name string, want *Term) {
		c.contract("inventory-read", "internal/inv.Inv."+name, "returns what is recorded for the id asked for",
			runOpt{args: []*Term{I, x}}, func(r *runRes, k K, v []*Term) bool {
				return len(v) == 1 && (k.same(v[0], want) || isBoolish(want) && k.iff(v[0], want))
			})
	}
	for _, n := range names {
		switch n {
		case "HasBlock":
			one(n, inv(n, x))
		case "HasMerkle":
			one(n, inv(n, x))
		case "HasTx":
			one(n, inv(n, x))
		case "GetBlock":
			one(n, inv(n, x))
		case "GetBlockHeight":
			one(n, inv(n, x))
		case "GetBlockTotalWork":
			one(n, inv(n, x))
		case "GetBlockParentId":
			one(n, F(inv("GetBlock", x), "PrevBlockId"))
		case "GetMerkle":
			one(n, inv(n, x))
		case "GetMerkleVSize":
			one(n, inv(n, x))
		case "GetTx":
			one(n, inv(n, x))
		case "GetTxVSize":
			one(n, inv(n, x))
		case "HasEntity":
			one(n, mk("or", "", inv("HasMerkle", x), inv("HasTx", x)))
		case "GetEntityVSize":
			c.contract("inventory-read", "internal/inv.Inv."+n, "returns the size recorded for the id asked for",
				runOpt{args: []*Term{I, x}}, func(r *runRes, k K, v []*Term) bool {
					if k.has(inv("HasMerkle", x)) {
						return k.same(v[0], inv("GetMerkleVSize", x))
					}
					return k.has(mkNot(inv("HasMerkle", x))) && k.same(v[0], inv("GetTxVSize", x)) ||
						k.has(inv("HasTx", x)) && k.same(v[0], inv("GetTxVSize", x))
				})
		case "HasTxOut":
			i := mkSym("ind")
			c.contract("inventory-read", "internal/inv.Inv."+n, "true exactly when the transaction exists and has that output",
				runOpt{args: []*Term{I, x, i}}, func(r *runRes, k K, v []*Term) bool {
					outs := F(inv("GetTx", x), "Outputs")
					w := r.in.resolve(k.st, v[0])
					if n, ok := k.with(w); ok && w != tFalse {
						if !n.has(inv("HasTx", x)) || !n.has(mkLt(i, mkLen(outs), true)) {
							return false
						}
					}
					if n, ok := k.with(mkNot(w)); ok && w != tTrue {
						return n.has(mkNot(inv("HasTx", x))) || n.has(mkNot(mkLt(i, mkLen(outs), true)))
					}
					return true
				})
		case "GetTxOut":
			i := mkSym("ind")
			c.contract("inventory-read", "internal/inv.Inv."+n, "returns that output of that transaction",
				runOpt{args: []*Term{I, x, i}}, func(r *runRes, k K, v []*Term) bool {
					return k.same(v[0], mkElem(F(inv("GetTx", x), "Outputs"), i))
				})
		case "GetMerkleTxs":
			c.contract("inventory-read", "internal/inv.Inv."+n, "returns the transactions named by the tree's ids, in order",
				runOpt{args: []*Term{I, x}}, func(r *runRes, k K, v []*Term) bool {
					ids := inv("GetMerkleTxIds", x)
					specIdx++
					j := mk("idx", "c")
					return k.same(mkLen(v[0]), mkLen(ids)) && k.same(mkElem(v[0], j), inv("GetTx", mkElem(ids, j)))
				})
		case "GetMerkleTxIds":
			c.contractTxIds(I, x)
		case "GetBlockAncestors":
			c.contractAncestors(I, x)
		case "GetBlockSpecificAncestor":
			d := mkSym("depth")
			anc := inv("GetBlockAncestors", x, d)
			c.contract("inventory-read", "internal/inv.Inv."+n, "returns the block that many steps up, or the zero block",
				runOpt{args: []*Term{I, x, d}}, func(r *runRes, k K, v []*Term) bool {
					if k.same(v[0], x) {
						return k.has(mkEq(d, mkInt(0))) || k.has(mkEq(x, tZero))
					}
					return k.same(v[0], mkElem(anc, mkSub(mkLen(anc), mkInt(1), false))) || k.walkedUp(v[0], x, d)
				})
		case "HasAnyBlock":
			c.contract("inventory-read", "internal/inv.Inv."+n, "gives the first of the blocks it has, and false only when it has none",
				runOpt{args: []*Term{I, x}}, func(r *runRes, k K, v []*Term) bool {
					switch v[1] {
					case tTrue:
						return v[0].Op == "elem" && v[0].Args[0] == x && k.has(inv("HasBlock", v[0])) &&
							k.forall(v[0].Args[1], func(k K, i *Term) bool { return k.has(mkNot(inv("HasBlock", mkElem(x, i)))) })
					case tFalse:
						return k.forall(mkLen(x), func(k K, i *Term) bool { return k.has(mkNot(inv("HasBlock", mkElem(x, i)))) })
					}
					return false
				})
		default:
			c.need("contract for "+n, false)
		}
	}
}

func isBoolish(t *Term) bool { return t.Op == "call" || t.Op == "or" || t.Op == "and" || t.Op == "not" }

// contractTxIds: the ids collected are exactly the leaves below the root, reached through stored
// tree nodes, layer by layer and left before right, with an only child visited once.
func (c *Ctx) contractTxIds(I, x *Term) {
	c.contract("merkle-walk", "internal/inv.Inv.GetMerkleTxIds", "visits every child of every node once, in order, and lists every transaction it meets",
		runOpt{args: []*Term{I, x}}, func(r *runRes, k K, v []*Term) bool {
			for i := range r.in.recs {
				rec := &r.in.recs[i]
				for j := range rec.lvs {
					if k.walks(rec, j, x, v[0]) {
						return true
					}
				}
			}
			return false
		})
}

// walks: the loop takes ids from the front of this queue until it is empty; a transaction is
// listed, a node's children are queued.
func (k K) walks(rec *loopRec, j int, root, out *Term) bool {
	q := rec.lvs[j]
	if q.init != mkList(root) || len(q.steps) == 0 {
		return false
	}
	o := -1
	for i, w := range rec.lvs {
		if i != j && mkLen(w.init) == mkInt(0) && out.Op == "lv" && w.lv.Aux == out.Aux {
			o = i
		}
	}
	if o < 0 {
		return false
	}
	head := mkElem(q.lv, mkInt(0))
	rest := mkSlice(q.lv, mkInt(1), tNil)
	n := inv("GetMerkle", head)
	l, r := F(n, "LChild"), F(n, "RChild")
	for i, s := range q.steps {
		at := K{k.in, &State{facts: s.facts, mem: s.mem}}
		list := rec.lvs[o].steps[i].next
		was := rec.lvs[o].lv
		ok := false
		switch {
		case at.has(inv("HasTx", head)):
			ok = s.next == rest && list == mkConcat(was, mkList(head))
		case at.has(inv("HasMerkle", head)) && at.has(mkEq(l, r)):
			ok = (s.next == mkConcat(rest, mkList(l)) || s.next == mkConcat(rest, mkList(r))) && list == was
		case at.has(inv("HasMerkle", head)) && at.has(mkNot(mkEq(l, r))):
			ok = s.next == mkConcat(rest, mkList(l, r)) && list == was
		}
		if !ok {
			return false
		}
	}
	left := mkLen(subst(q.lv, rec.idx, out.Args[0]))
	return k.has(mkEq(left, mkInt(0))) || k.has(mkNot(mkLt(mkInt(0), left, false)))
}

// isParentOf: the term names the parent of the block.
func isParentOf(t, b *Term) bool { return t == F(inv("GetBlock", b), "PrevBlockId") }

// upFrom: the block is reached from another by parent links alone.
func (k K) upFrom(t, from *Term, depth int) bool {
	if t == from {
		return true
	}
	if depth > 6 {
		return false
	}
	if t.Op == "fld" && t.Aux == "PrevBlockId" && isCall(t.Args[0], "inv.Inv.GetBlock") {
		return k.upFrom(t.Args[0].Args[0], from, depth+1)
	}
	if t.Op != "lv" {
		return false
	}
	recs := k.lvRecs(t)
	for _, c := range recs {
		l := c.rec.lvs[c.j]
		if !k.upFrom(l.init, from, depth+1) {
			return false
		}
		for _, s := range l.steps {
			n := s.next
			for n != l.lv && n.Op == "fld" && n.Aux == "PrevBlockId" && isCall(n.Args[0], "inv.Inv.GetBlock") {
				n = n.Args[0].Args[0]
			}
			if n != l.lv {
				return false
			}
		}
	}
	return len(recs) > 0
}

// stepsUp: a variable that starts at a block and becomes its parent each time round, or the value
// it becomes.
func (k K) stepsUp(rec *loopRec, t, from *Term) bool {
	for _, l := range rec.lvs {
		if l.init != from {
			continue
		}
		ok := len(l.steps) > 0
		for _, s := range l.steps {
			ok = ok && isParentOf(s.next, l.lv)
		}
		if ok && isParentOf(t, l.lv) {
			return true
		}
	}
	// a variable that starts one step up
	for _, l := range rec.lvs {
		if l.lv != t || !isParentOf(l.init, from) {
			continue
		}
		ok := len(l.steps) > 0
		for _, s := range l.steps {
			ok = ok && isParentOf(s.next, l.lv)
		}
		if ok {
			return true
		}
	}
	return false
}

// chainAbove: a list built by adding, each time round, the next block up from the given one.
func (k K) chainAbove(t, from *Term) bool {
	if t.Op == "list" && len(t.Args) == 0 {
		return true
	}
	var tail *Term
	if t.Op == "concat" && len(t.Args) == 2 && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
		t, tail = t.Args[0], t.Args[1].Args[0]
	}
	if t.Op != "lv" {
		return false
	}
	recs := k.lvRecs(t)
	ok := false
	for _, c := range recs {
		l := c.rec.lvs[c.j]
		if mkLen(l.init) != mkInt(0) {
			return false
		}
		var e *Term
		for _, s := range l.steps {
			n := s.next
			if n.Op != "concat" || len(n.Args) != 2 || n.Args[0] != l.lv || n.Args[1].Op != "list" || len(n.Args[1].Args) != 1 {
				return false
			}
			e = n.Args[1].Args[0]
			if !k.stepsUp(c.rec, e, from) {
				return false
			}
		}
		if e == nil {
			// the only round ends the loop
			if tail != nil && isParentOf(tail, from) {
				continue
			}
			return false
		}
		if tail != nil && subst(e, c.rec.idx, t.Args[0]) != tail {
			return false
		}
		ok = true
	}
	return ok
}

// lastIsZero: a variable that becomes what each round of a loop adds to a list is zero.
func (k K) lastIsZero(list *Term) bool {
	rec, j := k.in.lvFind(list)
	if rec == nil {
		return false
	}
	for i := range rec.lvs {
		ok := i != j && len(rec.lvs[j].steps) > 0
		for n, s := range rec.lvs[j].steps {
			e, one := []*Term(nil), false
			if s.next.Op == "concat" {
				e, one = listElems(s.next.Args[len(s.next.Args)-1])
			}
			ok = ok && one && len(e) == 1 && n < len(rec.lvs[i].steps) && rec.lvs[i].steps[n].next == e[0]
		}
		if ok && k.has(mkEq(subst(rec.lvs[i].lv, rec.idx, list.Args[0]), tZero)) {
			return true
		}
	}
	return false
}

// walkedUp: t is reached from x one parent at a time, in n steps or as many as lead to the zero block.
func (k K) walkedUp(t, x, n *Term) bool {
	rec, j := k.in.lvFind(t)
	if rec == nil || rec.lvs[j].init != x {
		return false
	}
	l := rec.lvs[j]
	for _, s := range l.steps {
		at := K{k.in, &State{facts: s.facts, mem: s.mem}}
		if !isParentOf(s.next, l.lv) || !at.has(mkNot(mkEq(l.lv, tZero))) || !at.has(mkLt(l.lv.Args[0], n, false)) {
			return false
		}
	}
	return len(l.steps) > 0 && (k.has(mkEq(t, tZero)) || k.same(t.Args[0], n) || k.has(mkNot(mkLt(t.Args[0], n, false))))
}

// contractAncestors: follows parent links from the given block, stopping at the zero block.
func (c *Ctx) contractAncestors(I, x *Term) {
	n := mkSym("n")
	c.contract("inventory-read", "internal/inv.Inv.GetBlockAncestors", "follows parent links, at most n of them, stopping at the zero block",
		runOpt{args: []*Term{I, x, n}}, func(r *runRes, k K, v []*Term) bool {
			L := v[0]
			if !k.chainAbove(L, x) {
				return false
			}
			// one element a round
			ln := mkLen(L)
			switch {
			case L.Op == "lv":
				ln = L.Args[0]
			case L.Op == "concat":
				ln = mkInt(1)
				if L.Args[0].Op == "lv" {
					ln = mkAdd(L.Args[0].Args[0], mkInt(1))
				}
			}
			full := k.same(ln, n) || ln == mkInt(0) && k.has(mkNot(mkLt(mkInt(0), n, false)))
			last := mkElem(L, mkSub(mkLen(L), mkInt(1), false))
			if L.Op == "concat" {
				last = L.Args[1].Args[0]
			}
			body := L
			if L.Op == "concat" {
				body = L.Args[0]
			}
			short := k.has(mkNot(mkLt(n, ln, false))) || k.has(mkLt(mkLen(body), n, false))
			if body == L && body.Op == "lv" && k.has(mkNot(mkLt(mkLen(L), n, false))) {
				// it grows by one a round while it is shorter than n
				full = true
				for _, q := range k.lvRecs(body) {
					for _, s := range q.rec.lvs[q.j].steps {
						at := K{k.in, &State{facts: s.facts, mem: s.mem}}
						full = full && at.has(mkLt(mkLen(q.rec.lvs[q.j].lv), n, false))
					}
				}
			}
			if !full && !((k.has(mkEq(last, tZero)) || body == L && k.lastIsZero(L)) && short) {
				return false
			}
			// it did not go on past the zero block
			if mkLen(L) == mkInt(0) || body.Op == "list" {
				return true
			}
			recs := k.lvRecs(body)
			for _, q := range recs {
				for _, s := range q.rec.lvs[q.j].steps {
					at := K{k.in, &State{facts: s.facts, mem: s.mem}}
					e := s.next.Args[1].Args[0]
					from := false
					for _, l := range q.rec.lvs {
						from = from || isParentOf(e, l.lv) && at.has(mkNot(mkEq(l.lv, tZero)))
					}
					if !from && !at.has(mkNot(mkEq(e, tZero))) {
						return false
					}
				}
			}
			return true
		})
}

// contractLCA: the block found is reached from both blocks by parent links alone.
func (c *Ctx) contractLCA() {
	I, a, b := mkSym("inv"), mkSym("a"), mkSym("b")
	c.contract("inventory-read", "internal/inv.Inv.GetBlockLCA", "gives a block reached from both blocks by parent links",
		runOpt{args: []*Term{I, a, b}}, func(r *runRes, k K, v []*Term) bool {
			cands := []*Term{v[0]}
			for f := range k.st.facts {
				if f.Op == "eq" && (f.Args[0] == v[0] || f.Args[1] == v[0]) {
					cands = append(cands, f.Args[0], f.Args[1])
				}
			}
			up := func(from *Term) bool {
				for _, t := range cands {
					if k.upFrom(t, from, 0) {
						return true
					}
				}
				return false
			}
			return up(a) && up(b)
		})
	t := mkSym("to")
	// how far up another block is
	c.contract("inventory-read", "internal/inv.Inv.GetBlockAncestorDepth", "counts the parent links from the first block to the second",
		runOpt{args: []*Term{I, a, t}}, func(r *runRes, k K, v []*Term) bool {
			if v[1] == tFalse || k.has(mkNot(v[1])) {
				// gave up at the zero block
				for f := range k.st.facts {
					if f.Op == "eq" && (f.Args[0] == tZero && k.upFrom(f.Args[1], a, 0) || f.Args[1] == tZero && k.upFrom(f.Args[0], a, 0)) {
						return true
					}
				}
				return false
			}
			if k.has(mkEq(v[0], mkInt(0))) && k.has(mkEq(a, t)) {
				return true
			}
			for f := range k.st.facts {
				if f.Op != "eq" || f.Args[0] != t && f.Args[1] != t {
					continue
				}
				x := f.Args[0]
				if x == t {
					x = f.Args[1]
				}
				extra := int64(0)
				for x.Op == "fld" && x.Aux == "PrevBlockId" && isCall(x.Args[0], "inv.Inv.GetBlock") {
					x, extra = x.Args[0].Args[0], extra+1
				}
				if x.Op != "lv" || !k.upFrom(x, a, 0) {
					continue
				}
				for _, q := range k.lvRecs(x) {
					l := q.rec.lvs[q.j]
					one := l.init == a && len(l.steps) > 0
					for _, s := range l.steps {
						one = one && isParentOf(s.next, l.lv)
					}
					if one && k.same(v[0], mkAdd(x.Args[0], mkInt(extra))) {
						return true
					}
				}
			}
			return false
		})
	// the blocks between two blocks
	c.contract("inventory-read", "internal/inv.Inv.GetBlockAncestorsUntil", "gives the blocks reached by parent links, each one, the last one's parent being the block given",
		runOpt{args: []*Term{I, a, t}}, func(r *runRes, k K, v []*Term) bool {
			L := v[0]
			d := inv("GetBlockAncestorDepth", a, t)
			if mkLen(L) == mkInt(0) {
				return k.has(mkNot(mkLt(mkInt(1), mk("res", "0", d), true))) || k.has(mkEq(a, t)) || k.has(mkEq(F(inv("GetBlock", a), "PrevBlockId"), t))
			}
			if !k.chainAbove(L, a) && !k.filledAbove(L, a) {
				return false
			}
			// the one after the last of them is the block given
			for f := range k.st.facts {
				if f.Op != "eq" || f.Args[0] != t && f.Args[1] != t {
					continue
				}
				x := f.Args[0]
				if x == t {
					x = f.Args[1]
				}
				if x == t || !k.upFrom(x, a, 0) {
					continue
				}
				same := true
				anyTerm(x, func(y *Term) bool {
					if y.Op == "lv" && L.Op == "lv" && y.Args[0] != L.Args[0] {
						same = false
					}
					return false
				})
				if same {
					return true
				}
			}
			// as many as there are
			return k.has(mkEq(mkLen(L), mkAdd(mk("res", "0", d), mkInt(-1))))
		})
}

// filledAbove: a list of known length whose elements are set, one a round and from its start, to the
// next block up from the given one.
func (k K) filledAbove(t, from *Term) bool {
	if t.Op != "lv" {
		return false
	}
	recs := k.lvRecs(t)
	for _, c := range recs {
		l := c.rec.lvs[c.j]
		// every element is set: as many rounds as it is long
		if n := mkLen(t); !k.same(t.Args[0], mkLen(l.init)) && !k.has(mkNot(mkLt(t.Args[0], n, false))) && !k.has(mkNot(mkLt(t.Args[0], n, true))) {
			return false
		}
		for _, s := range l.steps {
			n := s.next
			if n.Op != "upd" || n.Args[0] != l.lv || n.Args[1] != c.rec.idx || !k.stepsUp(c.rec, n.Args[2], from) {
				return false
			}
		}
		if len(l.steps) == 0 {
			return false
		}
	}
	return len(recs) > 0
}

// contractSyncMap: the concurrent map returns what was stored under the key, or panics.
func (c *Ctx) contractSyncMap() {
	sm, key := mkSym("sm"), mkSym("key")
	load := func(t *Term) bool {
		return t.Op == "call" && t.Aux == "sync.Map.Load" && len(t.Args) >= 2 && t.Args[1] == key
	}
	c.contract("concurrent-map", "pkg/syncmap.SyncMap.Has", "true exactly when the key is present", runOpt{args: []*Term{sm, key}},
		func(r *runRes, k K, v []*Term) bool { return v[0].Op == "res" && v[0].Aux == "1" && load(v[0].Args[0]) })
	c.contract("concurrent-map", "pkg/syncmap.SyncMap.Get", "returns the value under the key and panics when there is none", runOpt{args: []*Term{sm, key}},
		func(r *runRes, k K, v []*Term) bool {
			return v[0].Op == "res" && v[0].Aux == "0" && load(v[0].Args[0]) && k.has(mk("res", "1", v[0].Args[0]))
		})
	r := c.run("pkg/syncmap.SyncMap.Store", runOpt{args: []*Term{sm, key, mkSym("val")}})
	if r != nil {
		ok := false
		for _, o := range r.outs {
			ok = false
			for f := range o.st.facts {
				if f.Op == "did" && f.Aux == "sync.Map.Store" && len(f.Args) == 3 && f.Args[1] == key && f.Args[2] == mkSym("val") {
					ok = true
				}
			}
			if !ok {
				break
			}
		}
		c.ob("concurrent-map", "syncmap.SyncMap.Store: stores the value under the key", ok, r.fn.Pos(), "Store must write exactly the given pair")
	}
}

// contractSet: the set behaves as a mathematical set.
func (c *Ctx) contractSet() {
	s, x := mkSym("s"), mkSym("x")
	m := F(s, "s")
	has := mkHas(m, x)
	rule := "set"
	own := []string{}
	for _, n := range []string{"Includes", "IncludesAny", "Add", "Remove", "Copy", "Filter", "ToList", "HasIntersection", "Size"} {
		own = append(own, "set.Set."+n)
	}
	own = append(own, "set.NewSet", "set.NewSetFromList")
	member := func(k K, x, s *Term) bool { return k.has(mkIn(x, s)) || k.has(mkHas(F(s, "s"), x)) }
	absent := func(k K, x, s *Term) bool {
		return k.has(mkNot(mkIn(x, s))) || k.has(mkNot(mkHas(F(s, "s"), x)))
	}
	r := c.contract(rule, "pkg/set.Set.Includes", "membership", runOpt{args: []*Term{s, x}, inline: own},
		func(r *runRes, k K, v []*Term) bool { return k.iff(v[0], has) || k.iff(v[0], mkIn(x, s)) })
	c.onlyEffects(rule, r, noEffects)
	r = c.contract(rule, "pkg/set.Set.Remove", "removes the key and reports whether it was present", runOpt{args: []*Term{s, x}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			del := k.has(mk("did", "mapdel", m, x))
			was, wasnt := member(k, x, s), absent(k, x, s)
			return (del || wasnt) && (v[0] == tTrue && was || v[0] == tFalse && wasnt || r.cur.vals[0] == has || r.cur.vals[0] == mkIn(x, s)) // as read before it was removed
		})
	c.onlyEffects(rule, r, func(s Sink) bool { return s.kind == "mapdel" && s.args[0] == m && s.args[1] == x })
	ks := mkSym("keys")
	r = c.contract(rule, "pkg/set.Set.Add", "adds every key given", runOpt{args: []*Term{s, ks}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			return k.forall(mkLen(ks), func(k K, i *Term) bool {
				for f := range k.st.facts {
					if f.Op == "did" && f.Aux == "mapput" && f.Args[0] == m && f.Args[1] == mkElem(ks, i) {
						return true
					}
				}
				return false
			})
		})
	c.onlyEffects(rule, r, func(s Sink) bool { return s.kind == "mapput" && s.args[0] == m })
	r = c.contract(rule, "pkg/set.Set.IncludesAny", "true exactly when some key is a member", runOpt{args: []*Term{s, ks}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			if v[0] == tTrue {
				for f := range k.st.facts {
					if f.Op == "in" && f.Args[1] == s && f.Args[0].Op == "elem" && f.Args[0].Args[0] == ks {
						return true
					}
					if f.Op == "has" && f.Args[0] == m && f.Args[1].Op == "elem" && f.Args[1].Args[0] == ks {
						return true
					}
				}
				return false
			}
			return v[0] == tFalse && k.forall(mkLen(ks), func(k K, i *Term) bool { return absent(k, mkElem(ks, i), s) })
		})
	c.onlyEffects(rule, r, noEffects)
	o := mkSym("other")
	r = c.contract(rule, "pkg/set.Set.HasIntersection", "true exactly when the sets share a member", runOpt{args: []*Term{s, o}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			for _, ab := range [][2]*Term{{s, o}, {o, s}} {
				a, b := ab[0], ab[1]
				if v[0] == tTrue {
					for f := range k.st.facts {
						if f.Op == "in" && f.Args[1] == a && f.Args[0].Op == "elem" && f.Args[0].Args[0] == mkKeys(F(b, "s")) {
							return true
						}
						if f.Op == "has" && f.Args[0] == F(a, "s") && f.Args[1].Op == "elem" && f.Args[1].Args[0] == mkKeys(F(b, "s")) {
							return true
						}
					}
				} else if v[0] == tFalse && k.forall(mkLen(F(b, "s")), func(k K, i *Term) bool {
					return absent(k, mkElem(mkKeys(F(b, "s")), i), a)
				}) {
					return true
				}
			}
			return false
		})
	c.onlyEffects(rule, r, noEffects)
	r = c.contract(rule, "pkg/set.Set.Copy", "a fresh set with the same members", runOpt{args: []*Term{s}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			w := F(v[0], "s")
			j := mk("idx", "c")
			at := r.in.loadShallow(k.st, mk("fld", "s", r.cur.vals[0]))
			return r.cur.vals[0] != s && at.Op == "obj" && (w == m || w == mkKeys(m) || w.Op == "mapof" && k.same(domLen(w.Args[0]), mkLen(m)) && subst(w.Args[1], binderVar(w), j) == mkElem(mkKeys(m), j))
		})
	c.onlyEffects(rule, r, func(q Sink) bool { return q.kind == "mapput" && freshBase(q.args[0]) })
	c.contract(rule, "pkg/set.Set.Size", "number of members", runOpt{args: []*Term{s}, inline: own},
		func(r *runRes, k K, v []*Term) bool { return k.same(v[0], mkLen(m)) })
	c.contract(rule, "pkg/set.Set.ToList", "the members", runOpt{args: []*Term{s}, inline: own},
		func(r *runRes, k K, v []*Term) bool { return k.same(v[0], mkKeys(m)) })
	l := mkSym("list")
	c.contract(rule, "pkg/set.NewSetFromList", "a set of exactly the listed keys", runOpt{args: []*Term{l}},
		func(r *runRes, k K, v []*Term) bool { return k.same(v[0], l) })
	// Filter removes exactly the members the predicate rejects
	flt := mkSym("filter")
	r = c.contract(rule, "pkg/set.Set.Filter", "keeps exactly the members the predicate accepts", runOpt{args: []*Term{s, flt}, inline: own},
		func(r *runRes, k K, v []*Term) bool {
			for f := range k.st.facts {
				if f.Op != "all" || !k.sameDom(f.Args[0], mkLen(m)) {
					continue
				}
				good := true
				var key *Term
				asked := func(q *Term) bool {
					if q.Op != "call" || q.Aux != "dyn" || len(q.Args) < 2 || q.Args[0] != flt {
						return false
					}
					// the keys of the set, which is being changed
					if x := q.Args[1]; key == nil && x.Op == "elem" && x.Args[1] == binderVar(f) && x.Args[0].Op == "keys" {
						if of := x.Args[0].Args[0]; of == m || of.Op == "lv" && occurs(of, m) {
							key = x
						}
					}
					return q.Args[1] == key
				}
				for _, a := range f.Args[1:] {
					for _, q := range conjuncts(a) {
						if q.Op == "not" {
							q = q.Args[0]
						}
						asked(q)
					}
				}
				if key == nil {
					continue
				}
				for _, a := range f.Args[1:] {
					neg, pos, del, gone := false, false, false, false
					for _, q := range conjuncts(a) {
						switch {
						case q.Op == "not" && asked(q.Args[0]):
							neg = true
						case asked(q):
							pos = true
						case q.Op == "did" && q.Aux == "mapdel" && q.Args[0] == m && q.Args[1] == key:
							del = true
						case q.Op == "not" && (q.Args[0].Op == "has" && q.Args[0].Args[1] == key || q.Args[0].Op == "in" && q.Args[0].Args[0] == key):
							gone = true
						}
					}
					good = good && (neg && (del || gone) || pos && !del)
				}
				if good {
					return true
				}
			}
			return false
		})
	c.onlyEffects(rule, r, func(q Sink) bool { return q.kind == "mapdel" && q.args[0] == m || q.name == "dyn" })
}

// contractQueue: a FIFO queue.
func (c *Ctx) contractQueue() {
	q := mkSym("q")
	l := F(q, "q")
	rule := "fifo"
	items := mkSym("items")
	last := func(k K, loc *Term) *Term {
		if v, ok := k.st.mem[loc]; ok {
			return v
		}
		return loc
	}
	c.contract(rule, "pkg/queue.Queue.Push", "appends the items at the back", runOpt{args: []*Term{q, items}},
		func(r *runRes, k K, v []*Term) bool { return last(k, l) == mkConcat(l, items) })
	c.contract(rule, "pkg/queue.Queue.Pop", "takes the front item", runOpt{args: []*Term{q}},
		func(r *runRes, k K, v []*Term) bool {
			if v[1] == tFalse {
				return k.has(mkEq(mkLen(l), mkInt(0))) && last(k, l) == l
			}
			return v[1] == tTrue && v[0] == mkElem(l, mkInt(0)) && last(k, l).String() == l.String()+"[1:]"
		})
	c.contract(rule, "pkg/queue.Queue.Peek", "reads the front item", runOpt{args: []*Term{q}},
		func(r *runRes, k K, v []*Term) bool {
			if v[1] == tFalse {
				return k.has(mkEq(mkLen(l), mkInt(0)))
			}
			return v[1] == tTrue && v[0] == mkElem(l, mkInt(0)) && last(k, l) == l
		})
	c.contract(rule, "pkg/queue.Queue.Size", "number of queued items", runOpt{args: []*Term{q}},
		func(r *runRes, k K, v []*Term) bool { return k.same(v[0], mkLen(l)) })
	c.contract(rule, "pkg/queue.NewQueue", "starts with the given items", runOpt{args: []*Term{items}},
		func(r *runRes, k K, v []*Term) bool { return k.same(F(v[0], "q"), items) })
}

// copies tells whether a function returns what it appended to a new list, which is a list of its own.
func copies(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		c, ok := r.Results[0].(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
			return false
		}
		switch x := c.Call.Args[0].(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Slice:
			if _, ok := x.X.(*ssa.Alloc); !ok {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// contractUtil: the list and map helpers.
func (c *Ctx) contractUtil() {
	rule := "helpers"
	x := mkSym("x")
	c.contract(rule, "pkg/util.MapKeys", "the keys of the map", runOpt{args: []*Term{x}},
		func(r *runRes, k K, v []*Term) bool { return k.same(v[0], mkKeys(x)) })
	c.contract(rule, "pkg/util.Reverse", "the list reversed, in a new list", runOpt{args: []*Term{x}},
		func(r *runRes, k K, v []*Term) bool {
			j := mk("idx", "c")
			return k.same(v[0], mkReverse(x)) || mkLen(v[0]) == mkLen(x) && mkElem(v[0], j) == mkElem(mkReverse(x), j)
		})
	c.contract(rule, "pkg/util.CopyList", "a fresh list with the same items", runOpt{args: []*Term{x}},
		func(r *runRes, k K, v []*Term) bool {
			j := mk("idx", "c")
			fresh := r.cur.vals[0] != x || copies(r.fn)
			return fresh && (v[0] == x || mkLen(v[0]) == mkLen(x) && mkElem(v[0], j) == mkElem(x, j))
		})
	c.contract(rule, "pkg/util.CopyMap", "a fresh map with the same entries", runOpt{args: []*Term{x}},
		func(r *runRes, k K, v []*Term) bool {
			return r.cur.vals[0] != x && (v[0] == x || v[0].Op == "mapof" && k.forall(mkLen(x), func(k K, i *Term) bool {
				key := mkElem(mkKeys(x), i)
				for f := range k.st.facts {
					if f.Op == "did" && f.Aux == "mapput" && f.Args[1] == key && f.Args[2] == mkLookup(x, key) {
						return true
					}
				}
				return false
			}))
		})
	c.contract(rule, "pkg/util.FlattenLists", "the lists joined in order", runOpt{args: []*Term{x}},
		func(r *runRes, k K, v []*Term) bool {
			return v[0] == mkFlat(mk("idx", "f"), mkLen(x), mkElem(x, mk("idx", "f")))
		})
	ls, it := mkSym("ls"), mkSym("item")
	c.contract(rule, "pkg/util.Prepend", "the item in front of the list", runOpt{args: []*Term{ls, mkList(it)}},
		func(r *runRes, k K, v []*Term) bool {
			w := v[0]
			if w == mkConcat(mkList(it), ls) {
				return true
			}
			if k.has(mkEq(mkLen(ls), mkInt(0))) && w == mkList(it) {
				return true
			}
			return mkLen(w) == mkAdd(mkLen(ls), mkInt(1)) && mkElem(w, mkInt(0)) == it &&
				mkElem(w, mkAdd(mk("idx", "c"), mkInt(1))) == mkElem(ls, mk("idx", "c"))
		})
}

// contractHashEq: equality and zero tests compare every byte.
func (c *Ctx) contractHashEq() {
	a, b := mkSym("a"), mkSym("b")
	c.contract("hash-compare", "pkg/core.HashT.Eq", "true exactly when all bytes agree", runOpt{args: []*Term{a, b}},
		func(r *runRes, k K, v []*Term) bool {
			return k.iff(v[0], mkEq(F(a, "data"), F(b, "data"))) || k.iff(v[0], mkEq(a, b))
		})
	c.contract("hash-compare", "pkg/core.HashT.EqZero", "true exactly for the zero hash", runOpt{args: []*Term{a}},
		func(r *runRes, k K, v []*Term) bool {
			return k.iff(v[0], mkEq(a, tZero)) || k.iff(v[0], mkEq(F(a, "data"), tZero)) || k.iff(v[0], mkEq(F(a, "data"), F(tZero, "data")))
		})
}

// contractHashLt: big-endian order.
func (c *Ctx) contractHashLt() {
	a, b := mkSym("a"), mkSym("b")
	ai := func(x, i *Term) *Term { return mkElem(F(x, "data"), i) }
	c.contract("hash-compare", "pkg/core.HashT.Lt", "big-endian numeric order", runOpt{args: []*Term{a, b}},
		func(r *runRes, k K, v []*Term) bool {
			// either decided at the first differing byte, or all bytes agree
			eqUpTo := func(n *Term) bool {
				return k.forall(n, func(k K, i *Term) bool {
					return k.has(mkEq(ai(a, i), ai(b, i))) ||
						k.has(mkNot(mkLt(ai(a, i), ai(b, i), true))) && k.has(mkNot(mkLt(ai(b, i), ai(a, i), true)))
				})
			}
			if strings.Contains(v[0].String(), "bytes.Compare") {
				return v[0].Op == "lt" && strings.Contains(v[0].String(), "bytes.Compare(a.data, b.data) < 0")
			}
			// the comparison of the first bytes that differ
			for f := range k.st.facts {
				if f.Op != "not" || f.Args[0].Op != "eq" {
					continue
				}
				for n := 0; n < 2; n++ {
					x, y := f.Args[0].Args[n], f.Args[0].Args[1-n]
					if x.Op == "elem" && y == ai(b, x.Args[1]) && x == ai(a, x.Args[1]) && v[0] == mkLt(x, y, true) && eqUpTo(x.Args[1]) {
						return true
					}
				}
			}
			for f := range k.st.facts {
				if f.Op != "lt" {
					continue
				}
				for _, p := range [][3]*Term{{a, b, tTrue}, {b, a, tFalse}} {
					x, y := f.Args[0], f.Args[1]
					if x.Op == "elem" && y.Op == "elem" && x.Args[0] == F(p[0], "data") && y.Args[0] == F(p[1], "data") && x.Args[1] == y.Args[1] {
						if v[0] == p[2] && eqUpTo(x.Args[1]) {
							return true
						}
					}
				}
			}
			return v[0] == tFalse && eqUpTo(mkInt(32))
		})
}

// contractEcdsa: verification parses the given key and checks the given signature over the hash.
func (c *Ctx) contractEcdsa() {
	pub, h, sig := mkSym("pub"), mkSym("hash"), mkSym("sig")
	c.contract("signature", "pkg/core.EcdsaVerify", "accepts only what the standard library verifies for this key, hash and signature",
		runOpt{args: []*Term{pub, h, sig}}, func(r *runRes, k K, v []*Term) bool {
			errNonNil := v[1].Op == "nonnil" || k.has(mkNot(mkEq(v[1], tNil)))
			if v[0] == tFalse || errNonNil {
				return true
			}
			x := v[0]
			if x == tTrue {
				for f := range k.st.facts {
					if isCall(f, "ecdsa.VerifyASN1") {
						x = f
					}
				}
			}
			if !isCall(x, "ecdsa.VerifyASN1") || len(x.Args) < 3 {
				return false
			}
			key := x.Args[0]
			for key.Op == "assert" || key.Op == "res" && key.Args[0].Op == "assert" {
				key = key.Args[0]
			}
			return key == mk("res", "0", callTerm("x509.ParsePKIXPublicKey", pub)) && x.Args[1] == F(h, "data") && x.Args[2] == sig
		})
}

// contractDHash: the double hash covers exactly the given bytes.
func (c *Ctx) contractDHash() {
	b := mkSym("b")
	c.contract("hash", "pkg/core.DHashBytes", "SHA-256 of the SHA-256 of exactly the given bytes", runOpt{args: []*Term{b}},
		func(r *runRes, k K, v []*Term) bool {
			return F(v[0], "data") == callTerm("sha256.Sum256", callTerm("sha256.Sum256", b))
		})
}
