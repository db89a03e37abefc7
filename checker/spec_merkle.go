package main

import (
	"go/token"
	"strings"
)

// ---- the merkle tree built over a list of ids ----

// piece is a run of elements added to the end of a list: one, or one for each j below dom.
type piece struct {
	dom  *Term // nil: a single element
	elem *Term
	v    *Term    // stands for j in elem
	rec  *loopRec // the loop that adds them, if its rounds differ
	j    int
}

// growth gives what is added to the end of the list held at a place (a variable, or position at of
// a list of lists) beyond what it was in base.
func (k K) growth(t, base, at *Term, depth int) ([]piece, bool) {
	if t == base || depth > 12 {
		return nil, t == base
	}
	switch t.Op {
	case "upd":
		if at == nil || t.Args[1] != at {
			return nil, false
		}
		if ps, ok := addedTo(t.Args[2], mkList()); ok {
			return ps, true
		}
		ps, ok := k.growth(t.Args[0], base, at, depth+1)
		if !ok {
			return nil, false
		}
		more, ok := addedTo(t.Args[2], mkElem(t.Args[0], at))
		return append(ps, more...), ok
	case "concat":
		if at != nil {
			return nil, false
		}
		ps, ok := k.growth(t.Args[0], base, at, depth+1)
		if !ok {
			return nil, false
		}
		more, ok := addedTo(t, t.Args[0])
		return append(ps, more...), ok
	case "list", "map":
		if at == nil && base.Op == "list" && len(base.Args) == 0 {
			return addedTo(t, base)
		}
	case "lv":
		recs := k.lvRecs(t)
		if len(recs) != 1 {
			return nil, false
		}
		q := recs[0]
		l := q.rec.lvs[q.j]
		ps, ok := k.growth(l.init, base, at, depth+1)
		if !ok {
			return nil, false
		}
		pc := piece{dom: t.Args[0], v: q.rec.idx, rec: q.rec, j: q.j}
		for _, s := range l.steps {
			add, ok := k.growth(s.next, l.lv, at, depth+1)
			if !ok || len(add) != 1 || add[0].dom != nil {
				return nil, false
			}
			if len(l.steps) == 1 {
				pc.elem = add[0].elem
			}
		}
		return append(ps, pc), len(l.steps) > 0
	}
	return nil, false
}

// addedTo: the list is old with elements added at its end.
func addedTo(t, old *Term) ([]piece, bool) {
	if t == old {
		return nil, true
	}
	args := []*Term{t}
	if t.Op == "concat" {
		args = t.Args
	}
	if len(args) > 0 && args[0] == old {
		args = args[1:]
	} else if !(old.Op == "list" && len(old.Args) == 0) {
		return nil, false
	}
	var out []piece
	for _, a := range args {
		switch {
		case a.Op == "list":
			for _, e := range a.Args {
				out = append(out, piece{elem: e})
			}
		case a.Op == "map":
			out = append(out, piece{dom: a.Args[0], elem: a.Args[1], v: binderVar(a)})
		default:
			return nil, false
		}
	}
	return out, true
}

// nodeOf: the children of the tree node whose hash this is.
func nodeOf(h *Term) (l, r, node *Term, ok bool) {
	if !isCall(h, "core.MerkleNode.Hash") {
		return nil, nil, nil, false
	}
	n := h.Args[0]
	return F(n, "LChild"), F(n, "RChild"), n, true
}

// nextLayer: the pieces are, in order, the hashes of the nodes over each pair of the layer and,
// when one is left over, of the node over that one.
func (k K) nextLayer(ps []piece, L, at *Term) bool {
	n := mkLen(L)
	half := k.op(token.QUO, n, mkInt(2), tInt)
	rem := k.op(token.REM, n, mkInt(2), tInt)
	odd := func(want bool) bool {
		a, b := mkEq(rem, mkInt(1)), mkEq(rem, mkInt(0))
		if want {
			return k.has(a) || k.has(mkNot(b))
		}
		return k.has(b) || k.has(mkNot(a))
	}
	two := func(j *Term) *Term { return mkMul(mkInt(2), j) }
	pair := func(h, j *Term) bool {
		l, r, _, ok := nodeOf(h)
		return ok && l == mkElem(L, two(j)) && r == mkElem(L, mkAdd(two(j), mkInt(1)))
	}
	single := func(h, i *Term) bool {
		l, r, _, ok := nodeOf(h)
		return ok && l == mkElem(L, i) && r == l
	}
	if len(ps) == 0 || ps[0].dom == nil {
		return false
	}
	p := ps[0]
	lastI := mkSub(n, mkInt(1), false)
	if p.elem != nil {
		// all the pairs, then the one left over
		if !pair(p.elem, p.v) || !k.same(p.dom, half) {
			return false
		}
		switch len(ps) {
		case 1:
			return odd(false)
		case 2:
			return odd(true) && ps[1].dom == nil && single(ps[1].elem, lastI)
		}
		return false
	}
	// one loop over the pairs in which the last may be alone
	if len(ps) != 1 {
		return false
	}
	j := p.rec.idx
	for _, s := range p.rec.lvs[p.j].steps {
		sk := K{k.in, &State{facts: s.facts, mem: s.mem}}
		add, _ := k.growth(s.next, p.rec.lvs[p.j].lv, at, 0)
		if len(add) != 1 {
			return false
		}
		h := add[0].elem
		more := mkLt(mkAdd(two(j), mkInt(1)), n, false)
		if !(pair(h, j) && sk.has(more) || single(h, two(j)) && sk.has(mkNot(more)) && sk.has(mkLt(two(j), n, false))) {
			return false
		}
	}
	return k.has(mkNot(mkLt(two(p.dom), n, false)))
}

// contractMerkleTree: the tree over a list of ids, layer by layer, holds every id in order, each
// node is kept under its hash, and the list of nodes names every layer from the bottom up.
func (c *Ctx) contractMerkleTree() {
	ids := mkSym("ids")
	rule := "merkle-build"
	c.contract(rule, "pkg/core.MerkleFromTxIds", "builds each layer from all of the layer below, in order, up to a single root, and gives every node under its hash", runOpt{args: []*Term{ids}},
		func(r *runRes, k K, v []*Term) bool {
			m := r.cur.vals[0]
			kept := func(k K, node *Term) bool {
				return k.has(did("mapput", m, callTerm("core.MerkleNode.Hash", node), node))
			}
			if k.has(mkEq(mkLen(ids), mkInt(1))) {
				if mkLen(v[1]) != mkInt(1) {
					return false
				}
				l, rr, node, ok := nodeOf(mkElem(v[1], mkInt(0)))
				return ok && l == mkElem(ids, mkInt(0)) && rr == l && kept(k, node)
			}
			for i := range r.in.recs {
				rec := &r.in.recs[i]
				for j := range rec.lvs {
					if k.layersBy(rec, j, ids, m, v[1]) {
						return true
					}
				}
			}
			return false
		})
}

// layersBy: the loop builds the tree's layers in this variable.
func (k K) layersBy(rec *loopRec, j int, ids, m, out *Term) bool {
	v := rec.lvs[j]
	n := mkLen(ids)
	one := mkInt(1)
	var L, at *Term
	switch {
	case v.init == ids:
		L = v.lv
	case mkElem(v.init, mkInt(0)) == ids:
		L, at = mkElem(v.lv, rec.idx), mkAdd(rec.idx, one)
	default:
		return false
	}
	if len(v.steps) == 0 {
		return false
	}
	for _, s := range v.steps {
		st := K{k.in, &State{facts: s.facts, mem: s.mem}}
		var ps []piece
		ok := false
		if at != nil {
			ps, ok = st.growth(s.next, v.lv, at, 0)
		} else {
			ps, ok = st.growth(s.next, mkList(), nil, 0)
		}
		if !ok || !st.nextLayer(ps, L, at) {
			return false
		}
		// each node is kept
		for _, p := range ps {
			if p.dom == nil {
				_, _, node, _ := nodeOf(p.elem)
				if !st.has(did("mapput", m, callTerm("core.MerkleNode.Hash", node), node)) {
					return false
				}
				continue
			}
			if !st.forall(p.dom, func(st K, i *Term) bool {
				if p.elem != nil {
					_, _, node, _ := nodeOf(subst(p.elem, p.v, i))
					return st.has(did("mapput", m, callTerm("core.MerkleNode.Hash", node), node))
				}
				for _, s := range p.rec.lvs[p.j].steps {
					add, _ := st.growth(s.next, p.rec.lvs[p.j].lv, at, 0)
					if len(add) == 1 {
						_, _, node, _ := nodeOf(subst(add[0].elem, p.rec.idx, i))
						if node != nil && st.has(did("mapput", m, callTerm("core.MerkleNode.Hash", node), node)) {
							return true
						}
					}
				}
				return false
			}) {
				return false
			}
		}
		if at == nil {
			// the list of nodes takes each layer in turn
			good := false
			for x := range rec.lvs {
				w := rec.lvs[x]
				if x == j || mkLen(w.init) != mkInt(0) || len(w.steps) != len(v.steps) {
					continue
				}
				all := true
				for y := range w.steps {
					all = all && w.steps[y].next == mkConcat(w.lv, v.steps[y].next)
				}
				good = good || all && (out == w.lv || out.Op == "lv" && out.Aux == w.lv.Aux)
			}
			if !good {
				return false
			}
		}
	}
	// up to a single root
	if at != nil {
		top := rec.dom
		if top == nil || top.String() != "trunc(math.Ceil(math.Log2(float("+n.String()+"))))" {
			return false
		}
		full := subst(v.lv, rec.idx, top)
		return out.Op == "call" && out.Aux == "util.FlattenLists" && len(out.Args) == 1 && out.Args[0].String() == full.String()+"[1:]" ||
			out.Op == "flat" && strings.Contains(out.String(), full.String())
	}
	if out.Op != "lv" {
		return false
	}
	x := mkLen(subst(v.lv, rec.idx, out.Args[0]))
	return k.has(mkNot(mkLt(one, x, false))) || k.has(mkEq(x, one)) || k.has(mkLt(x, mkInt(2), false))
}
