package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashPath: t is a hash computation through which target's exact value flows.
func hashPath(t, target *Term, d int) bool {
	if t == target {
		return true
	}
	if d > 8 {
		return false
	}
	switch {
	case t.Op == "call" && (strings.HasPrefix(t.Aux, "core.DHash") || strings.HasSuffix(t.Aux, ".Hash") && strings.HasPrefix(t.Aux, "core.")), t.Op == "list":
		for _, a := range t.Args {
			if hashPath(a, target, d+1) {
				return true
			}
		}
	case t.Op == "struct":
		for _, a := range t.Args {
			if hashPath(a, target, d+1) {
				return true
			}
		}
	case t.Op == "map":
		// an element-wise hash of a list
		e := t.Args[1]
		v := binderVar(t)
		return hashPath(e, mkElem(target, v), d+1)
	}
	return false
}

// hashCovers requires every field of a struct to reach its hash.
func (c *Ctx) hashCovers(typ string) {
	n := c.p.typ("pkg/core." + typ)
	if !c.need("core."+typ, n != nil) {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !c.need("core."+typ, ok) {
		return
	}
	x := mkSym("x")
	r := c.run("pkg/core."+typ+".Hash", runOpt{args: []*Term{x}})
	if r == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := c.p.fieldName(n, i)
		good := len(r.outs) > 0
		for _, o := range r.outs {
			if o.kind == "ret" {
				good = good && hashPath(r.in.resolve(o.st, o.vals[0]), F(x, f), 0)
			}
		}
		c.ob("id-covers", "core."+typ+".Hash covers "+st.Field(i).Name(), good, r.fn.Pos(), "two entities that differ only in this field have the same id")
	}
}

// contractHashing: the combinators hash every item, in order, whatever its type.
func (c *Ctx) contractHashing() {
	x := mkSym("items")
	rule := "hashing"
	each := func(name string) {
		c.contract(rule, "pkg/core."+name, "hashes every item in order", runOpt{args: []*Term{x}}, func(r *runRes, k K, v []*Term) bool {
			if name == "DHashVarious" && v[0] == callTerm("core.DHashList", x) {
				return true // checked as well
			}
			if !isCall(v[0], "core.DHashHashes") {
				return false
			}
			l := v[0].Args[0]
			j := mk("idx", "h")
			return mkLen(l) == mkLen(x) && mkElem(l, j) == callTerm("core.DHashAny", mkElem(x, j))
		})
	}
	each("DHashVarious")
	each("DHashList")
	c.contract(rule, "pkg/core.DHashHashes", "hashes every byte of every hash in order", runOpt{args: []*Term{x}}, func(r *runRes, k K, v []*Term) bool {
		if !isCall(v[0], "core.DHashBytes") {
			return false
		}
		j := mk("idx", "h")
		want := mkFlat(j, mkLen(x), F(mkElem(x, j), "data"))
		t := v[0].Args[0]
		if t == want {
			return true
		}
		return t.Op == "concat" && t.Args[len(t.Args)-1] == want && len(t.Args) == 2 && t.Args[0].Op == "make"
	})
	c.contract(rule, "pkg/core.DHashUint64", "hashes all eight bytes", runOpt{args: []*Term{x}}, func(r *runRes, k K, v []*Term) bool {
		return isCall(v[0], "core.DHashBytes") && strings.Contains(v[0].String(), "be64(items)")
	})
	var bt, bf *Term
	c.contract(rule, "pkg/core.DHashBool", "true and false hash differently", runOpt{args: []*Term{x}}, func(r *runRes, k K, v []*Term) bool {
		if k.has(x) {
			bt = v[0]
		} else if k.has(mkNot(x)) {
			bf = v[0]
		} else {
			return occurs(v[0], x)
		}
		return bt != bf || bt == nil
	})
	c.contract(rule, "pkg/core.DHashAny", "each kind of value is hashed as itself", runOpt{args: []*Term{x}}, func(r *runRes, k K, v []*Term) bool {
		is := func(n string) bool { return k.has(mk("isType", n, x)) }
		w := v[0]
		switch {
		case is("core.Hasher"):
			return w.Op == "call" && strings.HasSuffix(w.Aux, "Hasher.Hash") && w.Args[0] == x
		case is("core.HashT"):
			return w == x
		case is("uint64"):
			return w == callTerm("core.DHashUint64", x)
		case is("[]byte"), is("[]uint8"):
			return w == callTerm("core.DHashBytes", x)
		case is("bool"):
			return w == callTerm("core.DHashBool", x)
		}
		return true
	})
}

// contractTargets: work grows with difficulty and the next target is bounded by the last.
func (c *Ctx) contractTargets() {
	h, t, ps := mkSym("h"), mkSym("t"), mkSym("params")
	rule := "targets"
	big := func(x *Term) *Term { return callTerm("core.HashT.BigInt", x) }
	c.contract(rule, "pkg/core.HashT.MinNextTarget", "a quarter of the target", runOpt{args: []*Term{h}}, func(r *runRes, k K, v []*Term) bool {
		return v[0] == callTerm("core.NewHashTFromBigInt", k.op(token.QUO, big(h), mkInt(4), tInt))
	})
	c.contract(rule, "pkg/core.HashT.MaxNextTarget", "four times the target, capped at the network's easiest", runOpt{args: []*Term{h, ps}}, func(r *runRes, k K, v []*Term) bool {
		four := callTerm("core.NewHashTFromBigInt", mkMul(mkInt(4), big(h)))
		max := F(ps, "MaxTarget")
		if v[0] == max {
			return k.has(mkHashLt(max, four)) || k.has(mkHashLt(max, h)) || k.has(mkNot(mkHashLt(four, max)))
		}
		return v[0] == four && (k.has(mkNot(mkHashLt(max, four))) || k.has(mkHashLt(four, max)))
	})
	c.contract(rule, "pkg/core.HashT.WorkAppendTarget", "adds the target's work", runOpt{args: []*Term{h, t}}, func(r *runRes, k K, v []*Term) bool {
		return v[0] == callTerm("core.NewHashTFromBigInt", mkAdd(big(h), callTerm("core.HashT.TargetToWork", t)))
	})
	c.contract(rule, "pkg/core.HashT.TargetToWork", "the whole hash range divided by the target", runOpt{args: []*Term{t}}, func(r *runRes, k K, v []*Term) bool {
		full := mk("call", "big.parse", mkStr(strings.Repeat("f", 64)), mkInt(16))
		return v[0] == k.op(token.QUO, full, big(t), tInt) || strings.HasSuffix(v[0].String(), " / core.HashT.BigInt(t))") && strings.Contains(v[0].String(), strings.Repeat("f", 64))
	})
	c.contract(rule, "pkg/core.HashT.BigInt", "the hash read as a big-endian number", runOpt{args: []*Term{h}}, func(r *runRes, k K, v []*Term) bool {
		return v[0] == callTerm("big.bytes", F(h, "data")) || v[0].String() == "big.bytes(h.data)"
	})
	c.contract(rule, "pkg/core.NewHashTFromBigInt", "the number written big-endian over all 32 bytes", runOpt{args: []*Term{h}}, func(r *runRes, k K, v []*Term) bool {
		return strings.HasPrefix(F(v[0], "data").String(), "big.fill(h")
	})
}

// erase replaces the calls of one function by a constant.
func erase(t *Term, name string) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if v, ok := memo[t]; ok {
			return v
		}
		v := t
		if isCall(t, name) {
			v = mkSym("erased")
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				v = mk(t.Op, t.Aux, args...)
			}
		}
		memo[t] = v
		return v
	}
	return rec(t)
}

// signers: whatever the wallet signs is the value the verifier checks, for the transaction it
// returns.
func (c *Ctx) signers() {
	sites := map[token.Pos]*ssa.Function{}
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && shortName(g) == "core.EcdsaSign" {
						sites[in.Pos()] = f
					}
				}
			}
		}
	}
	c.need("a call of core.EcdsaSign", len(sites) > 0)
	roots := map[*ssa.Function]bool{}
	for _, f := range sites {
		for _, e := range c.p.entries(f) {
			roots[e] = true
		}
	}
	var rs []*ssa.Function
	for f := range roots {
		rs = append(rs, f)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Pos() < rs[j].Pos() })
	hit := map[token.Pos]bool{}
	for _, f := range rs {
		var args []*Term
		for _, q := range f.Params {
			args = append(args, mkSym(q.Name()))
		}
		r := c.runFn(f, runOpt{args: args})
		for _, s := range r.in.sinks {
			if s.name == "core.EcdsaSign" {
				hit[s.pos] = true
			}
		}
		for _, o := range r.outs {
			if !r.succeeds(o) || len(o.vals) < 2 {
				continue
			}
			tx := r.in.resolve(o.st, o.vals[0])
			if tx == tNil || tx == tZero {
				continue
			}
			ok := true
			n := 0
			why := ""
			for f := range o.st.facts {
				anyTermMemo(f, func(t *Term) bool {
					var h *Term
					if t.Op == "did" && t.Aux == "core.EcdsaSign" {
						h = t.Args[1]
					} else if isCall(t, "core.EcdsaSign") && len(t.Args) >= 2 {
						h = t.Args[1]
					} else {
						return false
					}
					n++
					if !isCall(h, "core.TxHashPreSig") || h.Args[0] != F(tx, "MinBlock") ||
						erase(h.Args[1], "core.Tx.FeeFromRate") != erase(F(tx, "Outputs"), "core.Tx.FeeFromRate") {
						ok = false
						why = "signed " + clip(h.String(), 500) + "\n  returned outputs " + clip(F(tx, "Outputs").String(), 500)
					}
					return false
				})
			}
			c.ob("signer", shortName(f)+": signs the minimum block and outputs of the transaction it returns", ok && n > 0, o.pos, "%d signatures %s", n, why)
		}
	}
	for p, f := range sites {
		c.ob("signer", "signature made in "+shortName(f), hit[p], p, "every place that signs must be reached by an analysed entry point")
	}
	c.atLeast("signer", 2)
}
