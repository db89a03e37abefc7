package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C03, C06, C07: the chain state and the head ----

var stateOps = []string{"chain.State.Advance", "chain.State.Rewind", "chain.State.RewindUntil", "chain.State.Copy"}

func did(name string, args ...*Term) *Term { return mk("did", name, args...) }

// didMatch: some effect of that name, certainly done here, whose arguments satisfy pred.
func (k K) didMatch(name string, pred func(a []*Term) bool) bool { return k.didMatchD(name, pred, 0) }

func (k K) didMatchD(name string, pred func(a []*Term) bool, d int) bool {
	for f := range k.st.facts {
		if f.Op == "did" && f.Aux == name && pred(f.Args) {
			return true
		}
	}
	if d > 1 {
		return false
	}
	for f := range k.st.facts {
		if f.Op == "alts" {
			all := true
			for _, a := range f.Args {
				if n, ok := k.with(conjuncts(a)...); ok && !n.didMatchD(name, pred, d+1) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// dids lists every effect of that name mentioned in the facts, at any depth, with the facts known
// beside it.
func (k K) dids(name string) []didAt {
	var out []didAt
	var rec func(fs []*Term)
	rec = func(fs []*Term) {
		for _, f := range fs {
			switch {
			case f.Op == "did" && f.Aux == name:
				out = append(out, didAt{f.Args, fs})
			case f.Op == "all" || f.Op == "alts":
				as := f.Args
				if f.Op == "all" {
					as = as[1:]
				}
				for _, a := range as {
					rec(conjuncts(a))
				}
			}
		}
	}
	var top []*Term
	for f := range k.st.facts {
		top = append(top, f)
	}
	rec(top)
	return out
}

type didAt struct {
	args   []*Term
	beside []*Term
}

// addedEach: for each i < dom, elem(i) was put into the set.
func (k K) addedEach(set, dom *Term, elem func(i *Term) *Term) bool {
	if k.forall(dom, func(k K, i *Term) bool { return k.has(did("set.Add", set, elem(i))) }) {
		return true
	}
	return k.didMatch("set.AddAll", func(a []*Term) bool {
		if a[0] != set || !k.same(mkLen(a[1]), dom) {
			return false
		}
		specIdx++
		i := mk("idx", fmt.Sprintf("add%d", specIdx))
		return k.same(mkElem(a[1], i), elem(i))
	})
}

func utxoOf(id, i, value *Term) *Term {
	return mkStruct("Utxo", []string{"TxId", "Ind", "Value"}, []*Term{id, i, value})
}

// txsOf: the ids of the transactions of a block.
func idsOf(block *Term) *Term {
	return inv("GetMerkleTxIds", F(inv("GetBlock", block), "MerkleRoot"))
}

// setMutators finds the functions that may change a map or set held in a field of the state.
func (p *Prog) stateMutators(typ string) map[string][]fieldWrite {
	t := p.typ(typ)
	out := map[string][]fieldWrite{}
	if t == nil {
		return out
	}
	readOnly := map[string]bool{"Includes": true, "IncludesAny": true, "HasIntersection": true, "Size": true, "ToList": true, "Copy": true, "CopyMap": true, "MapKeys": true, "len": true}
	for _, f := range p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) {
					continue
				}
				name := p.fieldName(pt.Elem(), fa.Field)
				switch u.Type().Underlying().(type) {
				case *types.Map, *types.Pointer, *types.Slice:
				default:
					continue
				}
				for _, r := range *u.Referrers() {
					mut := false
					switch r := r.(type) {
					case *ssa.MapUpdate:
						mut = r.Map == u
					case ssa.CallInstruction:
						com := r.Common()
						n := ""
						if bi, ok := com.Value.(*ssa.Builtin); ok {
							n = bi.Name()
						} else if g := com.StaticCallee(); g != nil {
							n = g.Name()
							if g.Origin() != nil {
								n = g.Origin().Name()
							}
						}
						mut = !readOnly[n]
					case *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.DebugRef:
					default:
						mut = true // escapes: counted as a change
					}
					if mut {
						out[name] = append(out[name], fieldWrite{f, name, r.Pos(), u})
					}
				}
			}
		}
	}
	return out
}

// onlyEntered: every exported way into f is one of the named functions.
func (c *Ctx) onlyEntered(rule, what string, ws []fieldWrite, names ...string) {
	ok := map[string]bool{}
	for _, n := range names {
		ok[n] = true
	}
	for _, w := range ws {
		for _, e := range c.p.entries(w.fn) {
			c.ob(rule, what+" changed in "+shortName(w.fn)+" entered from "+shortName(e), ok[shortName(e)], w.pos,
				"only %s may lead to a change of %s", strings.Join(names, ", "), what)
		}
	}
}

func (c *Ctx) runAdvance() (*runRes, *Term, *Term) {
	s, b := mkSym("s"), mkSym("b")
	return c.run("internal/chain.State.Advance", runOpt{args: []*Term{s, b, mkSym("auto")}}), s, b
}

func (c *Ctx) runRewind() (*runRes, *Term) {
	s := mkSym("s")
	return c.run("internal/chain.State.Rewind", runOpt{args: []*Term{s}}), s
}

// retOutcomes requires cond on each normal return.
func (c *Ctx) onReturn(r *runRes, rule, what string, cond func(k K) bool) {
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		n++
		ok := cond(r.k(o))
		d := "on every return"
		if !ok {
			d = "a return does not establish: " + what + r.describe(o)
		}
		c.ob(rule, shortName(r.fn)+": "+what, ok, o.pos, "%s", d)
	}
	if n == 0 {
		c.ob("coverage", rule+" in "+shortName(r.fn), false, r.fn.Pos(), "no returning path found")
	}
}

func consumed(id, j *Term) *Term { return F(mkElem(F(inv("GetTx", id), "Inputs"), j), "Utxo") }

func created(id, j *Term) *Term {
	return utxoOf(id, j, F(mkElem(F(inv("GetTx", id), "Outputs"), j), "Value"))
}

// isConsumed / isCreated: the value is an input (or output) of some transaction of the block.
func isConsumed(t, ids *Term) bool {
	if t.Op != "fld" || t.Aux != "Utxo" || t.Args[0].Op != "elem" {
		return false
	}
	l := t.Args[0].Args[0]
	return l.Op == "fld" && l.Aux == "Inputs" && isCall(l.Args[0], "inv.Inv.GetTx") && l.Args[0].Args[0].Op == "elem" && l.Args[0].Args[0].Args[0] == ids
}

func isCreated(t, ids *Term) bool {
	id, ind := F(t, "TxId"), F(t, "Ind")
	return id.Op == "elem" && id.Args[0] == ids && t == created(id, ind)
}

func init() {
	register("C03",
		"on every path by which a block is applied to the chain state: each transaction's inputs are removed from the unspent set (a removal that finds nothing fails the application), its outputs added, it was not on the chain already and is recorded as such; nothing but applying and undoing a block changes the unspent set; at every store of a transaction its inputs are pairwise distinct",
		nil, func(c *Ctx) {
			r, s, b := c.runAdvance()
			if r == nil {
				return
			}
			ids := idsOf(b)
			n := mkLen(ids)
			ut, incl := F(s, "utxos"), F(s, "includedTxBlocks")
			c.onSuccess(r, "apply-spends", "every output spent was unspent and is removed", func(k K) bool {
				return k.forall(n, func(k K, i *Term) bool {
					id := mkElem(ids, i)
					return k.forall(mkLen(F(inv("GetTx", id), "Inputs")), func(k K, j *Term) bool {
						return k.has(did("set.Remove", ut, consumed(id, j)))
					})
				})
			})
			c.onSuccess(r, "apply-creates", "every output created becomes unspent", func(k K) bool {
				return k.forall(n, func(k K, i *Term) bool {
					id := mkElem(ids, i)
					return k.addedEach(ut, mkLen(F(inv("GetTx", id), "Outputs")), func(j *Term) *Term { return created(id, j) })
				})
			})
			c.onSuccess(r, "apply-once", "no transaction was on the chain already", func(k K) bool {
				return k.forall(n, func(k K, i *Term) bool {
					id := mkElem(ids, i)
					for f := range k.st.facts {
						if f.Op == "not" && f.Args[0].Op == "has" && f.Args[0].Args[1] == id {
							m := f.Args[0].Args[0]
							if m == incl || m == contOf(incl) || occursIn(m, incl) {
								return true
							}
						}
					}
					return false
				})
			})
			c.onSuccess(r, "apply-once", "every transaction is recorded as on the chain", func(k K) bool {
				return k.forall(n, func(k K, i *Term) bool { return k.has(did("mapput", incl, mkElem(ids, i), b)) })
			})
			c.onSuccess(r, "apply-base", "the block extends the current head and becomes the head", func(k K) bool {
				return k.has(mkEq(F(inv("GetBlock", b), "PrevBlockId"), F(s, "head"))) && k.has(did("store", mk("fld", "head", s), b)) || k.has(mkEq(F(inv("GetBlock", b), "PrevBlockId"), F(s, "head"))) && k.didMatch("store", func(a []*Term) bool { return strings.HasSuffix(a[0].String(), "s.head") && a[1] == b })
			})
			for _, q := range r.in.sinks {
				if len(q.args) < 2 || q.args[0] != ut && q.args[0] != incl {
					continue
				}
				ok := true
				v := q.args[1]
				switch q.name {
				case "set.Remove":
					ok = isConsumed(v, ids)
				case "set.Add":
					ok = isCreated(v, ids)
				case "set.AddAll":
					specIdx++
					ok = isCreated(mkElem(v, mk("idx", "x")), ids)
				case "mapput":
					ok = v.Op == "elem" && v.Args[0] == ids && len(q.args) > 2 && q.args[2] == b
				case "set.Filter", "mapdel":
					ok = false
				}
				c.ob("apply-only", shortName(r.fn)+": "+q.name+" on the unspent set or the record of included transactions in "+q.stack[len(q.stack)-1], ok, q.pos, "an effect other than spending an input or creating an output of the block: %s", clip(v.String(), 300))
			}
			c.atLeast("apply-only", 3)
			mut := c.p.stateMutators("internal/chain.State")
			for _, f := range []string{"utxos", "includedTxBlocks"} {
				c.need("a change of the state's "+f, len(mut[f]) > 0)
				c.onlyEntered("all-writers", "the state's "+f, mut[f], "chain.State.Advance", "chain.State.Rewind")
			}
			c.onlyEntered("all-writers", "a field of the state", c.nonBuilding("internal/chain.State"), "chain.State.Advance", "chain.State.Rewind")
			for _, q := range c.stores("TxRecord") {
				tx := F(q.rec, "Tx")
				c.at(q, "distinct-inputs", "no output is spent twice by one transaction", q.k.distinctInputs(F(tx, "Inputs")))
			}
			c.atLeast("distinct-inputs", 1)
			c.contractSet()
			c.contractInvReads("GetBlock", "GetMerkleTxs", "GetMerkleTxIds", "GetTx", "HasTx", "HasBlock")
			c.contractHashEq()
			c.contractSyncMap()
		})

	register("C06",
		"every replacement of the chain state in use is dominated by: the new state was made as a copy of the state in use, every block applied to it was applied successfully, the last of them is the new head, whose total work is strictly greater; the state in use is never advanced or rewound in place; announcing and saving follow the replacement and name the new head",
		nil, func(c *Ctx) {
			r, ch := c.runLoop()
			if r == nil {
				return
			}
			loc := mk("fld", "state", ch)
			isState := func(t *Term) bool { return t == F(ch, "state") || mentionsField(t, ch, "state") }
			n := 0
			for _, q := range r.in.sinks {
				where := strings.Join(q.stack, " > ")
				switch {
				case q.kind == "store" && (q.args[0] == loc || q.args[0] == F(ch, "state") || q.args[0].String() == F(ch, "state").String()):
					n++
					k := q.k(r.in)
					x := q.args[1]
					ok := isCall(x, "chain.State.Copy") && isState(x.Args[0]) && x.Args[0] == r.in.resolve(k.st, r.in.loadShallow(k.st, q.args[0]))
					c.ob("fresh-copy", where+": the new state is a copy of the state in use", ok, q.pos, "replaced by %s", clip(x.String(), 300))
					if !isCall(x, "chain.State.Copy") {
						continue
					}
					cur := x.Args[0]
					okAll := true
					var applied []*Term
					why := ""
					for _, d := range k.dids("chain.State.Advance") {
						if d.args[0] != x {
							okAll = false
							why = "applied to " + clip(d.args[0].String(), 200)
							continue
						}
						good := false
						for _, f := range d.beside {
							if f.Op == "eq" && (f.Args[0] == tNil || f.Args[1] == tNil) {
								o := f.Args[0]
								if o == tNil {
									o = f.Args[1]
								}
								if isCall(o, "chain.State.Advance") && len(o.Args) >= 2 && o.Args[0] == d.args[0] && o.Args[1] == d.args[1] {
									good = true
								}
							}
						}
						if !good {
							okAll = false
							why = "not known to have succeeded for " + clip(d.args[1].String(), 200)
						}
						applied = append(applied, d.args[1])
					}
					c.ob("all-applied", where+": every block was applied successfully to the new state", okAll && len(applied) > 0, q.pos, "%s", why)
					// strictly more work than the head in use, for the last block applied
					okWork := false
					for _, h := range k.lastApplied(x) {
						if k.has(mkHLt(inv("GetBlockTotalWork", F(cur, "head")), inv("GetBlockTotalWork", h))) {
							okWork = true
						}
					}
					c.ob("more-work", where+": the new head has strictly more total work", okWork, q.pos, "%s", describeIf(!okWork, q.facts))
				case q.name == "chain.State.Advance" || q.name == "chain.State.Rewind" || q.name == "chain.State.RewindUntil":
					ok := isCall(q.args[0], "chain.State.Copy")
					c.ob("not-in-place", where+": "+q.name+" works on a copy", ok, q.pos, "applied to %s", clip(q.args[0].String(), 200))
				case q.name == "topic.Topic.Pub" && strings.HasSuffix(q.args[0].String(), ".ValidatedHead"):
					x := switchedTo(q, loc, F(ch, "state"))
					c.ob("announce-after", where+": a head is announced only after the switch to it", x != nil && c.isHeadOf(q.k(r.in), F(mkElem(q.args[1], mkInt(0)), "Head"), x), q.pos, "announced %s", clip(q.args[1].String(), 300))
				case (q.name == "util.WriteFileAtomic" || strings.HasPrefix(q.name, "os.")) && q.name != "os.MkdirAll" && q.name != "os.Stat" && q.name != "os.ReadFile":
					x := switchedTo(q, loc, F(ch, "state"))
					h := q.args[1]
					ok := x != nil && isCall(h, "core.HashT.String") && c.isHeadOf(q.k(r.in), h.Args[0], x)
					c.ob("save-after", where+": a head is saved only after the switch to it", ok, q.pos, "saved %s", clip(h.String(), 300))
				}
			}
			c.need("a replacement of the chain state in use", n > 0)
			for _, rule := range []string{"fresh-copy", "all-applied", "more-work", "announce-after", "save-after"} {
				c.atLeast(rule, 1)
			}
			c.atLeast("not-in-place", 3)
			// every switch is announced and, with a save directory, saved
			h := c.headHandler(r, loc, F(ch, "state"))
			if c.need("the function that switches the chain state", h != nil) {
				hr := c.runFn(h, runOpt{args: paramSyms(h, "c"), opaque: append([]string{"chain.Chain.CreateMiningTarget"}, stateOps...)})
				cc := mkSym("c")
				c.onReturn(hr, "announced", "a switch is announced and saved", func(k K) bool {
					sw := k.didMatch("store", func(a []*Term) bool { return a[0].String() == F(cc, "state").String() })
					if !sw {
						return true
					}
					pub := k.didMatch("topic.Topic.Pub", func(a []*Term) bool { return strings.HasSuffix(a[0].String(), ".ValidatedHead") })
					save := k.has(mkEq(F(cc, "saveDir"), tNil)) || k.didMatch("util.WriteFileAtomic", func(a []*Term) bool { return true })
					return pub && save
				})
			}
			// the state in use is set nowhere else
			for _, w := range c.p.fieldWrites("internal/chain.Chain") {
				es := c.p.entries(w.fn)
				ok := true
				for _, e := range es {
					if e.Name() != "NewChain" && e.Name() != "Loop" {
						ok = false
					}
				}
				c.ob("all-writers", "chain field "+w.field+" written in "+shortName(w.fn), ok && len(es) > 0, w.pos, "the chain's fields may only be set when it is built and by its own routine")
			}
			a, s, b := c.runAdvance()
			c.onSuccess(a, "apply-head", "applying a block makes it the head", func(k K) bool {
				return k.didMatch("store", func(x []*Term) bool { return x[0].String() == F(s, "head").String() && x[1] == b })
			})
			c.onSuccess(a, "apply-head", "a block is applied only on top of its parent", func(k K) bool {
				return k.has(mkEq(F(inv("GetBlock", b), "PrevBlockId"), F(s, "head")))
			})
			c.deepCopy()
			c.records()
			c.contractLCA()
			c.contractSet()
			c.contractUtil()
		})

	register("C07",
		"the effects of applying a block, per transaction, are each matched by the inverse effect when it is undone (unspent outputs, included transactions, pending transactions, owners' outputs, head), with transactions and blocks visited in opposite orders; every field of a copied state is a value or a freshly made container whose nested containers are fresh as well",
		nil, func(c *Ctx) {
			r, s, b := c.runAdvance()
			w, _ := c.runRewind()
			if r == nil || w == nil {
				return
			}
			hd := F(s, "head")
			f := func(n string) *Term { return F(s, n) }
			type dir struct {
				r    *runRes
				ids  *Term
				back bool
			}
			fwd := dir{r, idsOf(b), false}
			rev := dir{w, idsOf(hd), true}
			each := func(d dir, rule, what string, body func(k K, id *Term) bool) {
				cond := func(k K) bool {
					n := mkLen(d.ids)
					return k.forall(n, func(k K, i *Term) bool {
						if d.back {
							i = mkSub(mkAdd(n, mkInt(-1)), i, false)
						}
						return body(k, mkElem(d.ids, i))
					})
				}
				if d.back {
					c.onReturn(d.r, rule, what, cond)
				} else {
					c.onSuccess(d.r, rule, what, cond)
				}
			}
			inputs := func(k K, id *Term, g func(k K, u *Term) bool) bool {
				return k.forall(mkLen(F(inv("GetTx", id), "Inputs")), func(k K, j *Term) bool { return g(k, consumed(id, j)) })
			}
			outputs := func(k K, id *Term, g func(k K, u, owner *Term) bool) bool {
				outs := F(inv("GetTx", id), "Outputs")
				return k.forall(mkLen(outs), func(k K, j *Term) bool { return g(k, created(id, j), F(mkElem(outs, j), "PublicKeyHash")) })
			}
			owner := func(u *Term) *Term {
				return F(mkElem(F(inv("GetTx", F(u, "TxId")), "Outputs"), F(u, "Ind")), "PublicKeyHash")
			}
			// applying, in block order
			each(fwd, "apply", "in block order, each transaction stops being pending", func(k K, id *Term) bool {
				return k.has(did("set.Remove", f("mempool"), id)) && k.has(did("mapdel", f("mempoolRates"), id))
			})
			each(fwd, "apply", "in block order, each transaction's claim on its inputs ends", func(k K, id *Term) bool {
				return inputs(k, id, func(k K, u *Term) bool { return k.leftGroup(f("mempoolUtxoSpends"), u, id) })
			})
			each(fwd, "apply", "in block order, each spent output is removed, also from its owner", func(k K, id *Term) bool {
				return inputs(k, id, func(k K, u *Term) bool {
					return k.has(did("set.Remove", f("utxos"), u)) && k.leftGroup(f("pkhUtxos"), owner(u), u)
				})
			})
			each(fwd, "apply", "in block order, each created output is added, also to its owner", func(k K, id *Term) bool {
				return outputs(k, id, func(k K, u, o *Term) bool {
					return k.has(did("set.Add", f("utxos"), u)) && k.joinedGroup(f("pkhUtxos"), o, u)
				})
			})
			each(fwd, "apply", "in block order, each transaction is recorded as included", func(k K, id *Term) bool {
				return k.has(did("mapput", f("includedTxBlocks"), id, b))
			})
			// undoing, in reverse order
			each(rev, "undo", "in reverse order, each transaction becomes pending again", func(k K, id *Term) bool {
				return k.has(did("set.Add", f("mempool"), id)) && k.has(did("mapput", f("mempoolRates"), id, callTerm("core.Tx.Rate", inv("GetTx", id))))
			})
			each(rev, "undo", "in reverse order, each transaction claims its inputs again", func(k K, id *Term) bool {
				return inputs(k, id, func(k K, u *Term) bool { return k.joinedGroup(f("mempoolUtxoSpends"), u, id) })
			})
			each(rev, "undo", "in reverse order, each spent output is restored, also to its owner", func(k K, id *Term) bool {
				return inputs(k, id, func(k K, u *Term) bool {
					return k.has(did("set.Add", f("utxos"), u)) && k.joinedGroup(f("pkhUtxos"), owner(u), u)
				})
			})
			each(rev, "undo", "in reverse order, each created output is removed, also from its owner", func(k K, id *Term) bool {
				return outputs(k, id, func(k K, u, o *Term) bool {
					return k.has(did("set.Remove", f("utxos"), u)) && k.leftGroup(f("pkhUtxos"), o, u)
				})
			})
			each(rev, "undo", "in reverse order, each transaction stops being recorded as included", func(k K, id *Term) bool {
				return k.has(did("mapdel", f("includedTxBlocks"), id))
			})
			c.onReturn(w, "undo-head", "the head becomes the parent", func(k K) bool {
				return k.didMatch("store", func(x []*Term) bool {
					return x[0].String() == hd.String() && x[1] == F(inv("GetBlock", hd), "PrevBlockId")
				})
			})
			// a pending transaction is recorded the same way when it first arrives
			ar := c.run("internal/chain.State.AddMempoolTx", runOpt{args: []*Term{s, mkSym("id")}})
			c.onReturn(ar, "pending", "a pending transaction is recorded with its rate and its claims", func(k K) bool {
				id := mkSym("id")
				return k.has(did("set.Add", f("mempool"), id)) && k.has(did("mapput", f("mempoolRates"), id, callTerm("core.Tx.Rate", inv("GetTx", id)))) &&
					inputs(k, id, func(k K, u *Term) bool { return k.joinedGroup(f("mempoolUtxoSpends"), u, id) })
			})
			// neither touches anything else, and nothing else changes the state
			for _, d := range []dir{fwd, rev} {
				for _, q := range d.r.in.sinks {
					if q.kind == "make" || q.kind == "panic" || len(q.args) == 0 {
						continue
					}
					ok := true
					switch q.name {
					case "set.Remove", "set.Add", "mapput", "mapdel":
						ok = rootedAt(q.args[0], s) || q.args[0].Op == "obj"
					case "set.AddAll", "set.Filter":
						ok = !rootedAt(q.args[0], s) || q.args[0] == f("utxos") && q.name == "set.AddAll"
					default:
						ok = q.kind != "store" || q.args[0].String() == hd.String() || rootObj(q.args[0]) != nil
						if q.kind == "call" && !strings.HasPrefix(q.name, "fmt.") && q.name != "sort" {
							ok = false
						}
					}
					c.ob("only", shortName(d.r.fn)+": "+q.kind+" "+q.name+" in "+q.stack[len(q.stack)-1], ok, q.pos, "unexpected effect on %s", clip(q.args[0].String(), 200))
					c.groupKept(d.r, q, f("mempoolUtxoSpends"), f("pkhUtxos"))
				}
			}
			if ar != nil {
				for _, q := range ar.in.sinks {
					c.groupKept(ar, q, f("mempoolUtxoSpends"), f("pkhUtxos"))
				}
			}
			c.atLeast("groups", 4)
			mut := c.p.stateMutators("internal/chain.State")
			var fs []string
			for n := range mut {
				fs = append(fs, n)
			}
			sort.Strings(fs)
			for _, n := range fs {
				c.onlyEntered("all-writers", "the state's "+n, mut[n], "chain.State.Advance", "chain.State.Rewind", "chain.State.AddMempoolTx")
			}
			// undoing several blocks only undoes blocks
			u := c.run("internal/chain.State.RewindUntil", runOpt{args: []*Term{s, mkSym("to")}, opaque: []string{"chain.State.Rewind"}})
			if u != nil {
				ok, n := true, 0
				for _, q := range u.in.sinks {
					switch {
					case q.name == "chain.State.Rewind" && q.args[0] == s:
						n++
					case q.kind == "panic" || q.kind == "make" || strings.HasPrefix(q.name, "fmt."):
					default:
						ok = false
					}
				}
				c.ob("undo-many", "chain.State.RewindUntil: only undoes blocks of this state", ok && n > 0, u.fn.Pos(), "other effects found")
			}
			c.deepCopy()
			c.contractSet()
			c.contractUtil()
			c.contractInvReads("GetBlock", "GetMerkleTxs", "GetMerkleTxIds", "GetTx", "GetTxOut")
			c.contractSyncMap()
			c.contractHashEq()
		})
}

// rootedAt: the container is a field of s or is held in one.
func rootedAt(t, s *Term) bool { return occursIn(t, s) }

// leftGroup: x was taken out of the set filed under key in the map of sets (and the set, when left
// empty, may be dropped).
func (k K) leftGroup(m, key, x *Term) bool {
	return k.didMatch("set.Remove", func(a []*Term) bool {
		return a[1] == x && a[0].Op == "lookup" && occursIn(a[0].Args[0], m) && a[0].Args[1] == key
	})
}

// groupKept: a set filed in a map of sets is dropped only when it is empty, and replaced only when
// there is none.
func (c *Ctx) groupKept(r *runRes, q Sink, ms ...*Term) {
	if q.kind != "mapdel" && q.kind != "mapput" {
		return
	}
	for _, m := range ms {
		if q.args[0] != m {
			continue
		}
		k, key := q.k(r.in), q.args[1]
		isGroup := func(t *Term) bool { return t.Op == "lookup" && t.Args[1] == key && occursIn(t.Args[0], m) }
		what, ok := "is dropped only when it is empty", false
		if q.kind == "mapput" {
			what, ok = "is put there only when there is none", anyTermMemo(q.args[2], isGroup)
		}
		for f := range k.st.facts {
			switch {
			case q.kind == "mapput":
				if f.Op == "not" && f.Args[0].Op == "has" && f.Args[0].Args[1] == key && occursIn(f.Args[0].Args[0], m) ||
					f.Op == "eq" && (f.Args[0] == tNil && isGroup(f.Args[1]) || f.Args[1] == tNil && isGroup(f.Args[0])) {
					ok = true
				}
			default:
				ok = ok || anyTermMemo(f, func(n *Term) bool {
					if n.Op != "len" {
						return false
					}
					s := n.Args[0]
					if isCall(s, "setlist") {
						s = s.Args[0]
					}
					left := int64(1)
					for s.Op == "srm" {
						s, left = s.Args[0], 0
					}
					return isGroup(s) && (k.has(mkEq(n, mkInt(left))) || k.has(mkEq(n, mkInt(0))))
				})
			}
		}
		c.ob("groups", shortName(r.fn)+": a set in "+m.String()+" "+what+" in "+q.stack[len(q.stack)-1], ok, q.pos, "at %s%s", clip(key.String(), 200), describeIf(!ok, k.st.facts))
	}
}

// joinedGroup: x was put into the set filed under key, which was made if missing.
func (k K) joinedGroup(m, key, x *Term) bool {
	old := func(k K) bool {
		return k.didMatch("set.Add", func(a []*Term) bool {
			return a[1] == x && a[0].Op == "lookup" && occursIn(a[0].Args[0], m) && a[0].Args[1] == key
		})
	}
	made := func(k K) bool {
		return k.didMatch("mapput", func(a []*Term) bool { return a[0] == m && a[1] == key }) &&
			k.didMatch("set.Add", func(a []*Term) bool { return a[1] == x && a[0].Op == "obj" })
	}
	if old(k) || made(k) {
		return true
	}
	for f := range k.st.facts {
		if f.Op == "alts" {
			all := true
			for _, a := range f.Args {
				if n, ok := k.with(conjuncts(a)...); ok && !old(n) && !made(n) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// distinctInputs: no two inputs claim the same output.
func (k K) distinctInputs(ins *Term) bool {
	n := mkLen(ins)
	if k.has(mkEq(n, mkInt(0))) {
		return true
	}
	for f := range k.st.facts {
		// as many different ones as inputs
		if f.Op == "eq" && (f.Args[0] == n && allUtxos(f.Args[1], ins) || f.Args[1] == n && allUtxos(f.Args[0], ins)) {
			return true
		}
	}
	at := func(i *Term) *Term { return F(mkElem(ins, i), "Utxo") }
	if k.forall(n, func(k K, i *Term) bool {
		for f := range k.st.facts {
			if f.Op == "not" && k.among(f.Args[0], ins, i) {
				return true
			}
		}
		return k.forall(i, func(k K, j *Term) bool { return k.has(mkNot(mkEq(at(i), at(j)))) })
	}) {
		return true
	}
	for _, outer := range []*Term{n, mkSub(n, mkInt(1), false)} {
		if k.forall(outer, func(k K, i *Term) bool {
			return k.forall(mkSub(mkSub(n, i, false), mkInt(1), false), func(k K, j *Term) bool {
				return k.has(mkNot(mkEq(at(i), at(mkAdd(mkAdd(i, j), mkInt(1))))))
			})
		}) {
			return true
		}
	}
	return false
}

// allUtxos: the size of a set or map of the outputs all inputs claim.
func allUtxos(size, ins *Term) bool {
	if size.Op != "len" {
		return false
	}
	for s := size.Args[0]; ; s = s.Args[0] {
		if coversEarlier(s, ins, mkLen(ins)) {
			return true
		}
		if s.Op != "keys" && !isCall(s, "setlist") {
			return false
		}
	}
}

// among: f tells whether the output input i claims is among what a collection holds, which is what the inputs before it claim.
func (k K) among(f, ins, i *Term) bool {
	u := F(mkElem(ins, i), "Utxo")
	switch f.Op {
	case "in":
		return f.Args[0] == u && coversEarlier(f.Args[1], ins, i)
	case "has", "lookup":
		return f.Args[1] == u && coversEarlier(f.Args[0], ins, i) && (f.Op == "has" || f.Args[0].Op == "mapof" && f.Args[0].Args[2] == tTrue)
	}
	return false
}

// coversEarlier: the collection holds the claimed outputs of all inputs before i.
func coversEarlier(set, ins, i *Term) bool {
	switch set.Op {
	case "concat":
		for _, a := range set.Args {
			if coversEarlier(a, ins, i) {
				return true
			}
		}
	case "map":
		v := binderVar(set)
		return set.Args[0] == i && set.Args[1] == F(mkElem(ins, v), "Utxo")
	case "mapof":
		v := binderVar(set)
		return set.Args[0] == i && set.Args[1] == F(mkElem(ins, v), "Utxo")
	}
	return false
}

// nonBuilding: field writes of a type outside the functions that build a fresh value of it.
func (c *Ctx) nonBuilding(typ string) []fieldWrite {
	var out []fieldWrite
	for _, w := range c.p.fieldWrites(typ) {
		if _, fresh := w.base.(*ssa.Alloc); fresh {
			continue
		}
		out = append(out, w)
	}
	return out
}

func paramSyms(f *ssa.Function, recv string) []*Term {
	var args []*Term
	for i, p := range f.Params {
		n := p.Name()
		if i == 0 && f.Signature.Recv() != nil && recv != "" {
			n = recv
		}
		args = append(args, mkSym(n))
	}
	return args
}

// runLoop analyses the chain routine with the state's own operations kept abstract.
func (c *Ctx) runLoop() (*runRes, *Term) {
	ch := mkSym("c")
	r := c.run("internal/chain.Chain.Loop", runOpt{args: []*Term{ch}, opaque: stateOps})
	return r, ch
}

func mentionsField(t, base *Term, name string) bool {
	f := F(base, name)
	return anyTermMemo(t, func(x *Term) bool { return x == f || x == contOf(f) || x.String() == f.String() })
}

func didArgs(k K, name string, first, second *Term) []*Term {
	for f := range k.st.facts {
		if f.Op == "did" && f.Aux == name && len(f.Args) >= 2 && f.Args[0] == first && f.Args[1] == second {
			return f.Args
		}
	}
	return []*Term{mkSym("none")}
}

func describeIf(bad bool, facts map[*Term]bool) string {
	if bad {
		return "not established" + describeFacts(facts)
	}
	return "established"
}

// switchedTo: the new state, if the state in use has been replaced on the way here.
func switchedTo(q Sink, loc, f *Term) *Term {
	for d := range q.facts {
		if d.Op == "did" && d.Aux == "store" && (d.Args[0] == loc || d.Args[0].String() == f.String()) {
			return d.Args[1]
		}
	}
	return nil
}

// isHeadOf: the id is the head of the state x, or the last block successfully applied to it.
func (c *Ctx) isHeadOf(k K, h, x *Term) bool {
	if h == F(x, "head") {
		return true
	}
	for _, a := range k.lastApplied(x) {
		if a == h {
			return true
		}
	}
	return false
}

// lastApplied: the blocks applied to the state x outside any loop, and the last of each loop's.
func (k K) lastApplied(x *Term) []*Term {
	var out []*Term
	for f := range k.st.facts {
		switch {
		case f.Op == "did" && f.Aux == "chain.State.Advance" && len(f.Args) >= 2 && f.Args[0] == x:
			out = append(out, f.Args[1])
		case f.Op == "all" && anyTerm(f, func(t *Term) bool { return t.Op == "did" && t.Aux == "chain.State.Advance" && t.Args[0] == x }):
			dom := f.Args[0]
			var at, e *Term
			k.forall(dom, func(k K, i *Term) bool {
				at = i
				return k.didMatch("chain.State.Advance", func(a []*Term) bool {
					if len(a) >= 2 && a[0] == x {
						e = a[1]
					}
					return e != nil
				})
			})
			if e == nil || k.has(mkEq(dom, mkInt(0))) {
				continue
			}
			out = append(out, k.in.resolve(k.st, subst(e, at, mkAdd(dom, mkInt(-1)))))
		}
	}
	return out
}

func (c *Ctx) headHandler(r *runRes, loc, f *Term) *ssa.Function {
	for _, q := range r.in.sinks {
		if q.kind == "store" && (q.args[0] == loc || q.args[0].String() == f.String()) {
			// the function called from the routine
			for i, g := range q.fns {
				if i > 0 {
					return g
				}
			}
			return q.fns[len(q.fns)-1]
		}
	}
	return nil
}

// deepCopy: no container of a copied state is shared with the original.
func (c *Ctx) deepCopy() {
	s := mkSym("s")
	r := c.run("internal/chain.State.Copy", runOpt{args: []*Term{s}})
	if r == nil {
		return
	}
	t := c.p.typ("internal/chain.State")
	if !c.need("chain.State", t != nil) {
		return
	}
	st := t.Underlying().(*types.Struct)
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		k := r.k(o)
		ref := o.vals[0]
		for i := 0; i < st.NumFields(); i++ {
			n := c.p.fieldName(t, i)
			ft := st.Field(i).Type()
			v := r.in.load(o.st, mk("fld", n, ref), ft)
			old := F(s, n)
			what := "chain.State.Copy: field " + n
			switch u := ft.Underlying().(type) {
			case *types.Map:
				if v == old || v.Op != "obj" {
					c.ob("deep-copy", what+" is a fresh map", false, o.pos, "the copy shares %s", clip(v.String(), 200))
					continue
				}
				ct := r.in.content(o.st, v)
				if isContainer(u.Elem()) {
					ok := ct.Op == "mapof" && len(ct.Args) == 4 && ct.Args[0] == mkLen(mkKeys(old)) || ct.Op == "mapof" && k.same(ct.Args[0], mkLen(old))
					if ok {
						bv := binderVar(ct)
						key := mkElem(mkKeys(old), bv)
						ok = ct.Args[1] == key && ct.Args[2].Op == "obj" && (ct.Args[3].Op == "emptymap" || ct.Args[3] == tZero)
					}
					// what each fresh element holds
					held := k.forall(mkLen(mkKeys(old)), func(k K, i *Term) bool {
						key := mkElem(mkKeys(old), i)
						return k.didMatch("mapput", func(a []*Term) bool { return a[1] == key && a[2] == mkLookup(old, key) })
					}) || k.forall(mkLen(old), func(k K, i *Term) bool {
						key := mkElem(mkKeys(old), i)
						return k.didMatch("mapput", func(a []*Term) bool { return a[1] == key && a[2] == mkLookup(old, key) })
					})
					c.ob("deep-copy", what+" holds fresh copies of the same elements", ok && held, o.pos, "the copy holds %s", clip(ct.String(), 300))
				} else {
					c.ob("deep-copy", what+" is a fresh map with the same entries", ct == old || k.same(ct, old), o.pos, "the copy holds %s", clip(ct.String(), 300))
				}
			case *types.Pointer, *types.Slice, *types.Chan:
				if v == old || v.Op != "obj" {
					c.ob("deep-copy", what+" is fresh", false, o.pos, "the copy shares %s", clip(v.String(), 200))
					continue
				}
				ct := r.in.content(o.st, v)
				c.ob("deep-copy", what+" is fresh with the same contents", ct == old || k.same(ct, old), o.pos, "the copy holds %s", clip(ct.String(), 300))
			default:
				c.ob("deep-copy", what+" has the same value", v == old || k.same(v, old), o.pos, "the copy has %s", clip(v.String(), 300))
			}
		}
	}
	c.atLeast("deep-copy", 8)
}

func isContainer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer, *types.Slice, *types.Chan:
		return true
	}
	return false
}
