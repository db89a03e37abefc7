package main

import (
	"go/token"
	"strings"
)

// ---- C30: nothing valid is refused ----
//
// The converse of the acceptance rules: every path that refuses something knows that a rule is broken.

// some tells whether body certainly holds for an element the facts speak of.
func (k K) some(list *Term, body func(k K, i, e *Term) bool) bool {
	seen := map[*Term]bool{}
	for f := range k.st.facts {
		if f.Op == "all" {
			continue
		}
		anyTerm(f, func(t *Term) bool {
			if t.Op == "elem" && t.Args[0] == list && !seen[t.Args[1]] {
				seen[t.Args[1]] = true
			}
			return false
		})
	}
	for i := range seen {
		n := mkLen(list)
		below := func(i *Term) bool { return k.less(i, n) || k.has(mkNot(mkLt(n, mkAdd(i, mkInt(1)), true))) }
		in := below(i)
		for f := range k.st.facts {
			in = in || f.Op == "lt" && f.Args[0] == i && below(f.Args[1])
		}
		if in && body(k, i, mkElem(list, i)) {
			return true
		}
	}
	return false
}

// split gives the cases a state is known to be one of.
func (k K) split(d int) []K {
	if d < 3 {
		for f := range k.st.facts {
			if f.Op == "alts" {
				var out []K
				for _, a := range f.Args {
					n, ok := k.with(conjuncts(a)...)
					if ok {
						delete(n.st.facts, f)
						out = append(out, n.split(d+1)...)
					}
				}
				return out
			}
		}
	}
	return []K{k}
}

type excuse struct {
	what string
	ok   func(k K) bool
}

func is(t *Term) func(k K) bool    { return func(k K) bool { return k.has(t) } }
func isNot(t *Term) func(k K) bool { return func(k K) bool { return k.has(mkNot(t)) } }

// refuses requires that every failing return of an analysed function knows of a broken rule.
func (c *Ctx) refuses(r *runRes, what string, excuses []excuse) {
	if r == nil {
		return
	}
	n := 0
	used := map[string]bool{}
	for _, o := range r.outs {
		if o.kind != "ret" || r.succeeds(o) && r.k(o).has(mkEq(r.in.resolve(o.st, o.vals[len(o.vals)-1]), tNil)) {
			continue
		}
		n++
		for _, k := range r.k(o).split(0) {
			found := false
			for _, e := range excuses {
				if e.ok(k) {
					found = true
					used[e.what] = true
				}
			}
			d := "a rule is broken on every path that refuses"
			if !found {
				d = "a path refuses " + what + " without a broken rule:" + describeFacts(k.st.facts)
			}
			c.ob("refused", shortName(r.fn)+": "+what+" is refused only for breaking a rule", found, o.pos, "%s", d)
		}
	}
	c.stats["refusing paths"] += n
	if n == 0 {
		c.ob("coverage", "refused in "+shortName(r.fn), false, r.fn.Pos(), "no refusing path found")
	}
}

// less: a is less than b, as signed or unsigned numbers.
func (k K) less(a, b *Term) bool {
	return k.has(mkLt(a, b, true)) || k.has(mkLt(a, b, false))
}

func less(a, b *Term) func(k K) bool { return func(k K) bool { return k.less(a, b) } }

// ovfAt: adding element i to the total of those before it wraps.
func (k K) ovfAt(list, i *Term, path ...string) bool {
	j := mk("idx", "sum")
	pre := mkBinder("sum", j, i, F(mkElem(list, j), path...))
	v := F(mkElem(list, i), path...)
	if k.has(mk("ovf", "", mkAdd(pre, v))) {
		return true
	}
	max := mk("int", "18446744073709551615")
	for _, p := range [][2]*Term{{pre, v}, {v, pre}} {
		if k.has(mkLt(mkSub(max, p[0], true), p[1], true)) {
			return true
		}
	}
	return false
}

// spentBefore: an earlier input names the same output as input i.
func (k K) spentBefore(ins, i *Term) bool {
	for f := range k.st.facts {
		if k.among(f, ins, i) {
			return true
		}
	}
	u := F(mkElem(ins, i), "Utxo")
	return k.some(ins, func(k K, j, e *Term) bool {
		return j != i && k.has(mkEq(F(e, "Utxo"), u)) && (k.has(mkNot(mkEq(i, j))) || k.less(i, j) || k.less(j, i))
	})
}

func (c *Ctx) storeRefusals() {
	P := invParams()
	x := mkSym("x")
	opt := runOpt{args: []*Term{mkSym("inv"), x}, exact: true, key: "exact", states: 2000}
	// transactions
	ins, outs := F(x, "Inputs"), F(x, "Outputs")
	cb := F(x, "IsCoinbase")
	some := func(list *Term, f func(k K, i, e *Term) bool) func(k K) bool {
		return func(k K) bool { return k.some(list, f) }
	}
	h := callTerm("core.TxHashPreSig", F(x, "MinBlock"), outs)
	c.refuses(c.run("internal/inv.Inv.StoreTx", opt), "a transaction", []excuse{
		{"stored already", is(inv("HasTx", callTerm("core.Tx.Hash", x)))},
		{"an input names no output", some(ins, func(k K, i, e *Term) bool {
			u := F(e, "Utxo")
			return k.has(mkNot(inv("HasTx", F(u, "TxId")))) || k.has(mkNot(mkLt(F(u, "Ind"), mkLen(F(inv("GetTx", F(u, "TxId")), "Outputs")), true))) ||
				k.has(mkNot(inv("HasTxOut", F(u, "TxId"), F(u, "Ind"))))
		})},
		{"an input's key is not the owner's", some(ins, func(k K, i, e *Term) bool {
			return k.has(mkNot(mkEq(callTerm("core.DHashBytes", F(e, "PublicKey")), F(originOf(e), "PublicKeyHash"))))
		})},
		{"an input states another value", some(ins, func(k K, i, e *Term) bool {
			return k.has(mkNot(mkEq(F(e, "Utxo", "Value"), F(originOf(e), "Value"))))
		})},
		{"a signature does not verify", some(ins, func(k K, i, e *Term) bool {
			v := callTerm("core.EcdsaVerify", F(e, "PublicKey"), h, F(e, "Signature"))
			return k.has(mkNot(mk("res", "0", v))) || k.has(mkNot(mkEq(mk("res", "1", v), tNil)))
		})},
		{"too large", less(F(P, "MaxTxVSize"), callTerm("core.Tx.VSize", x))},
		{"spends an output twice", func(k K) bool {
			for f := range k.st.facts {
				if n := mkLen(ins); f.Op == "not" && f.Args[0].Op == "eq" && (f.Args[0].Args[0] == n && allUtxos(f.Args[0].Args[1], ins) || f.Args[0].Args[1] == n && allUtxos(f.Args[0].Args[0], ins)) {
					return true
				}
			}
			return k.some(ins, func(k K, i, e *Term) bool { return k.spentBefore(ins, i) })
		}},
		{"the inputs' total overflows", some(ins, func(k K, i, e *Term) bool { return k.ovfAt(ins, i, "Utxo", "Value") })},
		{"the outputs' total overflows", some(outs, func(k K, i, e *Term) bool { return k.ovfAt(outs, i, "Value") })},
		{"a coinbase spends", func(k K) bool { return k.has(cb) && k.has(mkNot(mkEq(mkLen(ins), mkInt(0)))) }},
		{"a coinbase has not one output", func(k K) bool { return k.has(cb) && k.has(mkNot(mkEq(mkLen(outs), mkInt(1)))) }},
		{"a coinbase pays less than the reward", func(k K) bool {
			return k.has(cb) && (k.has(mkLt(sumOf(outs, "Value"), F(P, "BlockReward"), true)) || k.has(mkLt(F(mkElem(outs, mkInt(0)), "Value"), F(P, "BlockReward"), true)))
		}},
		{"an ordinary transaction has no surplus", func(k K) bool {
			return k.has(mkNot(cb)) && k.has(mkNot(mkLt(sumOf(outs, "Value"), sumOf(ins, "Utxo", "Value"), true)))
		}},
	})
	// tree nodes
	l, rr := F(x, "LChild"), F(x, "RChild")
	unknown := func(y *Term) func(k K) bool {
		return func(k K) bool {
			return k.has(mkNot(inv("HasEntity", y))) || k.has(mkNot(inv("HasMerkle", y))) && k.has(mkNot(inv("HasTx", y)))
		}
	}
	size := func(k K, y *Term) []*Term {
		out := []*Term{inv("GetEntityVSize", y)}
		if k.has(inv("HasMerkle", y)) {
			out = append(out, inv("GetMerkleVSize", y))
		}
		if k.has(inv("HasTx", y)) {
			out = append(out, inv("GetTxVSize", y))
		}
		return out
	}
	c.refuses(c.run("internal/inv.Inv.StoreMerkle", opt), "a tree node", []excuse{
		{"stored already", is(inv("HasMerkle", callTerm("core.MerkleNode.Hash", x)))},
		{"the left child is unknown", unknown(l)},
		{"the right child is unknown", unknown(rr)},
		{"the children share a transaction", func(k K) bool {
			if !k.has(mkNot(mkEq(l, rr))) {
				return false
			}
			a, b := inv("GetMerkleTxIds", l), inv("GetMerkleTxIds", rr)
			return k.has(mkInter(a, b)) || k.has(mkInter(b, a)) || k.some(a, func(k K, i, e *Term) bool { return k.has(mkIn(e, b)) }) || k.some(b, func(k K, i, e *Term) bool { return k.has(mkIn(e, a)) })
		}},
		{"too large", func(k K) bool {
			for _, a := range size(k, l) {
				if k.has(mkEq(l, rr)) && k.less(F(P, "MaxBlockVSize"), a) {
					return true
				}
				for _, b := range size(k, rr) {
					if k.has(mkNot(mkEq(l, rr))) && k.less(F(P, "MaxBlockVSize"), mkAdd(a, b)) {
						return true
					}
				}
			}
			return false
		}},
	})
	// blocks
	prev, root, mt, tgt := F(x, "PrevBlockId"), F(x, "MerkleRoot"), F(x, "MinedTime"), F(x, "Target")
	height := mkAdd(inv("GetBlockHeight", prev), mkInt(1))
	ids := inv("GetMerkleTxIds", root)
	per := F(P, "DifficultyPeriod")
	first := mkEq(prev, tZero)
	pt := F(inv("GetBlock", prev), "Target")
	now := mkAdd(callTerm("time.Time.Unix", mkSym("Now")), mkInt(3600))
	ri := mk("idx", "bal")
	txi := inv("GetTx", mkElem(ids, ri))
	si := mkBinder("sum", ri, mkLen(ids), sumOf(F(txi, "Inputs"), "Utxo", "Value"))
	so := mkBinder("sum", ri, mkLen(ids), sumOf(F(txi, "Outputs"), "Value"))
	notAfter := func(k K, f func(m *Term) bool) bool {
		for q := range k.st.facts {
			if q.Op == "not" && q.Args[0].Op == "lt" && q.Args[0].Args[1] == mt && f(q.Args[0].Args[0]) {
				return true
			}
			if q.Op == "lt" && q.Args[0] == mt && f(q.Args[1]) {
				return true
			}
		}
		return false
	}
	r := c.run("internal/inv.Inv.StoreBlock", opt)
	c.refuses(r, "a block", []excuse{
		{"stored already", is(inv("HasBlock", callTerm("core.Block.Hash", x)))},
		{"its id is not below its target", isNot(mkHLt(callTerm("core.Block.Hash", x), tgt))},
		{"its tree is unknown", isNot(inv("HasMerkle", root))},
		{"its parent is unknown", isNot(inv("HasBlock", prev))},
		{"it has no transaction", is(mkEq(mkLen(ids), mkInt(0)))},
		{"it has more transactions than fit", less(callTerm("core.BlockMaxTxs", P), mkLen(ids))},
		{"its coinbase names another height", isNot(mkEq(F(inv("GetTx", mkElem(ids, mkInt(0))), "MinBlock"), height))},
		{"its first transaction is no coinbase", func(k K) bool {
			f := F(inv("GetTx", mkElem(ids, mkInt(0))), "IsCoinbase")
			return k.has(mkNot(f)) || k.some(ids, func(k K, i, e *Term) bool {
				return k.has(mkEq(i, mkInt(0))) && k.has(mkNot(F(inv("GetTx", e), "IsCoinbase")))
			})
		}},
		{"another transaction is a coinbase", func(k K) bool {
			return k.some(ids, func(k K, i, e *Term) bool {
				return k.has(mkNot(mkEq(i, mkInt(0)))) && k.has(F(inv("GetTx", e), "IsCoinbase"))
			})
		}},
		{"it does not balance", isNot(mkEq(mkAdd(F(P, "BlockReward"), si), so))},
		{"it is too large", less(F(P, "MaxBlockVSize"), inv("GetMerkleVSize", root))},
		{"mined not after the median", func(k K) bool {
			return k.has(mkNot(first)) && notAfter(k, func(m *Term) bool { return k.isMedian(m, x) })
		}},
		{"the last of a period mined not after the first", func(k K) bool {
			return k.has(mkEq(k.op(token.REM, mkAdd(height, mkInt(1)), per, tU64), mkInt(0))) &&
				notAfter(k, func(m *Term) bool { return k.isPeriodStart(m, x, height, per) })
		}},
		{"(cannot be: a period has more than two blocks)", func(k K) bool {
			return k.has(first) && k.has(mkEq(k.op(token.REM, mkAdd(height, mkInt(1)), per, tU64), mkInt(0)))
		}},
		{"mined more than an hour ahead", less(now, mt)},
		{"the first block has another target", func(k K) bool {
			return k.has(first) && k.has(mkNot(mkEq(tgt, F(P, "OriginalTarget"))))
		}},
		{"the target changes inside a period", func(k K) bool {
			return k.has(mkNot(first)) && k.has(mkNot(mkEq(k.op(token.REM, height, per, tU64), mkInt(0)))) && k.has(mkNot(mkEq(tgt, pt)))
		}},
		{"the target is too hard", is(mkHLt(tgt, callTerm("core.HashT.MinNextTarget", pt)))},
		{"the target is too easy", is(mkHLt(callTerm("core.HashT.MaxNextTarget", pt, P), tgt))},
	})
}

// advanceRefusals: a block is not applied only if a rule is broken by it, or by the state it meets.
func (c *Ctx) advanceRefusals() {
	s, b, auto := mkSym("s"), mkSym("b"), mkSym("auto")
	r := c.run("internal/chain.State.Advance", runOpt{args: []*Term{s, b, auto}, exact: true, key: "exact", states: 2000})
	ids := idsOf(b)
	in := func(t, m *Term) bool { return t == m || occursIn(t, m) }
	someTx := func(f func(k K, id *Term) bool) func(k K) bool {
		return func(k K) bool {
			return k.some(ids, func(k K, i, id *Term) bool { return f(k, id) })
		}
	}
	someIn := func(f func(k K, id, u *Term) bool) func(k K) bool {
		return someTx(func(k K, id *Term) bool {
			return k.some(F(inv("GetTx", id), "Inputs"), func(k K, j, e *Term) bool { return f(k, id, F(e, "Utxo")) })
		})
	}
	// absent: a collection of the state, or what earlier transactions left of it, does not hold x
	absent := func(k K, m, x *Term) bool {
		for q := range k.st.facts {
			if q.Op == "not" && (q.Args[0].Op == "in" && q.Args[0].Args[0] == x && in(q.Args[0].Args[1], m) ||
				q.Args[0].Op == "has" && q.Args[0].Args[1] == x && in(q.Args[0].Args[0], m)) {
				return true
			}
		}
		return false
	}
	present := func(k K, m, x *Term) bool {
		for q := range k.st.facts {
			if q.Op == "has" && q.Args[1] == x && in(q.Args[0], m) || q.Op == "in" && q.Args[0] == x && in(q.Args[1], m) {
				return true
			}
		}
		return false
	}
	f := func(n string) *Term { return F(s, n) }
	c.refuses(r, "a block's application", []excuse{
		{"the block is unknown", isNot(inv("HasBlock", b))},
		{"it does not extend the head", isNot(mkEq(F(inv("GetBlock", b), "PrevBlockId"), F(s, "head")))},
		{"a transaction is unknown", someTx(func(k K, id *Term) bool { return k.has(mkNot(inv("HasTx", id))) })},
		{"a transaction comes too early", someTx(func(k K, id *Term) bool {
			m := F(inv("GetTx", id), "MinBlock")
			return k.less(inv("GetBlockHeight", b), m) || k.less(mkAdd(inv("GetBlockHeight", F(s, "head")), mkInt(1)), m)
		})},
		{"a transaction is not pending and may not be made so", someTx(func(k K, id *Term) bool {
			return k.has(mkNot(auto)) && absent(k, f("mempool"), id)
		})},
		{"an output spent is not unspent", someIn(func(k K, id, u *Term) bool { return absent(k, f("utxos"), u) })},
		{"a transaction is on the chain already", someTx(func(k K, id *Term) bool { return present(k, f("includedTxBlocks"), id) })},
		{"(cannot be, by C07: not pending when it was just found to be)", someTx(func(k K, id *Term) bool { return absent(k, f("mempool"), id) && k.has(auto) })},
		{"(cannot be, by C07: a pending transaction has no claim on its input)", someIn(func(k K, id, u *Term) bool {
			if absent(k, f("mempoolUtxoSpends"), u) {
				return true
			}
			for q := range k.st.facts {
				if q.Op == "not" && q.Args[0].Op == "in" && q.Args[0].Args[0] == id && in(q.Args[0].Args[1], f("mempoolUtxoSpends")) {
					return true
				}
			}
			return false
		})},
		{"(cannot be, by C07: an unspent output is not filed under its owner)", someIn(func(k K, id, u *Term) bool {
			o := F(mkElem(F(inv("GetTx", F(u, "TxId")), "Outputs"), F(u, "Ind")), "PublicKeyHash")
			if absent(k, f("pkhUtxos"), o) {
				return true
			}
			for q := range k.st.facts {
				if q.Op == "not" && q.Args[0].Op == "in" && q.Args[0].Args[0] == u && in(q.Args[0].Args[1], f("pkhUtxos")) {
					return true
				}
			}
			return false
		})},
	})
}

func init() {
	register("C30", "every path that refuses a transaction, tree node, block, chain or pending transaction is shown to know a broken rule", nil, func(c *Ctx) {
		c.storeRefusals()
		c.advanceRefusals()
		c.chainRounds()
		c.contractMaxTxs()
		c.contractSize()
		c.contractLCA()
		c.contractVerifier()
		c.contractInvReads("HasEntity", "GetEntityVSize", "GetMerkleVSize", "GetTxVSize", "HasMerkle", "HasTx", "HasTxOut", "GetTxOut", "HasBlock", "GetBlock", "GetBlockHeight", "GetBlockTotalWork", "GetMerkle", "GetMerkleTxIds", "GetMerkleTxs", "GetTx", "GetBlockAncestors", "GetBlockSpecificAncestor")
		c.contractHashEq()
		c.contractHashLt()
		c.contractTargets()
		c.contractHashing()
		c.contractEcdsa()
		c.contractDHash()
		c.contractSet()
		c.contractSyncMap()
		c.contractUtil()
		c.records()
		c.atLeast("refused", 6)
		c.atLeast("order", 9)
		c.atLeast("path", 1)
		c.atLeast("restart", 1)
		c.atLeast("pending", 1)
		c.atLeast("count", 3)
	})
}

// chainRounds: what the chain routine does with each chain and each transaction it is offered.
func (c *Ctx) chainRounds() {
	ch := mkSym("c")
	r := c.run("internal/chain.Chain.Loop", runOpt{args: []*Term{ch}, exact: true, key: "exact", states: 2000,
		opaque: append([]string{"inv.Inv.StoreTx", "inv.Inv.StoreMerkle", "inv.Inv.StoreBlock", "chain.Chain.CreateMiningTarget"}, stateOps...)})
	if r == nil {
		return
	}
	got := func(k K, name string) *Term {
		var ev *Term
		k.didMatch("recv", func(a []*Term) bool {
			if a[0] == F(ch, "subs", name, "C") || a[0].String() == F(ch, "subs", name, "C").String() {
				ev = chainEvent(name)
				return true
			}
			return false
		})
		return ev
	}
	failed := func(k K, names ...string) bool {
		for f := range k.st.facts {
			if f.Op != "not" || f.Args[0].Op != "eq" {
				continue
			}
			for i, x := range f.Args[0].Args {
				if f.Args[0].Args[1-i] != tNil {
					continue
				}
				for _, n := range names {
					if isCall(x, n) {
						return true
					}
				}
			}
		}
		return false
	}
	loc := F(ch, "state").String()
	n := map[string]int{}
	for _, rec := range r.in.recs {
		// the routine's own loop: one round takes one of the messages
		heads, txs := false, false
		for _, b := range rec.backs {
			k := K{r.in, &State{b.facts, b.mem}}
			heads = heads || got(k, "CandidateHead") != nil
			txs = txs || got(k, "CandidateTx") != nil
		}
		if !heads || !txs {
			continue
		}
		for _, b := range rec.backs {
			for _, k := range (K{r.in, &State{b.facts, b.mem}}).split(0) {
				if ev := got(k, "CandidateHead"); ev != nil {
					n["head"]++
					head := F(ev, "Head")
					lighter := false
					for f := range k.st.facts {
						if f.Op != "not" || f.Args[0].Op != "lt" || f.Args[0].Aux != "h" {
							continue
						}
						x, y := f.Args[0].Args[0], f.Args[0].Args[1]
						if y == inv("GetBlockTotalWork", head) && isCall(x, "inv.Inv.GetBlockTotalWork") && x.Args[0].Op == "fld" && x.Args[0].Aux == "head" && x.Args[0] != head {
							lighter = true
						}
					}
					ok := k.didMatch("store", func(a []*Term) bool { return a[0].String() == loc }) ||
						failed(k, "inv.Inv.StoreTx", "inv.Inv.StoreMerkle", "inv.Inv.StoreBlock", "chain.State.Advance") ||
						k.has(mkNot(inv("HasBlock", head))) || lighter
					c.ob("refused", "the chain routine refuses a chain only if it is not heavier or a part of it is refused", ok, rec.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
					// whatever was stored is pending from then on
					for _, d := range k.dids("inv.Inv.StoreTx") {
						good := false
						bad := false
						for _, f := range d.beside {
							if f.Op == "did" && f.Aux == "set.Add" && f.Args[1] == callTerm("core.Tx.Hash", d.args[len(d.args)-1]) && strings.HasSuffix(f.Args[0].String(), ".mempool") {
								good = true
							}
							if f.Op == "not" && f.Args[0].Op == "eq" && (isCall(f.Args[0].Args[0], "inv.Inv.StoreTx") || isCall(f.Args[0].Args[1], "inv.Inv.StoreTx")) {
								bad = true
							}
						}
						c.ob("pending", "a transaction stored for a chain is pending, whatever becomes of the chain", good || bad, rec.fn.Pos(), "%s", describeIf(!(good || bad), k.st.facts))
						n["pending"]++
					}
				}
				if ev := got(k, "CandidateTx"); ev != nil {
					n["tx"]++
					tx := F(ev, "Tx")
					id := callTerm("core.Tx.Hash", tx)
					took := k.didMatch("inv.Inv.StoreTx", func(a []*Term) bool { return a[len(a)-1] == tx }) &&
						k.didMatch("set.Add", func(a []*Term) bool { return a[1] == id && strings.HasSuffix(a[0].String(), ".mempool") }) &&
						k.didMatch("topic.Topic.Pub", func(a []*Term) bool { return strings.HasSuffix(a[0].String(), ".ValidatedTx") })
					ok := took || k.has(inv("HasTx", id)) || k.has(F(tx, "IsCoinbase")) || failed(k, "inv.Inv.StoreTx")
					c.ob("refused", "the chain routine refuses a transaction only if it is known, a coinbase or not storable", ok, rec.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
				}
			}
		}
	}
	c.need("the chain routine's rounds with an offered chain", n["head"] > 0)
	c.need("the chain routine's rounds with an offered transaction", n["tx"] > 0)
	c.need("transactions stored for a chain", n["pending"] > 0)
	// what is offered together is stored in the order given, and nothing of it is left out
	ev := chainEvent("CandidateHead")
	parts := []struct{ field, store, has, hash string }{
		{"Txs", "inv.Inv.StoreTx", "HasTx", "core.Tx.Hash"},
		{"Merkles", "inv.Inv.StoreMerkle", "HasMerkle", "core.MerkleNode.Hash"},
		{"Blocks", "inv.Inv.StoreBlock", "HasBlock", "core.Block.Hash"},
	}
	all := func(k K, i int) bool {
		p := parts[i]
		return k.each(F(ev, p.field), func(k K, i, e *Term) bool {
			for _, k := range k.split(0) {
				if !k.has(inv(p.has, callTerm(p.hash, e))) && !k.didMatch(p.store, func(a []*Term) bool { return a[len(a)-1] == e }) {
					return false
				}
			}
			return true
		})
	}
	m := map[string]int{}
	for _, q := range r.in.sinks {
		if q.kind != "call" {
			continue
		}
		k := q.k(r.in)
		for i, p := range parts {
			if q.name != p.store {
				continue
			}
			x := q.args[len(q.args)-1]
			if x == F(chainEvent("CandidateTx"), "Tx") {
				continue
			}
			m[p.store]++
			list := F(ev, p.field)
			ok := x.Op == "elem" && x.Args[0] == list && x.Args[1].Op == "idx"
			c.ob("order", "the "+p.field+" of an offered chain are stored in the order given", ok, q.pos, "stored: %s", clip(x.String(), 200))
			for j := 0; j < i; j++ {
				ok := all(k, j)
				c.ob("order", "the "+p.field+" of an offered chain are stored after all its "+parts[j].field, ok, q.pos, "%s", describeIf(!ok, q.facts))
			}
		}
		if q.name == "chain.State.Advance" {
			m[q.name]++
			for j := range parts {
				ok := all(k, j)
				c.ob("order", "blocks are applied after all "+parts[j].field+" of the offered chain are stored", ok, q.pos, "%s", describeIf(!ok, q.facts))
			}
			x, b, auto := q.args[0], q.args[1], q.args[2]
			d, ok := c.applyPath(k, x, b, F(ev, "Head"))
			c.ob("path", "the blocks from the common ancestor to the new head are applied, oldest first", ok, q.pos, "%s%s", d, ifBad(ok, describeFacts(q.facts)))
			// with a saved inventory a known transaction need not be pending
			a, can := k.with(mkNot(auto))
			ok = !can || a.has(mkEq(F(ch, "saveDir"), tNil))
			c.ob("restart", "transactions saved before a restart may be included", ok, q.pos, "%s", describeIf(!ok, q.facts))
		}
	}
	for _, s := range []string{"inv.Inv.StoreTx", "inv.Inv.StoreMerkle", "inv.Inv.StoreBlock", "chain.State.Advance"} {
		c.need("a call of "+s+" by the chain routine", m[s] > 0)
	}
}

// applyPath: b is the next block on the way from the common ancestor of x's old head and the new
// head; x was rewound to that ancestor first.
func (c *Ctx) applyPath(k K, x, b, head *Term) (string, bool) {
	// the list of blocks above the ancestor
	var lca *Term
	k.didMatch("chain.State.RewindUntil", func(a []*Term) bool {
		if a[0] == x && len(a) > 1 {
			lca = a[1]
			return true
		}
		return false
	})
	if lca == nil {
		return "the state was not rewound first", false
	}
	if !isCall(lca, "inv.Inv.GetBlockLCA") || len(lca.Args) < 2 {
		return "rewound to " + clip(lca.String(), 200), false
	}
	anc := inv("GetBlockAncestorsUntil", head, lca)
	n := mkLen(anc)
	up := func(i *Term) *Term { return mkElem(anc, mkAdd(mkAdd(n, mkInt(-1)), mkMul(mkInt(-1), i))) }
	if b == head {
		ok := k.forall(n, func(k K, i *Term) bool {
			return k.didMatch("chain.State.Advance", func(a []*Term) bool { return a[0] == x && k.same(a[1], up(i)) })
		})
		return ifBad(ok, "the blocks below the new head are not all applied before it"), ok
	}
	if b.Op == "elem" {
		l := b.Args[0]
		var i *Term
		anyTerm(b.Args[1], func(t *Term) bool {
			if t.Op == "idx" {
				i = t
			}
			return i != nil
		})
		if i == nil {
			return "applied: " + clip(b.String(), 200), false
		}
		if l == anc {
			ok := k.same(b, up(i))
			return "applied: " + clip(b.String(), 200), ok
		}
		// one list with the new head in it
		one := mk("list", "", head)
		if l == mkConcat(one, anc) && k.same(b.Args[1], mkSub(n, i, false)) || l == mkConcat(mk("reverse", "", anc), one) && b.Args[1] == i {
			return "applied along one list", true
		}
	}
	return "applied: " + clip(b.String(), 300), false
}

// contractMaxTxs: the limit on the number of a block's transactions never refuses what fits.
func (c *Ctx) contractMaxTxs() {
	p := mkSym("p")
	cb, min := callTerm("core.CoinbaseVSize"), callTerm("core.MinNonCoinbaseVSize")
	c.contract("count", "pkg/core.BlockMaxTxs", "at least the coinbase and as many of the smallest transactions as fit beside it", runOpt{args: []*Term{p}, inline: []string{"core.BlockMaxTxs"}, key: "maxtxs"}, func(r *runRes, k K, v []*Term) bool {
		fit := k.op(token.QUO, mkSub(F(p, "MaxBlockVSize"), cb, true), min, tU64)
		d, ok := isInt(mkSub(v[0], fit, false))
		return ok && d >= 1
	})
	c.contract("count", "pkg/core.CoinbaseVSize", "the size of the smallest coinbase", runOpt{inline: []string{"core.CoinbaseVSize", "core.Tx.VSize", "core.TxIn.VSize", "core.TxOut.VSize", "core.Utxo.VSize"}, key: "maxtxs"}, func(r *runRes, k K, v []*Term) bool {
		n, ok := isInt(v[0])
		return ok && n <= 112
	})
	key := callTerm("core.ExamplePubDer")
	c.contract("count", "pkg/core.MinNonCoinbaseVSize", "the size of the smallest transaction with an input", runOpt{inline: []string{"core.MinNonCoinbaseVSize", "core.Tx.VSize", "core.TxIn.VSize", "core.TxOut.VSize", "core.Utxo.VSize"}, opaque: []string{"core.ExamplePubDer"}, key: "maxtxs"}, func(r *runRes, k K, v []*Term) bool {
		n, ok := isInt(v[0])
		if !ok {
			n, ok = isInt(mkSub(v[0], mkLen(key), false))
			n += 91
		}
		return ok && n <= 72+48+91
	})
}
