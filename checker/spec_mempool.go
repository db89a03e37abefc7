package main

import (
	"strings"
)

// ---- the chain routine's other duties: loose transactions, queries, mining templates ----

// event gives the message received from the named subscription of the chain routine.
func chainEvent(name string) *Term {
	return mk("recv", "", F(mkSym("c"), "subs", name, "C"))
}

// recvOf finds the message a term was taken from.
func recvOf(t *Term) *Term {
	var r *Term
	anyTerm(t, func(x *Term) bool {
		if x.Op == "recv" {
			r = x
		}
		return r != nil
	})
	return r
}

// looseCoinbase: a transaction that arrives alone is stored only if it is not a coinbase.
func (c *Ctx) looseCoinbase() {
	r, _ := c.runLoop()
	if r == nil {
		return
	}
	for _, q := range r.in.sinks {
		if q.name != "inv.Inv.StoreTx" {
			continue
		}
		tx := q.args[0]
		m := recvOf(tx)
		where := strings.Join(q.stack, " > ")
		if m != nil && strings.Contains(m.String(), "CandidateHead") {
			c.ob("loose-coinbase", where+": a transaction of an offered block", true, q.pos, "stored for a block")
			continue
		}
		k := q.k(r.in)
		c.ob("loose-coinbase", where+": a transaction that arrives alone is not a coinbase", k.has(mkNot(F(tx, "IsCoinbase"))), q.pos, "%s", describeIf(true, q.facts))
	}
	c.atLeast("loose-coinbase", 2)
	// nothing else may store a transaction
	f := c.p.fn("internal/inv.Inv.StoreTx")
	if c.need("inv.Inv.StoreTx", f != nil) {
		for _, e := range c.p.entries(f) {
			if e == f {
				continue
			}
			c.ob("loose-coinbase", "transactions are stored on behalf of "+shortName(e), shortName(e) == "chain.Chain.Loop", e.Pos(), "only the chain routine may store transactions")
		}
	}
}

// filtFacts: what is known of an element of a filtered collection.
func filtFacts(e *Term) (base *Term, facts []*Term) {
	if e.Op != "elem" {
		return nil, nil
	}
	l := e.Args[0]
	for {
		switch l.Op {
		case "sorted", "reverse", "slice":
			l = l.Args[0]
			continue
		case "call":
			if l.Aux == "setlist" {
				l = l.Args[0]
				continue
			}
		case "filt":
			v := binderVar(l)
			over := mkElem(l.Args[0], v)
			for _, f := range l.Args[1:] {
				hole := mkSym("filtered")
				for _, g := range conjuncts(subst(f, over, hole)) {
					if !occurs(g, v) {
						facts = append(facts, subst(g, hole, e))
					}
				}
			}
			l = l.Args[0]
			continue
		}
		return l, facts
	}
}

// includable: the transaction is pending, known, old enough, pays a fee and spends only outputs
// that are unspent in the state.
func (k K) includable(id, state *Term) string { return k.includableD(id, state, 0) }

func (k K) includableD(id, state *Term, d int) string {
	base, fs := filtFacts(id)
	if base != nil && base.Op == "lv" && d < 3 {
		// taken from a list that was itself put together element by element
		from, why := k.in.picked(k, base, 0)
		if why == "" {
			for _, x := range from {
				if w := x.k.includableD(x.id, state, d+1); w != "" {
					return w
				}
			}
			return ""
		}
	}
	n, ok := k.with(fs...)
	if !ok {
		return ""
	}
	tx := inv("GetTx", id)
	pool := F(state, "mempool")
	if !(base == pool || base == k.in.content(k.st, pool) || n.has(mkIn(id, F(state, "mempool")))) {
		return "it is pending"
	}
	if !n.has(inv("HasTx", id)) {
		return "it is known"
	}
	if !n.has(mkNot(mkLt(mkAdd(inv("GetBlockHeight", F(state, "head")), mkInt(1)), F(tx, "MinBlock"), true))) {
		return "its minimum block is reached"
	}
	if !n.has(mkLt(sumOf(F(tx, "Outputs"), "Value"), sumOf(F(tx, "Inputs"), "Utxo", "Value"), true)) {
		return "it pays a fee"
	}
	if !n.forall(mkLen(F(tx, "Inputs")), func(k K, i *Term) bool {
		return k.has(mkIn(F(mkElem(F(tx, "Inputs"), i), "Utxo"), F(state, "utxos")))
	}) {
		return "every output it spends is unspent"
	}
	return ""
}

// lvFind finds how an opaque loop variable changes.
func (in *Interp) lvFind(t *Term) (*loopRec, int) {
	if t.Op != "lv" {
		return nil, 0
	}
	for i := len(in.recs) - 1; i >= 0; i-- {
		r := &in.recs[i]
		for j := range r.lvs {
			l := r.lvs[j].lv
			if l.Op == "lv" && l.Aux == t.Aux && (len(l.Args) == 1 && len(t.Args) == 1 || len(l.Args) > 1 && len(t.Args) > 1 && l.Args[1] == t.Args[1]) {
				return r, j
			}
		}
	}
	return nil, 0
}

// chosen is one transaction that was put into a template, with what is known there.
type chosen struct {
	id   *Term
	k    K
	rec  *loopRec
	step int   // -1 when the loop was left right after
	at   *Term // iteration
}

// picked lists the elements a list can be made of. why is set when the list cannot be followed.
func (in *Interp) picked(k K, t *Term, d int) (out []chosen, why string) {
	if d > 6 {
		return nil, "too deep"
	}
	switch t.Op {
	case "list":
		for _, a := range t.Args {
			out = append(out, chosen{a, k, nil, -1, nil})
		}
		return out, ""
	case "nil", "zero", "emptymap":
		return nil, ""
	case "concat":
		var rec *loopRec
		var at *Term
		for _, a := range t.Args {
			o, w := in.picked(k, a, d+1)
			if w != "" {
				return nil, w
			}
			if a.Op == "lv" {
				rec, _ = in.lvFind(a)
				at = a.Args[0]
			}
			for i := range o {
				if o[i].rec == nil && rec != nil {
					o[i].rec, o[i].at = rec, at
				}
			}
			out = append(out, o...)
		}
		return out, ""
	case "lv":
		rec, j := in.lvFind(t)
		if rec == nil {
			return nil, "unknown list " + clip(t.String(), 200)
		}
		l := rec.lvs[j]
		out, why = in.picked(k, l.init, d+1)
		if why != "" {
			return
		}
		for b, s := range l.steps {
			n := s.next
			if n == l.lv {
				continue
			}
			if n.Op != "concat" || n.Args[0] != l.lv {
				return nil, "the list becomes " + clip(n.String(), 200)
			}
			sk := K{in, &State{s.facts, s.mem}}
			for _, a := range n.Args[1:] {
				if a.Op != "list" {
					return nil, "the list grows by " + clip(a.String(), 200)
				}
				for _, e := range a.Args {
					out = append(out, chosen{e, sk, rec, b, rec.idx})
				}
			}
		}
		return out, ""
	}
	return nil, "the list is " + clip(t.String(), 200)
}

// roomFor: a running total, which covers everything chosen so far and the coinbase, leaves room.
func (in *Interp) roomFor(ch chosen, all []chosen, max, size *Term) bool {
	if ch.rec == nil {
		return false
	}
	for _, l := range ch.rec.lvs {
		if l.lv.Op != "lv" || len(l.lv.Args) > 1 {
			continue
		}
		cur := subst(l.lv, ch.rec.idx, ch.at)
		if !ch.k.has(mkNot(mkLt(max, mkAdd(cur, size), true))) {
			continue
		}
		if l.init != callTerm("core.CoinbaseVSize") {
			continue
		}
		ok := true
		for b, s := range l.steps {
			want := l.lv
			for _, o := range all {
				if o.rec == ch.rec && o.step == b {
					want = mkAdd(want, callTerm("core.Tx.VSize", inv("GetTx", o.id)))
				}
			}
			if s.next != want {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// unclaimed: no output the transaction spends was claimed by one chosen before.
func (in *Interp) unclaimed(ch chosen, all []chosen, sinks []Sink) bool {
	if ch.rec == nil {
		return false
	}
	inputs := func(id *Term) *Term { return F(inv("GetTx", id), "Inputs") }
	utxo := func(id, j *Term) *Term { return F(mkElem(inputs(id), j), "Utxo") }
	for _, l := range ch.rec.lvs {
		if l.lv.Op != "lv" || len(l.lv.Args) < 2 {
			continue
		}
		loc := l.lv.Args[1] // the content of a set or map
		if loc.Op != "cont" || len(loc.Args) == 0 {
			continue
		}
		obj := loc.Args[0]
		cur := subst(l.lv, ch.rec.idx, ch.at)
		clear := false
		for f := range ch.k.st.facts {
			if f.Op == "not" && f.Args[0].Op == "inter" {
				a, b := f.Args[0].Args[0], f.Args[0].Args[1]
				if b == cur {
					a, b = b, a
				}
				specIdx++
				j := mk("idx", "pick")
				if a == cur && mkLen(b) == mkLen(inputs(ch.id)) && mkElem(b, j) == utxo(ch.id, j) {
					clear = true
				}
			}
		}
		clear = clear || ch.k.forall(mkLen(inputs(ch.id)), func(k K, j *Term) bool {
			u := utxo(ch.id, j)
			return k.has(mkNot(mkIn(u, cur))) || k.has(mkNot(mkHas(cur, u))) || k.has(mkNot(mkLookup(cur, u)))
		})
		if !clear {
			continue
		}
		ok := true
		for b := range l.steps {
			for _, o := range all {
				if o.rec == ch.rec && o.step == b {
					n := mkLen(inputs(o.id))
					if !(o.k.addedEach(obj, n, func(j *Term) *Term { return utxo(o.id, j) }) ||
						o.k.forall(n, func(k K, j *Term) bool {
							return k.didMatch("mapput", func(a []*Term) bool { return a[0] == obj && a[1] == utxo(o.id, j) && a[2] != tFalse })
						})) {
						ok = false
					}
				}
			}
		}
		for _, q := range sinks {
			if len(q.args) > 0 && q.args[0] == obj && (q.name == "set.Remove" || q.name == "set.Filter" || q.name == "mapdel") {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Ctx) templates() {
	r, ch := c.runLoop()
	if r == nil {
		return
	}
	max := F(inv("GetCoreParams"), "MaxBlockVSize")
	n := 0
	for _, q := range r.in.sinks {
		if q.name != "topic.Topic.Pub" || !strings.HasSuffix(q.args[0].String(), ".MinerTarget") {
			continue
		}
		n++
		k := q.k(r.in)
		state := r.in.chainState(k, ch)
		e := mkElem(q.args[1], mkInt(0))
		where := strings.Join(q.stack, " > ")
		c.ob("template-head", where+": the template extends the current head", F(e, "Head") == F(state, "head"), q.pos, "given %s", clip(F(e, "Head").String(), 200))
		want := callTerm("core.NextTarget", inv("GetCoreParams"), F(ch, "inv"), F(state, "head"))
		t := F(e, "Target")
		c.ob("template-target", where+": the target is the one the schedule demands", t == want || isCall(t, "core.NextTarget") && t.Args[0] == want.Args[0] && t.Args[len(t.Args)-1] == F(state, "head"), q.pos, "given %s", clip(t.String(), 200))
		list := F(e, "TxIds")
		chs, why := r.in.picked(k, list, 0)
		c.ob("template-txs", where+": the transactions are chosen one by one", why == "", q.pos, "%s", why)
		c.ob("template-txs", where+": transactions can be chosen", len(chs) > 0, q.pos, "no transaction is ever put into a template")
		for i, x := range chs {
			tag := where + ": transaction chosen " + []string{"while scanning", "last"}[b2i(x.step < 0)] + " #" + string(rune('a'+i%26))
			w := x.k.includable(x.id, state)
			c.ob("template-includable", tag+" can be included on this head", w == "", q.pos, "not established: %s%s", w, describeIf(w != "", x.k.st.facts))
			ok := r.in.roomFor(x, chs, max, callTerm("core.Tx.VSize", inv("GetTx", x.id)))
			c.ob("template-size", tag+" fits in the block with the coinbase and all chosen before", ok, q.pos, "%s", describeIf(!ok, x.k.st.facts))
			ok = r.in.unclaimed(x, chs, r.in.sinks)
			c.ob("template-disjoint", tag+" spends no output that one chosen before spends", ok, q.pos, "%s", describeIf(!ok, x.k.st.facts))
		}
	}
	c.need("the announcement of a mining template", n > 0)
	// a switch of the head is followed by a template for the new one
	h := c.headHandler(r, mk("fld", "state", ch), F(ch, "state"))
	if c.need("the function that switches the chain state", h != nil) {
		hr := c.runFn(h, runOpt{args: paramSyms(h, "c"), opaque: stateOps})
		cc := mkSym("c")
		c.onReturn(hr, "template-follows", "a switch of the head is followed by a template for the new one", func(k K) bool {
			var next *Term
			k.didMatch("store", func(a []*Term) bool {
				if a[0].String() == F(cc, "state").String() {
					next = a[1]
				}
				return next != nil
			})
			return next == nil || k.has(mkNot(F(cc, "supportMiners"))) || k.didMatch("topic.Topic.Pub", func(a []*Term) bool {
				if !strings.HasSuffix(a[0].String(), ".MinerTarget") {
					return false
				}
				hd := F(mkElem(a[1], mkInt(0)), "Head")
				return hd == F(next, "head") || c.isHeadOf(k, hd, next)
			})
		})
	}
	c.minersSupported()
	for _, s := range []string{"template-includable", "template-size", "template-disjoint"} {
		c.atLeast(s, 1)
	}
}

// minersSupported: the chain tells miners their targets if there are any, and they are all there when it starts.
func (c *Ctx) minersSupported() {
	rule := "miners-told"
	r := c.run("cmd/bcnode.main", runOpt{opaque: mainOpaque})
	if r == nil {
		return
	}
	var told []*Term
	for _, s := range r.in.sinks {
		if s.name == "chain.NewChain" && len(s.args) > 2 {
			told = append(told, s.args[2])
		}
	}
	n := 0
	for _, s := range r.in.sinks {
		if s.name != "miner.NewMiner" {
			continue
		}
		n++
		k := s.k(r.in)
		ok := len(told) > 0
		for _, t := range told {
			ok = ok && k.has(t)
		}
		c.ob(rule, "main: the chain makes targets whenever there is a miner", ok, s.pos, "it makes them if %s%s", told, describeIf(!ok, s.facts))
		ok = true
		for f := range s.facts {
			if f.Op == "did" && (strings.HasSuffix(f.Aux, "chain.Chain.Loop") || len(f.Args) > 0 && strings.Contains(f.Args[0].String(), "chain.Chain.Loop")) {
				ok = false
			}
		}
		c.ob(rule, "main: every miner is made before the chain tells the first target", ok, s.pos, "%s", describeIf(!ok, s.facts))
	}
	c.ob("coverage", rule+": main", n > 0 && len(told) > 0, r.fn.Pos(), "%d miners, %d chains", n, len(told))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// chainState is the state in use at a point of the chain routine.
func (in *Interp) chainState(k K, ch *Term) *Term {
	return in.resolve(k.st, in.loadShallow(k.st, mk("fld", "state", ch)))
}

func init() {
	register("C24",
		"at every announcement of a mining template by the chain routine: its head is the head in use, its target the one the schedule demands for that head, and every transaction put into it is includable there, fits in the remaining room, and spends no output claimed by one put in before; the block built from a template by the miner is complete and pays exactly reward plus fees",
		nil, func(c *Ctx) {
			c.templates()
			c.minedBlocks()
			c.contractMerkleTree()
			c.contractUtil()
			c.contractSet()
			c.schedule()
			c.contractTargets()
			c.contractHashLt()
		})
}

// location strips updates of the named fields and gives the place a loop variable stands for.
func location(t *Term, free ...string) *Term {
	for t.Op == "with" {
		for i := 0; i < len(t.Args)-1; i++ {
			ok := false
			for _, n := range free {
				ok = ok || structField(t, i) == n
			}
			if !ok {
				return nil
			}
		}
		t = t.Args[len(t.Args)-1]
	}
	if t.Op == "lv" && len(t.Args) > 1 {
		return t
	}
	return nil
}

// minedBlocks: what the miner announces is the template it was told to work on, completed.
func (c *Ctx) minedBlocks() {
	m := mkSym("m")
	r := c.run("internal/miner.Miner.Loop", runOpt{args: []*Term{m}})
	if r == nil {
		return
	}
	n := 0
	for _, q := range r.in.sinks {
		if q.name != "topic.Topic.Pub" {
			continue
		}
		n++
		k := q.k(r.in)
		e := mkElem(q.args[1], mkInt(0))
		where := strings.Join(q.stack, " > ")
		one := func(l *Term, f string) *Term {
			c.ob("mined-block", where+": "+f+" holds one element", mkLen(l) == mkInt(1), q.pos, "%s", clip(l.String(), 200))
			return r.in.resolve(k.st, mkElem(l, mkInt(0)))
		}
		b := one(F(e, "Blocks"), "Blocks")
		tx := one(F(e, "Txs"), "Txs")
		h := callTerm("core.Block.Hash", b)
		c.ob("mined-block", where+": the head announced is the hash of the block", r.in.resolve(k.st, F(e, "Head")) == h, q.pos, "%s", clip(F(e, "Head").String(), 200))
		won := k.has(mkHashLt(h, F(b, "Target")))
		c.ob("mined-block", where+": the hash of the block meets its target", won, q.pos, "%s", describeIf(!won, k.st.facts))
		c.ob("mined-block", where+": the rest of the block is verified like any other", isFalse(F(e, "AutoAddMempoolInsecure")), q.pos, "%s", F(e, "AutoAddMempoolInsecure").String())
		lb, lt, lm := location(b, "Noise", "Nonce", "MinedTime"), location(tx), location(F(e, "Merkles"))
		ok := lb != nil && lt != nil && lm != nil
		c.ob("mined-block", where+": only the noise, the nonce and the time of the template vary", ok, q.pos, "block %s", clip(b.String(), 300))
		if !ok {
			continue
		}
		rb, jb := r.in.lvFind(lb)
		rt, jt := r.in.lvFind(lt)
		rm, jm := r.in.lvFind(lm)
		same := rb != nil && rb == rt && rb == rm
		c.ob("mined-block", where+": the block, its coinbase and its merkle nodes are replaced together", same, q.pos, "they are not kept by the same loop")
		if !same {
			continue
		}
		for i := range rb.lvs[jb].steps {
			B, T, M := rb.lvs[jb].steps[i], rt.lvs[jt].steps[i], rm.lvs[jm].steps[i]
			keep := func(x lvStep, l lvRec) bool { return x.next == l.lv }
			if location(B.next, "Noise", "Nonce", "MinedTime") == rb.lvs[jb].lv || keep(B, rb.lvs[jb]) {
				c.ob("mined-template", where+": the block is kept together with its parts", keep(T, rt.lvs[jt]) && keep(M, rm.lvs[jm]), q.pos, "coinbase %s, merkle nodes %s", clip(T.next.String(), 200), clip(M.next.String(), 200))
				continue
			}
			c.minedTemplate(r, where, B, T, M, m, q)
		}
		c.atLeast("mined-template", 2)
	}
	c.need("the announcement of a mined block", n > 0)
}

func (c *Ctx) minedTemplate(r *runRes, where string, B, T, M lvStep, m *Term, q Sink) {
	k := K{r.in, &State{B.facts, B.mem}}
	b, tx := r.in.resolve(k.st, B.next), r.in.resolve(k.st, T.next)
	ev := recvOf(b)
	ob := func(what string, ok bool, got *Term) {
		c.ob("mined-template", where+": "+what, ok, q.pos, "given %s", clip(got.String(), 300))
	}
	if ev == nil {
		ob("the block comes from a message", false, b)
		return
	}
	ob("it extends the head it was given", F(b, "PrevBlockId") == F(ev, "Head"), F(b, "PrevBlockId"))
	ob("it has the target it was given", F(b, "Target") == F(ev, "Target"), F(b, "Target"))
	ob("the coinbase is marked as one", F(tx, "IsCoinbase") == tTrue, F(tx, "IsCoinbase"))
	ob("the coinbase is for this height", F(tx, "MinBlock") == mkAdd(inv("GetBlockHeight", F(ev, "Head")), mkInt(1)), F(tx, "MinBlock"))
	ob("the coinbase spends nothing", mkLen(F(tx, "Inputs")) == mkInt(0), F(tx, "Inputs"))
	outs := F(tx, "Outputs")
	ob("the coinbase has one output", mkLen(outs) == mkInt(1), outs)
	o := mkElem(outs, mkInt(0))
	pays := F(o, "PublicKeyHash")
	ob("the coinbase pays the configured key", !strings.Contains(pays.String(), "recv(") && strings.HasPrefix(pays.String(), "m.params."), pays)
	ids := F(ev, "TxIds")
	v := F(o, "Value")
	fees := false
	if s := mkSub(v, F(inv("GetCoreParams"), "BlockReward"), false); s.Op == "sum" {
		specIdx++
		j := mk("idx", "fee")
		t := inv("GetTx", mkElem(ids, j))
		body := subst(s.Args[1], binderVar(s), j)
		fees = s.Args[0] == mkLen(ids) && body == mkSub(sumOf(F(t, "Inputs"), "Utxo", "Value"), sumOf(F(t, "Outputs"), "Value"), true)
	} else {
		// all they spend less all they pay out
		specIdx++
		j := mk("idx", "fee")
		t := inv("GetTx", mkElem(ids, j))
		si := mkBinder("sum", j, mkLen(ids), sumOf(F(t, "Inputs"), "Utxo", "Value"))
		so := mkBinder("sum", j, mkLen(ids), sumOf(F(t, "Outputs"), "Value"))
		fees = s == mkSub(si, so, true)
	}
	ob("the coinbase pays the reward plus every fee", fees, v)
	nodes := r.in.resolve(k.st, M.next)
	root := F(b, "MerkleRoot")
	var tree *Term
	anyTerm(root, func(x *Term) bool {
		if isCall(x, "core.MerkleFromTxIds") {
			tree = x
		}
		return tree != nil
	})
	if tree == nil {
		ob("the root is the one of a merkle tree", false, root)
		return
	}
	leaves := tree.Args[0]
	order, list := mk("res", "1", tree), mk("res", "0", tree)
	ob("the root is the last node of the tree", root == mkElem(order, mkSub(mkLen(order), mkInt(1), false)), root)
	coin := callTerm("core.Tx.Hash", tx)
	specIdx++
	j := mk("idx", "leaf")
	ob("the leaves are the coinbase followed by the transactions", leaves.Op == "concat" && len(leaves.Args) == 2 && mkLen(leaves.Args[0]) == mkInt(1) && mkElem(leaves.Args[0], mkInt(0)) == coin && leaves.Args[1] == ids, leaves)
	ob("every node of the tree is sent", mkLen(nodes) == mkLen(order) && mkElem(nodes, j) == mkLookup(list, mkElem(order, j)), nodes)
}
