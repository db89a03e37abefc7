package main

import (
	"strings"
)

// What a node takes from its peers: every event a peer connection publishes
// holds only data that was read whole, verified against its id, and, for
// blocks, proven to be work beyond the node's own chain.

var peerP = mkSym("p")

func (c *Ctx) peerLoop() *runRes {
	return c.run("internal/peer.Peer.Loop", runOpt{args: []*Term{peerP}, opaque: []string{"topic.SubCh.Close"}, over: connOver(c.p), key: "conn", states: 32})
}

func isConn(t *Term, method string) bool { return isCall(t, "prot.Conn."+method) }

// published gives the events published to a topic, each with what is known there.
type pubAt struct {
	q Sink
	k K
	e *Term
}

func (r *runRes) published(topic string) []pubAt {
	var out []pubAt
	for _, q := range r.in.sinks {
		if q.name != "topic.Topic.Pub" || q.args[0].Op != "fld" || topic != "" && q.args[0].Aux != topic {
			continue
		}
		l, ok := listElems(q.args[1])
		if !ok {
			out = append(out, pubAt{q, q.k(r.in), q.args[1]})
		}
		for _, e := range l {
			out = append(out, pubAt{q, q.k(r.in), e})
		}
	}
	return out
}

// noError: nothing has failed on the connection since an error was last taken from it, and none was taken on the way here.
func (k K) noError() bool {
	e := k.in.load(k.st, mkField(mkField(peerP, "conn"), "err"), nil)
	for ; e.Op == "connerr"; e = e.Args[1] {
		if !k.has(mkEq(e, tNil)) {
			return false
		}
	}
	if e != tNil && !k.has(mkEq(e, tNil)) && !(e.Op == "fld" && e.Args[0] == mkField(peerP, "conn")) {
		return false
	}
	return len(k.dids("prot.Conn.Err")) == 0 && len(k.dids("prot.Conn.TimeoutErrOrPanic")) == 0
}

// nodeHead: the head the node was last told about.
func (k K) nodeHead(t *Term, d int) bool {
	if t.Op == "fld" && t.Args[0] == peerP {
		return true
	}
	if t.Op == "fld" && t.Aux == "Head" && t.Args[0].Op == "recv" {
		return t.Args[0].Args[0].Op == "fld" && strings.HasSuffix(t.Args[0].Args[0].String(), ".ValidatedHead.C")
	}
	rec, j := k.in.lvFind(t)
	if rec == nil || d > 6 || !k.nodeHead(rec.lvs[j].init, d+1) {
		return false
	}
	for _, s := range rec.lvs[j].steps {
		if s.next != rec.lvs[j].lv && !(s.next.Op == "lv" && s.next.Aux == rec.lvs[j].lv.Aux) && !k.nodeHead(s.next, d+1) {
			return false
		}
	}
	return true
}

// stored: the inventory certainly has it.
func (k K) stored(what string, id *Term) bool {
	if k.has(inv(what, id)) {
		return true
	}
	for f := range k.st.facts {
		if isCall(f, "inv.Inv."+what) && k.same(f.Args[0], id) {
			return true
		}
	}
	return false
}

// proven: the work of these blocks, added to that of the block they follow, beats the node's own.
func (k K) proven(blocks *Term) bool {
	n := mkLen(blocks)
	for f := range k.st.facts {
		if f.Op != "hlt" && f.Op != "lt" || len(f.Args) != 2 || !isCall(f.Args[0], "inv.Inv.GetBlockTotalWork") || !k.nodeHead(f.Args[0].Args[0], 0) {
			continue
		}
		w := f.Args[1]
		rec, j := k.in.lvFind(w)
		if rec == nil || len(w.Args) == 0 || !k.same(w.Args[0], n) {
			continue
		}
		l := rec.lvs[j]
		init := l.init
		if !isCall(init, "inv.Inv.GetBlockTotalWork") || !k.same(init.Args[0], F(mkElem(blocks, mkInt(0)), "PrevBlockId")) {
			continue
		}
		ok := len(l.steps) > 0
		for _, s := range l.steps {
			x := s.next
			if !isCall(x, "core.HashT.WorkAppendTarget") || x.Args[0] != l.lv {
				ok = false
				break
			}
			a := F(mkElem(blocks, rec.idx), "Target")
			b := F(mkElem(blocks, mkAdd(n, mkSub(mkInt(-1), rec.idx, false))), "Target")
			if !k.same(x.Args[1], a) && !k.same(x.Args[1], b) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// wholeChain: the entities of an offered chain are all there, children first.
func (k K) wholeChain(e *Term) (why string, ok bool) {
	blocks, merkles, txs := F(e, "Blocks"), F(e, "Merkles"), F(e, "Txs")
	n := mkLen(blocks)
	// nodes: by block, each block's in reverse order of discovery
	var ml *Term
	oldest := true
	switch {
	case merkles.Op == "flat" && k.same(merkles.Args[0], n) && merkles.Args[1].Op == "reverse":
		ml = merkles.Args[1].Args[0]
	case merkles.Op == "reverse":
		ml, oldest = merkles.Args[0], false
	default:
		return "the order of the tree nodes cannot be followed: " + merkles.String(), false
	}
	rec, mj := k.in.lvFind(ml)
	if rec == nil {
		return "the tree nodes cannot be followed: " + ml.String(), false
	}
	steps := len(rec.lvs[mj].steps)
	// the list of what is still to be looked at
	var work *lvRec
	wants := func(r *loopRec, l *lvRec) *Term {
		if i, ok := listElems(l.init); ok && len(i) == 1 && i[0].Op == "fld" && i[0].Aux == "MerkleRoot" {
			return i[0].Args[0]
		}
		return nil
	}
	var tj, sj = -1, -1
	for i := range rec.lvs {
		l := &rec.lvs[i]
		if len(l.steps) != steps {
			continue
		}
		if wants(rec, l) != nil {
			work = l
		}
	}
	if work == nil {
		return "there is no list of what is still to be looked at, starting with the root of each block", false
	}
	item := func(s lvStep) *Term { return mkElem(work.lv, mkInt(0)) }
	appended := func(l *lvRec, s lvStep) (x *Term, ok bool) {
		if s.next == l.lv {
			return nil, true
		}
		if s.next.Op == "concat" && len(s.next.Args) == 2 && s.next.Args[0] == l.lv {
			if a, ok := listElems(s.next.Args[1]); ok && len(a) == 1 {
				return a[0], true
			}
		}
		return nil, false
	}
	// transactions and what was seen already
	for i := range rec.lvs {
		l := &rec.lvs[i]
		if len(l.steps) != steps || l == work || i == mj {
			continue
		}
		for _, s := range l.steps {
			if x, ok := appended(l, s); ok && x != nil {
				if isConn(x, "ReadTx") {
					tj = i
				} else if x == item(s) {
					sj = i
				}
			}
		}
	}
	if tj < 0 || sj < 0 {
		return "the transactions and what was seen already cannot be followed", false
	}
	// each block's root is looked at
	b := wants(rec, work)
	outer := (*loopRec)(nil)
	for i := range k.in.recs {
		r := &k.in.recs[i]
		for j := range r.lvs {
			if r.lvs[j].lv == rec.lvs[tj].init {
				outer = r
			}
		}
	}
	if outer == nil {
		return "the loop over the blocks cannot be followed", false
	}
	at := outer.idx
	if !oldest {
		at = mkAdd(n, mkSub(mkInt(-1), at, false))
	}
	if !k.same(b, mkElem(blocks, at)) {
		return "the blocks are not looked at in the order they were offered: " + b.String(), false
	}
	for i := 0; i < steps; i++ {
		ws, ms, ts, ss := work.steps[i], rec.lvs[mj].steps[i], rec.lvs[tj].steps[i], rec.lvs[sj].steps[i]
		at := K{k.in, &State{ws.facts, ws.mem}}
		id := item(ws)
		rest := mkSlice(work.lv, mkInt(1), tNil)
		m, ok1 := appended(&rec.lvs[mj], ms)
		t, ok2 := appended(&rec.lvs[tj], ts)
		s, ok3 := appended(&rec.lvs[sj], ss)
		if !ok1 || !ok2 || !ok3 {
			return "a step changes what was collected: " + ms.next.String() + "; " + ts.next.String() + "; " + ss.next.String(), false
		}
		switch {
		case m != nil && t == nil:
			if !isConn(m, "ReadMerkle") || m.Args[1] != id || s != id || ws.next != mkConcat(rest, mk("list", "", F(m, "LChild"), F(m, "RChild"))) {
				return "a tree node is taken without looking at both its children: " + ws.next.String(), false
			}
		case t != nil && m == nil:
			if !isConn(t, "ReadTx") || t.Args[1] != id || s != id || ws.next != rest {
				return "a transaction is taken wrongly", false
			}
		case s != nil:
			return "something is noted as received that was not", false
		default:
			if ws.next != rest {
				return "something is dropped without being looked at: " + ws.next.String(), false
			}
			if !at.has(inv("HasTx", id)) && !at.has(inv("HasMerkle", id)) && !at.has(mkIn(id, rec.lvs[sj].lv)) {
				return "something that is neither stored nor received is passed over", false
			}
		}
	}
	// everything collected is offered
	for _, x := range []struct {
		l    *lvRec
		term *Term
	}{{&rec.lvs[tj], txs}, {&rec.lvs[sj], nil}} {
		o := (*lvRec)(nil)
		for i := range outer.lvs {
			l := &outer.lvs[i]
			if x.l.init == l.lv {
				o = l
			}
		}
		if o == nil || !isEmptyList(o.init) {
			return "what was collected is not kept from block to block: " + x.l.init.String(), false
		}
		for _, s := range o.steps {
			if s.next.Op != "lv" || s.next.Aux != x.l.lv.Aux {
				return "what was collected is not kept from block to block: " + s.next.String(), false
			}
		}
		if x.term != nil {
			if t := x.term; t.Op != "lv" || t.Aux != o.lv.Aux || !k.same(t.Args[0], n) {
				return "the transactions offered are " + t.String(), false
			}
		}
	}
	if oldest && !isEmptyList(rec.lvs[mj].init) {
		return "the tree nodes of a block start with " + rec.lvs[mj].init.String(), false
	}
	// nothing is left to be looked at
	empty := k.forall(n, func(k K, i *Term) bool {
		for f := range k.st.facts {
			if f.Op == "eq" && f.Args[0].Op == "len" && f.Args[1] == mkInt(0) || f.Op == "eq" && f.Args[1].Op == "len" && f.Args[0] == mkInt(0) {
				x := f.Args[0]
				if x.Op != "len" {
					x = f.Args[1]
				}
				if l := x.Args[0]; l.Op == "lv" && l.Aux == work.lv.Aux {
					return true
				}
			}
		}
		return false
	})
	if !empty {
		return "the loop may end with something left to be looked at", false
	}
	return "every entity is stored already or offered, children before parents", true
}

func isEmptyList(t *Term) bool {
	l, ok := listElems(t)
	return ok && len(l) == 0
}

func (c *Ctx) peerEvents() {
	r := c.peerLoop()
	if r == nil {
		return
	}
	who := callTerm("prot.Conn.PeerRuntimeId", mkField(peerP, "conn"))
	known := map[string]bool{"CandidateHead": true, "CandidateTx": true, "PeerAnnouncedAddr": true, "PeersReceived": true, "PeersRequested": true, "PeerClosing": true}
	for _, q := range r.in.sinks {
		if strings.HasPrefix(q.name, "inv.Inv.Store") {
			c.ob("scope", "a peer connection stores nothing itself", false, q.pos, "%s at %v", q.name, q.stack)
		}
	}
	for _, p := range r.published("") {
		topic := p.q.args[0].Aux
		k, e := p.k, p.e
		ob := func(rule, what string, ok bool, d string) {
			c.ob(rule, topic+": "+what, ok, p.q.pos, "%s%s", clip(d, 700), ifBad(ok, "\nat "+strings.Join(p.q.stack, " > ")+describeFacts(k.st.facts)))
		}
		if !known[topic] {
			ob("scope", "published by a peer connection", false, "a peer connection may not publish this")
			continue
		}
		if topic == "PeerClosing" {
			ob("attributed", "names the peer", isConn(F(e, "PeerRuntimeId"), "PeerRuntimeId"), "it names "+F(e, "PeerRuntimeId").String())
			continue
		}
		if topic != "PeersRequested" {
			ob("whole", "published only if everything was read without an error", k.noError(), "nothing failed")
		}
		switch topic {
		case "PeerAnnouncedAddr", "PeersRequested":
			ob("attributed", "names the peer", F(e, "PeerRuntimeId") == who, "it names "+F(e, "PeerRuntimeId").String())
			if topic == "PeerAnnouncedAddr" {
				ob("content", "the address is the one read", isConn(F(e, "Addr"), "ReadString"), "it is "+F(e, "Addr").String())
			}
		case "PeersReceived":
			m := F(e, "PeerAddrs")
			ok := m.Op == "mapof" && m.Args[3].Op == "emptymap" && isConn(m.Args[0], "ReadUint64") && isConn(m.Args[1], "ReadString") && isConn(m.Args[2], "ReadString") && m.Args[1] != m.Args[2]
			ob("content", "the addresses are those read", ok, "they are "+m.String())
		case "CandidateTx":
			tx := F(e, "Tx")
			ok := isConn(tx, "ReadTx") && isConn(tx.Args[1], "ReadHashT")
			ob("content", "the transaction is one read for the id announced", ok, "it is "+tx.String())
			ob("content", "nobody waits for an answer", F(e, "Ret") == tNil || F(e, "Ret") == tZero, "the answer goes to "+F(e, "Ret").String())
		case "CandidateHead":
			blocks := F(e, "Blocks")
			n := mkLen(blocks)
			last := mkElem(blocks, mkAdd(n, mkInt(-1)))
			first := mkElem(blocks, mkInt(0))
			h := func(b *Term) *Term { return callTerm("core.Block.Hash", b) }
			ob("chain", "there is a block", k.has(mkNot(mkEq(n, mkInt(0)))), "the blocks are "+blocks.String())
			ok := k.each(blocks, func(k K, i, e *Term) bool { return isConn(e, "ReadBlock") })
			ob("content", "each block is one read for the id announced", ok, "the blocks are "+blocks.String())
			ob("chain", "the head offered is that of the last block", k.same(F(e, "Head"), h(last)), "the head is "+F(e, "Head").String())
			m := mkAdd(n, mkInt(-1))
			ok = k.forall(m, func(k K, i *Term) bool {
				return k.same(h(mkElem(blocks, i)), F(mkElem(blocks, mkAdd(i, mkInt(1))), "PrevBlockId"))
			}) || k.forall(m, func(k K, i *Term) bool {
				j := mkAdd(n, mkSub(mkInt(-2), i, false))
				return k.same(h(mkElem(blocks, j)), F(mkElem(blocks, mkAdd(j, mkInt(1))), "PrevBlockId"))
			})
			ob("chain", "each block follows the one before", ok, "the blocks are "+blocks.String())
			ob("chain", "the first block follows one that is stored", k.stored("HasBlock", F(first, "PrevBlockId")), "the blocks are "+blocks.String())
			ok = k.each(blocks, func(k K, i, e *Term) bool { return k.has(mkHashLt(h(e), F(e, "Target"))) })
			ob("work", "each block's hash beats its target", ok, "the blocks are "+blocks.String())
			ob("work", "the blocks' work beats that of the node's own chain", k.proven(blocks), "the blocks are "+blocks.String())
			why, ok := k.wholeChain(e)
			ob("complete", "everything the blocks refer to is stored or offered, children first", ok, why)
			ob("content", "its transactions are not trusted", isFalse(F(e, "AutoAddMempoolInsecure")), "AutoAddMempoolInsecure is "+F(e, "AutoAddMempoolInsecure").String())
		}
	}
	// a chain is proven before its content is asked for
	for _, q := range r.in.sinks {
		if q.name != "prot.Conn.ReadMerkle" {
			continue
		}
		k := q.k(r.in)
		work, target := false, false
		for f := range k.st.facts {
			work = work || len(f.Args) == 2 && f.Op != "eq" && isCall(f.Args[0], "inv.Inv.GetBlockTotalWork") && k.nodeHead(f.Args[0].Args[0], 0) && f.Op != "not"
			if f.Op == "all" && len(f.Args) == 2 {
				for _, g := range conjuncts(f.Args[1]) {
					target = target || g.Op != "not" && len(g.Args) == 2 && isCall(g.Args[0], "core.Block.Hash") && g.Args[1].Op == "fld" && g.Args[1].Aux == "Target" && g.Args[1].Args[0] == g.Args[0].Args[0]
				}
			}
		}
		c.ob("work", "sync: content is asked for only after the work was proven", work && target, q.pos, "%s", describeIf(!(work && target), q.facts))
	}
}

func init() {
	register("C15",
		"the loop of a peer connection is analysed with every handler, over a model of the connection in which everything read may be anything and every operation may fail; at every place an event is published the facts known on its path are compared with what must hold of its content; the methods of the connection are then analysed themselves against that model, on every path through every loop",
		[]string{"a peer publishes only from its own loop", "io.ReadFull and net.Conn.Write report anything short as an error"}, func(c *Ctx) {
			c.peerEvents()
			c.contractConn()
			c.records()
			c.contractInvReads("HasMerkle", "HasTx", "HasAnyBlock", "GetMerkle", "GetTx")
			c.atLeast("whole", 4)
			c.atLeast("content", 6)
			c.atLeast("chain", 4)
			c.atLeast("work", 3)
			c.atLeast("complete", 1)
			c.atLeast("attributed", 3)
			c.atLeast("failure", 35)
			c.atLeast("verified", 3)
		})
}
