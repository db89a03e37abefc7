package main

// What a peer is told, and what it is sent when it asks: each event of the
// node becomes a command that the other side understands, and each command is
// acknowledged and dealt with.

import (
	"go/types"
	"sort"
	"strings"
)

// what of the node's events becomes known to a peer, and as what the other side passes it on.
var tellings = []struct{ event, becomes string }{
	{"ValidatedTx", "CandidateTx"},
	{"ShouldAnnounceAddr", "PeerAnnouncedAddr"},
	{"SendPeers", "PeersReceived"},
	{"ShouldRequestPeers", "PeersRequested"},
	{"ValidatedHead", "CandidateHead"},
}

// told runs a peer's loop with nothing but an event of a topic to be received, and the answer to a command being anything but a command, or the command given.
func (c *Ctx) told(topic, crossed string) *runRes {
	over := connOver(c.p)
	read := over["prot.Conn.Read"]
	over["prot.Conn.Read"] = func(cc *callCtx) []callRes {
		if (K{cc.in, cc.ps.st}).received("."+topic+".C") == nil {
			// not what is looked at
			cc.in.store(cc.ps.st, connErr(cc), mk("nonnil", "skipped"))
			return cc.ret(mkStr(""))
		}
		if crossed != "" {
			out := read(cc)
			for i := range out {
				out[i].val = mkStr("cmd:" + crossed)
			}
			return out
		}
		var out []callRes
		for _, r := range read(cc) {
			if cc.in.addFact(r.ps.st, mkNot(callTerm("strings.HasPrefix", r.val, mkStr("cmd:")))) {
				out = append(out, r)
			}
		}
		return out
	}
	forgetting(over, func(k K) bool { return k.received("."+topic+".C") == nil })
	return c.run("internal/peer.Peer.Loop", runOpt{args: []*Term{peerP}, opaque: []string{"topic.SubCh.Close"}, over: over, key: "told " + topic + crossed, states: 1000,
		setup: func(in *Interp, _ *State) {
			in.choose = func(ch *Term) bool {
				return ch != nil && strings.HasSuffix(ch.String(), "."+topic+".C")
			}
		}})
}

// forgetting leaves no trace of what is done on a connection before what is looked at begins.
func forgetting(over map[string]primFn, before func(k K) bool) {
	for n, f := range over {
		n, f := n, f
		over[n] = func(cc *callCtx) []callRes {
			skip := before(K{cc.in, cc.ps.st})
			out := f(cc)
			for _, r := range out {
				for t := range r.ps.st.facts {
					if skip && t.Op == "did" && t.Aux == n {
						delete(r.ps.st.facts, t)
					}
				}
			}
			return out
		}
	}
}

// heard runs a peer's loop with nothing but a message to be received.
func (c *Ctx) heard(msg string) *runRes {
	over := connOver(c.p)
	over["prot.Conn.Read"] = func(cc *callCtx) []callRes {
		// nothing is said first
		cc.in.store(cc.ps.st, connErr(cc), mk("nonnil", "skipped"))
		return cc.ret(mkStr(""))
	}
	read := over["prot.Conn.ReadTimeout"]
	over["prot.Conn.ReadTimeout"] = func(cc *callCtx) []callRes {
		out := read(cc)
		for i := range out {
			out[i].val = mkStr(msg)
			cc.in.did(out[i].ps.st, "heard")
		}
		return out
	}
	forgetting(over, func(k K) bool { return len(k.dids("heard")) == 0 })
	return c.run("internal/peer.Peer.Loop", runOpt{args: []*Term{peerP}, opaque: []string{"topic.SubCh.Close"}, over: over, key: "heard " + msg, states: 1000,
		setup: func(in *Interp, _ *State) {
			in.choose = func(ch *Term) bool { return ch == nil }
		}})
}

// rounds gives what is known wherever a round of the loop ends.
func (r *runRes) rounds() []K {
	var out []K
	for i := range r.in.recs {
		if rec := &r.in.recs[i]; rec.depth == 1 {
			for _, b := range rec.backs {
				out = append(out, K{r.in, &State{facts: b.facts, mem: b.mem}})
			}
		}
	}
	return out
}

func isWrite(s Sink) bool {
	return strings.HasPrefix(s.name, "prot.Conn.Write") && s.kind == "call"
}

func (k K) failed() bool {
	return len(k.dids("prot.Conn.Err")) > 0 || len(k.dids("prot.Conn.TimeoutErrOrPanic")) > 0
}

// a thing said: a method of the connection and what it is given.
type said struct {
	method string
	arg    *Term
}

func (k K) hasSaid(s said) bool {
	return k.didMatch("prot.Conn."+s.method, func(a []*Term) bool {
		return a[1] == s.arg || s.arg == tTrue && k.has(a[1]) || isFalse(s.arg) && k.has(mkNot(a[1]))
	})
}

// contentOf gives what is said about an event once the command for it was acknowledged, in order.
func contentOf(event string, e *Term) []said {
	switch event {
	case "ValidatedTx":
		return []said{{"WriteHashT", F(e, "TxId")}}
	case "ShouldAnnounceAddr":
		return []said{{"WriteString", F(e, "Addr")}}
	case "SendPeers":
		return []said{{"WriteUint64", mkLen(F(e, "PeerAddrs"))}}
	case "ValidatedHead":
		return []said{{"WriteHashT", callTerm("inv.Inv.GetBlockTotalWork", F(e, "Head"))}, {"WriteHashT", F(e, "Head")}}
	}
	return nil
}

func (c *Ctx) tells() map[string]string {
	cmds := map[string]string{}
	who := callTerm("prot.Conn.PeerRuntimeId", mkField(peerP, "conn"))
	hasTarget := func(topic string) bool {
		t := c.p.typ("internal/bus." + topic + "Event")
		s, _ := t.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == "TargetRuntimeId" {
				return true
			}
		}
		return false
	}
	for _, t := range tellings {
		r := c.told(t.event, "")
		if r == nil {
			return nil
		}
		seen := map[string]bool{}
		for _, s := range r.in.sinks {
			if s.name == "prot.Conn.WriteString" && s.args[1].Op == "str" && strings.HasPrefix(unq(s.args[1]), "cmd:") && s.k(r.in).received("."+t.event+".C") != nil {
				seen[unq(s.args[1])[4:]] = true
			}
		}
		ns := sortedNames(seen)
		c.ob("commands", t.event+" is told with one command", len(ns) == 1, r.fn.Pos(), "%v", ns)
		if len(ns) == 1 {
			cmds[t.event] = ns[0]
		}
	}
	var all []string
	for _, x := range cmds {
		all = append(all, x)
	}
	sort.Strings(all)
	for i := range all {
		c.ob("commands", "each is told with a command of its own", i == 0 || all[i] != all[i-1], 0, "%v", all)
	}
	for _, t := range tellings {
		x := cmds[t.event]
		if x == "" {
			continue
		}
		for _, y := range append([]string{""}, all...) {
			r := c.told(t.event, y)
			what := t.event
			if y != "" {
				what += ", told as " + y + " is heard"
			}
			cmd, ack := mkStr("cmd:"+x), mkStr("ack:"+x)
			n := 0
			for _, k := range r.rounds() {
				if k.received("."+t.event+".C") != nil {
					n++
				}
			}
			c.ob("told", what+": may happen", n > 1, r.fn.Pos(), "%d ways", n)
			if y != "" {
				c.crossing(what, r, mkStr("ack:"+x), mkStr("ack:"+y))
			}
			for _, k := range r.rounds() {
				e := k.received("." + t.event + ".C")
				if e == nil {
					continue
				}
				ob := func(rule, w string, ok bool) {
					c.ob(rule, what+": "+w, ok, r.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
				}
				target := hasTarget(t.event)
				if target && k.has(mkNot(mkEq(F(e, "TargetRuntimeId"), who))) {
					said := false
					for _, m := range []string{"WriteString", "WriteHashT", "WriteBool", "WriteUint64", "Write"} {
						said = said || len(k.dids("prot.Conn."+m)) > 0
					}
					ob("meant", "a peer it is not meant for is told nothing", !said)
					continue
				}
				if target {
					ob("meant", "a peer is told what is meant for it", k.has(mkEq(F(e, "TargetRuntimeId"), who)))
				}
				ob("told", "the peer is told", k.hasSaid(said{"WriteString", cmd}))
				if k.failed() {
					continue
				}
				acked := k.didMatch("prot.Conn.ReadStringExpected", func(a []*Term) bool { return a[1] == ack })
				if y == "" {
					acked = acked || len(k.st.facts) > 0 && k.answered(ack)
				}
				if y != "" && acked {
					ob("crossed", "the peer's command is acknowledged too", k.hasSaid(said{"WriteString", mkStr("ack:" + y)}) || y == cmds["ValidatedHead"] || x == cmds["ValidatedHead"])
				}
				if !acked {
					// it was not: that must be known
					ok := y == "" && k.refused(ack) || y != "" && y == cmds["ValidatedHead"] // the other command may have failed
					ob("told", "goes on if the command is acknowledged", ok)
					continue
				}
				for _, s := range contentOf(t.event, e) {
					ob("content", "what it is about is sent", k.hasSaid(s))
				}
				switch t.event {
				case "SendPeers":
					ok := false
					for _, f := range k.list() {
						ok = ok || k.sendsEach(f, F(e, "PeerAddrs"))
					}
					ob("content", "every address is sent with the id of its node", ok)
				case "ValidatedTx":
					ok := false
					for f := range k.st.facts {
						if f.Op == "not" && isConn(f.Args[0], "ReadBool") {
							ok = true
						}
						if isConn(f, "ReadBool") {
							ok = ok || k.hasSaid(said{"WriteTx", callTerm("inv.Inv.GetTx", F(e, "TxId"))})
						}
					}
					ok = ok || y != "" && y == cmds["ValidatedHead"]
					ob("content", "the transaction itself is sent if it is wanted", ok)
				}
			}
			// in order, and nothing before its time
			for _, s := range r.in.sinks {
				k := s.k(r.in)
				e := k.received("." + t.event + ".C")
				if !isWrite(s) || e == nil {
					continue
				}
				if hasTarget(t.event) {
					ok := k.has(mkEq(F(e, "TargetRuntimeId"), who))
					c.ob("meant", what+": nothing is written unless it is meant for this peer", ok, s.pos, "%s", describeIf(!ok, s.facts))
				}
				if x := s.args[1]; x.Op == "lookup" && x.Args[0] == F(e, "PeerAddrs") {
					ok := k.hasSaid(said{"WriteString", x.Args[1]})
					c.ob("order", what+": each address is sent after the id it belongs to", ok, s.pos, "%s", describeIf(!ok, s.facts))
				}
				me := said{strings.TrimPrefix(s.name, "prot.Conn."), s.args[1]}
				if me.method == "WriteString" && me.arg == cmd {
					continue
				}
				ok := k.hasSaid(said{"WriteString", cmd})
				c.ob("order", what+": the command comes first", ok, s.pos, "%s", describeIf(!ok, s.facts))
				for i, p := range contentOf(t.event, e) {
					if p == me && y != x {
						ok := y == "" && k.answered(ack) || k.didMatch("prot.Conn.ReadStringExpected", func(a []*Term) bool { return a[1] == ack })
						c.ob("order", what+": what it is about is sent once the command is acknowledged", ok, s.pos, "%s", describeIf(!ok, s.facts))
						for _, q := range contentOf(t.event, e)[:i] {
							ok := k.hasSaid(q)
							c.ob("order", what+": what it is about is sent in order", ok, s.pos, "%s", describeIf(!ok, s.facts))
						}
					}
				}
			}
		}
	}
	return cmds
}

// crossing: of two commands said at once, it is the same one that both sides deal with first.
func (c *Ctx) crossing(what string, r *runRes, ours, theirs *Term) {
	order := map[bool]map[bool]bool{true: {}, false: {}}
	for _, s := range r.in.sinks {
		k := s.k(r.in)
		if s.name != "prot.Conn.WriteString" || s.args[1] != theirs || len(k.dids("prot.Conn.Read")) == 0 || ours == theirs {
			continue
		}
		first := callTerm("prot.Conn.WeAreInitiator", mkField(peerP, "conn"))
		after := k.didMatch("prot.Conn.ReadStringExpected", func(a []*Term) bool { return a[1] == ours })
		switch {
		case k.has(first):
			order[true][after] = true
		case k.has(mkNot(first)):
			order[false][after] = true
		default:
			order[true][after] = true
			order[false][after] = true
		}
	}
	a, b := order[true], order[false]
	ok := len(a) == 1 && len(b) == 1 && a[true] == b[false] || ours == theirs
	c.ob("crossed", what+": both sides deal with the same command first", ok, r.fn.Pos(), "ours before theirs: %v as the initiator, %v as the other", a, b)
}

func (k K) list() []*Term {
	var out []*Term
	for f := range k.st.facts {
		out = append(out, f)
	}
	return out
}

// answered: the answer read to a command is this.
func (k K) answered(ack *Term) bool {
	for f := range k.st.facts {
		if f.Op == "eq" && (f.Args[0] == ack && isConn(f.Args[1], "Read") || f.Args[1] == ack && isConn(f.Args[0], "Read")) {
			return true
		}
	}
	return false
}

func (k K) refused(ack *Term) bool {
	for f := range k.st.facts {
		if f.Op == "not" && f.Args[0].Op == "eq" {
			f = f.Args[0]
			if f.Args[0] == ack && isConn(f.Args[1], "Read") || f.Args[1] == ack && isConn(f.Args[0], "Read") {
				return true
			}
		}
	}
	return false
}

// sendsEach: a fact that for every key of a table, the key and what it is for are sent.
func (k K) sendsEach(f, m *Term) bool {
	if f.Op != "all" || f.Args[0] != mkLen(m) {
		return false
	}
	key, val := false, false
	for _, a := range f.Args[1:] {
		for _, g := range conjuncts(a) {
			if g.Op == "did" && g.Aux == "prot.Conn.WriteString" {
				x := g.Args[1]
				key = key || x == mkElem(mkKeys(m), binderVar(f))
				val = val || x.Op == "lookup" && x.Args[0] == m
			}
		}
	}
	return key && val
}

// hears: what each command leads to.
func (c *Ctx) hears(cmds map[string]string) {
	who := callTerm("prot.Conn.PeerRuntimeId", mkField(peerP, "conn"))
	r := c.heard("cmd:close")
	n := 0
	for _, k := range r.rounds() {
		if len(k.dids("heard")) > 0 && !k.failed() {
			n++
			ok := k.has(k.in.load(k.st, mkField(peerP, "shouldClose"), nil)) || k.in.load(k.st, mkField(peerP, "shouldClose"), nil) == tTrue
			c.ob("heard", "after being told that the peer closes nothing more is done", ok, r.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
		}
	}
	c.ob("heard", "a peer may close", n > 0, r.fn.Pos(), "%d ways", n)
	for _, t := range tellings {
		x := cmds[t.event]
		if x == "" {
			continue
		}
		r := c.heard("cmd:" + x)
		ack := said{"WriteString", mkStr("ack:" + x)}
		n := 0
		for _, k := range r.rounds() {
			if len(k.dids("heard")) == 0 || k.failed() {
				continue
			}
			n++
			ob := func(w string, ok bool) {
				c.ob("heard", x+": "+w, ok, r.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
			}
			ob("is acknowledged", k.hasSaid(ack))
			if t.event == "ValidatedHead" {
				continue // see synced
			}
			var pub []*Term
			other := ""
			for _, d := range k.dids("topic.Topic.Pub") {
				if d.args[0].Aux != t.becomes {
					other = d.args[0].Aux
				}
			}
			ob("is passed on as nothing else", other == "")
			for _, d := range k.dids("topic.Topic.Pub") {
				if l, ok := listElems(d.args[1]); ok && d.args[0].Aux == t.becomes {
					pub = append(pub, l...)
				}
			}
			if t.event == "ValidatedTx" {
				var id *Term
				for f := range k.st.facts {
					g := f
					if f.Op == "not" {
						g = f.Args[0]
					}
					if isCall(g, "inv.Inv.HasTx") && isConn(g.Args[0], "ReadHashT") {
						id = g.Args[0]
					}
				}
				ob("the transaction announced is looked up", id != nil)
				if id == nil {
					continue
				}
				if k.has(callTerm("inv.Inv.HasTx", id)) {
					ob("one that is known is not wanted", k.hasSaid(said{"WriteBool", tFalse}) && !k.hasSaid(said{"WriteBool", tTrue}) && len(pub) == 0)
					continue
				}
				ob("one that is not known is wanted", k.hasSaid(said{"WriteBool", tTrue}) && !k.hasSaid(said{"WriteBool", tFalse}))
				ob("one that is not known is passed on", len(pub) == 1 && isConn(F(pub[0], "Tx"), "ReadTx"))
				continue
			}
			ok := len(pub) == 1
			switch {
			case !ok:
			case t.event == "ShouldAnnounceAddr":
				ok = isConn(F(pub[0], "Addr"), "ReadString") && F(pub[0], "PeerRuntimeId") == who
			case t.event == "ShouldRequestPeers":
				ok = F(pub[0], "PeerRuntimeId") == who
			}
			ob("is passed on", ok)
		}
		c.ob("heard", x+": may happen", n > 0, r.fn.Pos(), "%d ways", n)
		for _, s := range r.in.sinks {
			k := s.k(r.in)
			if len(k.dids("heard")) == 0 {
				continue
			}
			if isWrite(s) && !(s.name == "prot.Conn.WriteString" && s.args[1] == ack.arg) || strings.HasPrefix(s.name, "prot.Conn.Read") && s.name != "prot.Conn.ReadTimeout" {
				ok := k.hasSaid(ack)
				c.ob("order", x+": is acknowledged before anything else is said or read", ok, s.pos, "%s", describeIf(!ok, s.facts))
			}
		}
	}
}

// synced: a chain is sent or taken as the proven work of both sides tells.
func (c *Ctx) synced(cmds map[string]string) {
	x := cmds["ValidatedHead"]
	if x == "" {
		return
	}
	for _, from := range []struct {
		what string
		r    *runRes
	}{{"told of a new head", c.told("ValidatedHead", "")}, {"asked to compare chains", c.heard("cmd:" + x)}} {
		n := map[string]int{}
		for _, k := range from.r.rounds() {
			if k.failed() || k.received(".ValidatedHead.C") == nil && len(k.dids("heard")) == 0 || k.refused(mkStr("ack:"+x)) {
				continue
			}
			c.sync(from.what, from.r, k, n)
		}
		for _, w := range []string{"equal", "taken", "sent"} {
			c.ob("synced", from.what+": may be "+w, n[w] > 0, from.r.fn.Pos(), "%d ways", n[w])
		}
	}
}

func (c *Ctx) sync(what string, r *runRes, k K, n map[string]int) {
	ob := func(w string, ok bool) {
		c.ob("synced", what+": "+w, ok, r.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
	}
	var head, work *Term
	for _, d := range k.dids("prot.Conn.WriteHashT") {
		if isCall(d.args[1], "inv.Inv.GetBlockTotalWork") && k.nodeHead(d.args[1].Args[0], 0) {
			head, work = d.args[1].Args[0], d.args[1]
		}
	}
	ob("the node's head and its work are sent", head != nil && k.hasSaid(said{"WriteHashT", head}))
	if head == nil {
		return
	}
	// the peer's work is what ours is compared with
	var theirs *Term
	for f := range k.st.facts {
		g := f
		if f.Op == "not" {
			g = f.Args[0]
		}
		if (g.Op == "eq" || g.Op == "lt") && len(g.Args) == 2 {
			for i := 0; i < 2; i++ {
				if g.Args[i] == work && isConn(g.Args[1-i], "ReadHashT") {
					theirs = g.Args[1-i]
				}
			}
		}
	}
	ob("the peer's work is compared with the node's", theirs != nil)
	if theirs == nil {
		return
	}
	pubs := 0
	for _, d := range k.dids("topic.Topic.Pub") {
		if d.args[0].Aux == "CandidateHead" {
			pubs++
		}
	}
	sends := len(k.dids("prot.Conn.WriteBlock"))
	agreed, declined := false, false
	for _, d := range k.dids("prot.Conn.WriteString") {
		agreed = agreed || k.saidTheir(d.args[1], false)
		declined = declined || k.saidTheir(d.args[1], true)
	}
	if !agreed {
		ob("nothing is sent or taken unless both want it", pubs == 0 && sends == 0)
		if k.has(mkEq(theirs, work)) {
			n["equal"]++
			return
		}
		if declined {
			return
		}
		// what is not wanted is what is stored already
		ok := false
		for f := range k.st.facts {
			ok = ok || isCall(f, "inv.Inv.HasBlock") && isConn(f.Args[0], "ReadHashT") && f.Args[0] != theirs
		}
		ob("a chain with more work is declined only if it is stored", ok && k.has(mkHashLt(work, theirs)))
		return
	}
	switch {
	case k.has(mkEq(theirs, work)):
		ob("nothing is sent or taken if the work is the same", pubs == 0 && sends == 0)
	case k.has(mkHashLt(theirs, work)):
		n["sent"]++
		ob("nothing is taken of a peer with less work", pubs == 0)
		each := false
		for f := range k.st.facts {
			for i := 0; f.Op == "all" && i < 1; i++ {
				for _, g := range conjuncts(f.Args[1]) {
					each = each || g.Op == "did" && g.Aux == "prot.Conn.WriteBlock" && len(f.Args) == 2 && isCall(g.Args[1], "inv.Inv.GetBlock") && g.Args[1].Args[0].Op == "elem" && mkLen(g.Args[1].Args[0].Args[0]) == f.Args[0] && g.Args[1].Args[0].Args[1] == binderVar(f)
				}
			}
		}
		ob("a peer with less work is sent the blocks it has not got", each || k.nothingNeeded())
	case k.has(mkHashLt(work, theirs)):
		n["taken"]++
		ob("nothing is sent to a peer with more work", sends == 0)
		ob("what a peer with more work has is taken, unless it is none or proves not to be more", pubs == 1 || k.hasSaid(said{"WriteBool", tFalse}) || k.nothingNeeded())
	default:
		ob("it is known whose work is more", false)
	}
}

// saidTheir: what was read is this, or is not.
func (k K) saidTheir(w *Term, not bool) bool {
	for f := range k.st.facts {
		g := f
		if f.Op == "not" {
			g = f.Args[0]
		}
		if g.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if x := g.Args[i]; isConn(g.Args[1-i], "ReadString") && x.Op == "str" {
				if !not && f == g && x == w || not && (f != g && x == w || f == g && x != w) {
					return true
				}
			}
		}
	}
	return false
}

// nothingNeeded: the list of blocks made in a loop is empty.
func (k K) nothingNeeded() bool {
	for f := range k.st.facts {
		for i := 0; f.Op == "eq" && i < 2; i++ {
			if n := f.Args[i]; n.Op == "len" && f.Args[1-i] == mkInt(0) {
				if rec, _ := k.in.lvFind(n.Args[0]); rec != nil {
					return true
				}
			}
		}
	}
	return false
}

// readBy: a value read with this method, or in a loop with the value of each round read so.
func (k K) readBy(t *Term, method string) bool {
	if isConn(t, method) {
		return true
	}
	rec, j := k.in.lvFind(t)
	if rec == nil || !isConn(rec.lvs[j].init, method) {
		return false
	}
	for _, s := range rec.lvs[j].steps {
		if !isConn(s.next, method) {
			return false
		}
	}
	return true
}

// refusedChain: a list made of the ids of a chain, from the node's head to the parent of the one before, of those that the peer was asked about and has not got.
func (k K) refusedChain(l *Term) (why string, ok bool) {
	rec, j := k.in.lvFind(l)
	if rec == nil || len(rec.lvs[j].steps) == 0 {
		return "it is not made in a loop", false
	}
	if e, ok := listElems(rec.lvs[j].init); !ok || len(e) > 0 {
		return "it does not begin empty", false
	}
	for n, s := range rec.lvs[j].steps {
		x := s.next
		if x.Op != "concat" || len(x.Args) != 2 || x.Args[0] != rec.lvs[j].lv {
			return "one is not added in each round", false
		}
		e, ok := listElems(x.Args[1])
		if !ok || len(e) != 1 {
			return "one is not added in each round", false
		}
		y := -1
		for i := range rec.lvs {
			if rec.lvs[i].lv == e[0] {
				y = i
			}
		}
		if y < 0 || !k.nodeHead(rec.lvs[y].init, 0) {
			return "the first is not the node's head", false
		}
		next := rec.lvs[y].steps[n].next
		if next != F(callTerm("inv.Inv.GetBlock", e[0]), "PrevBlockId") && next != callTerm("inv.Inv.GetBlockParentId", e[0]) {
			return "each next is not the parent of the one before", false
		}
		kk := K{k.in, &State{facts: map[*Term]bool{}, mem: k.st.mem}}
		for f := range s.facts {
			kk.st.facts[f] = true
		}
		no := false
		for f := range s.facts {
			no = no || f.Op == "not" && kk.readBy(f.Args[0], "ReadBool")
		}
		if !no {
			return "one the peer has may be among them", false
		}
		if !kk.hasSaid(said{"WriteHashT", e[0]}) && !kk.hasSaid(said{"WriteHashT", next}) {
			return "the peer is not asked about each", false
		}
	}
	return "", true
}

// sends: what is sent is what was asked for.
func (c *Ctx) sends(cmds map[string]string) {
	x := cmds["ValidatedHead"]
	if x == "" {
		return
	}
	full, self := c.told("ValidatedHead", ""), c.heard("cmd:"+x)
	tag := map[string]*Term{}
	for _, s := range append(append([]Sink(nil), full.in.sinks...), self.in.sinks...) {
		if s.name != "prot.Conn.ReadTx" && s.name != "prot.Conn.ReadMerkle" {
			continue
		}
		k := s.k(full.in)
		yes, no := false, false
		for f := range k.st.facts {
			yes = yes || isConn(f, "ReadBool") && len(s.loops) > 0 && f.Args[len(f.Args)-1].Args != nil && mentionsLoop(f, s)
			no = no || f.Op == "not" && isConn(f.Args[0], "ReadBool") && mentionsLoop(f.Args[0], s)
		}
		ok := yes != no
		c.ob("sent", s.name[len("prot.Conn.Read"):]+" taken: the peer told of what kind it is", ok, s.pos, "%s", describeIf(!ok, s.facts))
		w := "prot.Conn.Write" + s.name[len("prot.Conn.Read"):]
		c.ob("sent", "one word for a kind", tag[w] == nil || tag[w] == mkBool(yes), s.pos, "")
		tag[w] = mkBool(yes)
	}
	c.ob("sent", "different words for different kinds", len(tag) == 2 && tag["prot.Conn.WriteTx"] != tag["prot.Conn.WriteMerkle"], full.fn.Pos(), "%v", tag)
	for i, r := range []*runRes{full, self} {
		what := []string{"told of a new head", "asked to compare chains"}[i]
		n := map[string]int{}
		ids := map[*Term]bool{}
		for _, s := range r.in.sinks {
			k := s.k(r.in)
			switch s.name {
			case "prot.Conn.WriteBlock":
				n[s.name]++
				g := s.args[1]
				ok := isCall(g, "inv.Inv.GetBlock") && g.Args[0].Op == "elem"
				why := "it is " + g.String()
				if ok {
					l, i := g.Args[0].Args[0], g.Args[0].Args[1]
					why, ok = k.refusedChain(l)
					c.ob("sent", what+": each block of the list is sent", k.has(mkLt(i, mkLen(l), false)), s.pos, "")
				}
				c.ob("sent", what+": the blocks sent are those of the node's chain the peer has not got, from the head on", ok, s.pos, "%s", why)
				yes := false
				for f := range k.st.facts {
					yes = yes || k.readBy(f, "ReadBool")
				}
				c.ob("sent", what+": blocks are sent once the peer has one of them", yes, s.pos, "%s", describeIf(!yes, s.facts))
			case "prot.Conn.WriteTx", "prot.Conn.WriteMerkle":
				n[s.name]++
				kind := s.name[len("prot.Conn.Write"):]
				g := s.args[1]
				ok := isCall(g, "inv.Inv.Get"+kind) && k.stored("Has"+kind, g.Args[0])
				c.ob("sent", what+": "+kind+" sent is one that is stored", ok, s.pos, "%s", describeIf(!ok, s.facts))
				if !ok {
					continue
				}
				ids[g.Args[0]] = true
				ok = k.readBy(g.Args[0], "ReadHashT")
				c.ob("sent", what+": "+kind+" sent is the one asked for", ok, s.pos, "it is %s", g)
				ok = k.hasSaid(said{"WriteBool", tag[s.name]}) && !k.hasSaid(said{"WriteBool", mkNot(tag[s.name])})
				c.ob("sent", what+": "+kind+" is sent after telling of what kind it is", ok, s.pos, "%s", describeIf(!ok, s.facts))
			}
		}
		for _, m := range []string{"WriteBlock", "WriteTx", "WriteMerkle"} {
			c.ob("sent", what+": "+m[5:]+" may be sent", n["prot.Conn."+m] > 0, r.fn.Pos(), "%d places", n["prot.Conn."+m])
		}
		// all that is asked for
		for id := range ids {
			rec, j := r.in.lvFind(id)
			if rec == nil {
				continue
			}
			for _, k := range append(r.ends(), r.rounds()...) {
				t := k.nonZeroOf(rec, j)
				if t == nil || k.failed() {
					continue
				}
				ok := k.has(mkNot(inv("HasTx", t))) && k.has(mkNot(inv("HasMerkle", t)))
				c.ob("sent", what+": what is asked for goes unanswered only if it is not stored", ok, r.fn.Pos(), "%s", describeIf(!ok, k.st.facts))
			}
			for _, s := range rec.lvs[j].steps {
				ok := false
				for f := range s.facts {
					ok = ok || f.Op == "did" && (f.Aux == "prot.Conn.WriteTx" || f.Aux == "prot.Conn.WriteMerkle") && len(f.Args[1].Args) > 0 && f.Args[1].Args[0] == rec.lvs[j].lv
				}
				c.ob("sent", what+": each that is asked for is answered", ok, r.fn.Pos(), "%s", "")
			}
		}
	}
}

// ends gives what is known where the routine ends.
func (r *runRes) ends() []K {
	var out []K
	for _, o := range r.outs {
		out = append(out, K{r.in, o.st})
	}
	return out
}

// nonZeroOf: a value of the loop's variable that is known not to be zero.
func (k K) nonZeroOf(rec *loopRec, j int) *Term {
	for f := range k.st.facts {
		for i := 0; f.Op == "not" && f.Args[0].Op == "eq" && i < 2; i++ {
			if x, y := k.in.lvFind(f.Args[0].Args[i]); x == rec && y == j && f.Args[0].Args[1-i] == tZero {
				return f.Args[0].Args[i]
			}
		}
	}
	return nil
}

func mentionsLoop(f *Term, s Sink) bool {
	for _, l := range s.loops {
		if occursIn(f, l) {
			return true
		}
	}
	return false
}

func init() {
	register("C17",
		"the loop of a peer is analysed once for each event of the node, with the answer to the command being no command, and with it being each command the peer may say at the same time, and once for each command the peer may say first; at the end of every round and at every place something is written, what was said, read and published on the path is compared with what the event or command calls for",
		[]string{"both sides run this version", "commands that cross are looked at one at a time"}, func(c *Ctx) {
			cmds := c.tells()
			c.hears(cmds)
			c.synced(cmds)
			c.sends(cmds)
			c.records()
			c.contractInvReads("HasMerkle", "HasTx", "HasAnyBlock", "GetMerkle", "GetTx", "GetBlockAncestors")
			c.contractQueue()
			c.contractSet()
			c.contractUtil()
			for r, n := range map[string]int{"commands": 6, "told": 40, "meant": 20, "content": 20, "order": 30, "crossed": 20, "heard": 12, "synced": 12, "sent": 20} {
				c.atLeast(r, n)
			}
		})
}
