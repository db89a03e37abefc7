package main

// Which nodes a node is connected to: a bounded number, each once, never itself.

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var factoryP = mkSym("pf")

func (c *Ctx) factoryOver() map[string]primFn {
	over := connOver(c.p)
	for _, n := range []string{"syncqueue.SyncQueue.Push", "syncqueue.SyncQueue.Pop"} {
		over[n] = opaqueP
	}
	// a connection just made is noted; it may have failed already
	over["prot.NewConn"] = func(c *callCtx) []callRes {
		conn := callTerm(c.name, append(c.vals(0), c.site())...)
		c.in.sink(c.ps.st, "call", c.name, c.vals(0), conn, c.pos)
		c.in.did(c.ps.st, "connection", conn)
		return c.ret(conn)
	}
	over["prot.ResolveConn"] = func(c *callCtx) []callRes {
		call := callTerm(c.name, append(c.vals(0), c.site())...)
		c.in.sink(c.ps.st, "call", c.name, c.vals(0), call, c.pos)
		conn, err := mk("res", "0", call), mk("res", "1", call)
		bad := c.ps.clone()
		var out []callRes
		if c.in.addFact(bad.st, mkNot(mkEq(err, tNil))) {
			out = append(out, callRes{bad, mk("tuple", "", tNil, err)})
		}
		if c.in.addFact(c.ps.st, mkNot(mkEq(conn, tNil))) {
			c.in.did(c.ps.st, "connection", conn)
			out = append(out, callRes{c.ps, mk("tuple", "", conn, tNil)})
		}
		return out
	}
	return over
}

func (c *Ctx) runFactory(method string) *runRes {
	return c.run("internal/peerfactory.PeerFactory."+method, runOpt{args: []*Term{factoryP}, over: c.factoryOver(), key: "factory", setup: c.lookInto("peer.Peer.Loop")})
}

// lookInto has what a function literal calls in a goroutine recorded as if it were started itself.
func (c *Ctx) lookInto(names ...string) func(in *Interp, st *State) {
	return func(in *Interp, _ *State) {
		over := map[string]primFn{}
		for n, f := range in.over {
			over[n] = f
		}
		for _, n := range names {
			over[n] = opaqueP
		}
		in.goIn = func(st *State, f *Term, args []*Term, pos token.Pos) {
			g := c.runClosureOver(f, args, st, over)
			if g == nil {
				return
			}
			for _, s := range g.in.sinks {
				for _, n := range names {
					if s.name == n {
						in.sink(st, "go", n, s.args, nil, pos)
						in.did(st, "go:"+n, s.args...)
					}
				}
			}
		}
	}
}

// startedIn lists the connections peers were started on on the way to a point.
func (k K) startedIn() []*Term {
	var out []*Term
	for _, d := range k.dids("go:peer.Peer.Loop") {
		out = append(out, F(d.args[0], "conn"))
	}
	return out
}

func isRecv(t *Term, field string) bool {
	return t.Op == "recv" && strings.HasSuffix(t.Args[0].String(), field)
}

// received gives what was certainly taken from a channel on the way here.
func (k K) received(field string) *Term {
	for _, d := range k.dids("recv") {
		if strings.HasSuffix(d.args[0].String(), field) {
			return mk("recv", "", d.args[0])
		}
	}
	return nil
}

func (c *Ctx) peersKept() {
	r := c.runFactory("Loop")
	if r == nil {
		return
	}
	max := F(mkField(factoryP, "params"), "MaxPeers")
	own := F(mkField(factoryP, "params"), "RuntimeId")
	who := func(conn *Term) *Term { return callTerm("prot.Conn.PeerRuntimeId", conn) }
	// the set of those connected is the one a new peer is looked up in
	knowns := map[string]*Term{}
	for _, q := range r.in.sinks {
		if q.kind != "go" || q.name != "peer.Peer.Loop" {
			continue
		}
		k := q.k(r.in)
		conn := F(q.args[0], "conn")
		var set *Term
		for f := range k.st.facts {
			if f.Op == "not" && f.Args[0].Op == "in" && k.same(f.Args[0].Args[0], who(conn)) {
				set = f.Args[0].Args[1]
			}
		}
		d := describeIf(set == nil, q.facts)
		if !c.ob("once", "a peer is started only if none with its id is connected", set != nil, q.pos, "%s", d) {
			continue
		}
		if set.Op == "lv" {
			knowns[lvKey(set)] = set
		}
		ok := below(k, set, max)
		c.ob("limit", "a peer is started only below the greatest number of peers", ok, q.pos, "%s", describeIf(!ok, q.facts))
		e := r.in.load(k.st, mkField(conn, "err"), nil)
		ok = k.has(mkEq(e, tNil))
		c.ob("usable", "a peer is started only on a connection that has not failed", ok, q.pos, "%s", describeIf(!ok, q.facts))
		// it starts from the head last switched to
		head := F(q.args[0], "curHead")
		ok = c.lastHead(k, head)
		c.ob("head", "a peer starts from the head the node was last told of", ok, q.pos, "the head is %s", head)
		// it misses nothing that happens from now on
		missing := c.unsubscribed(k, "peer")
		c.ob("subscribed", "a peer is subscribed before it is started", len(missing) == 0, q.pos, "not subscribed to: %s", strings.Join(missing, ", "))
	}
	c.ob("once", "the set of those connected", len(knowns) > 0, r.fn.Pos(), "%d", len(knowns))
	// the set holds those started that did not close since
	for _, n := range sortedNames(knowns) {
		for _, at := range (K{r.in, newState()}).lvRecs(knowns[n]) {
			l := at.rec.lvs[at.j]
			for _, s := range l.steps {
				k := K{r.in, &State{s.facts, s.mem}}
				started := k.startedIn()
				closing := k.received(".PeerClosing.C")
				switch {
				case len(started) > 1:
					c.ob("tracked", "one peer is started at a time", false, r.fn.Pos(), "%v", started)
				case len(started) == 1:
					x := s.next
					ok := x.Op == "concat" && x.Args[0] == l.lv && len(x.Args) == 2 && isListOf(x.Args[1], who(started[0])) || x.Op == "sadd" && x.Args[0] == l.lv && x.Args[1] == who(started[0])
					c.ob("tracked", "a peer started is noted as connected", ok, r.fn.Pos(), "those connected become %s", x)
				case closing != nil:
					ok := s.next.Op == "srm" && s.next.Args[0] == l.lv && s.next.Args[1] == F(closing, "PeerRuntimeId") || s.next == l.lv && k.has(mkNot(mkIn(F(closing, "PeerRuntimeId"), l.lv)))
					c.ob("tracked", "a peer that closed is no longer noted as connected", ok, r.fn.Pos(), "those connected become %s", s.next)
				default:
					c.ob("tracked", "nothing else changes who is noted as connected", s.next == l.lv, r.fn.Pos(), "those connected become %s%s", s.next, describeIf(s.next != l.lv, s.facts))
				}
				if req := k.received(".PeersRequested.C"); req != nil {
					ok := k.didMatch("topic.Topic.Pub", func(a []*Term) bool {
						e, ok := listElems(a[1])
						return ok && len(e) == 1 && a[0].Aux == "SendPeers" && F(e[0], "TargetRuntimeId") == F(req, "PeerRuntimeId")
					})
					c.ob("asked", "every request for addresses is answered", ok, r.fn.Pos(), "%s", describeIf(!ok, s.facts))
				}
				if ev := k.received(".PeersReceived.C"); ev != nil {
					m := F(ev, "PeerAddrs")
					ok := k.didMatch("syncqueue.SyncQueue.Push", func(a []*Term) bool {
						of, id, conds := chosenOf(a[1])
						for _, f := range conds {
							if f != mkNot(mkEq(id, own)) && f != mkNot(mkIn(id, l.lv)) {
								return false
							}
						}
						return of == m
					})
					ok = ok || k.forall(mkLen(mkKeys(m)), func(k K, i *Term) bool {
						id := mkElem(mkKeys(m), i)
						if k.same(id, own) || k.has(mkIn(id, l.lv)) {
							return true
						}
						return k.didMatch("syncqueue.SyncQueue.Push", func(a []*Term) bool {
							return isListOf(a[1], mkLookup(m, id))
						})
					})
					c.ob("addresses", "every address announced by others is tried", ok, r.fn.Pos(), "%s", describeIf(!ok, s.facts))
				}
				if conn := k.received("newConns"); conn != nil {
					ok := len(started) == 1 && started[0] == conn
					for _, n := range []string{"prot.Conn.CloseIfPossible", "prot.Conn.Close"} {
						for _, d := range k.dids(n) {
							if d.args[0] == conn && len(started) == 0 {
								ok = true
							}
						}
					}
					c.ob("handled", "every new connection becomes a peer or is closed", ok, r.fn.Pos(), "%s", describeIf(!ok, s.facts))
				}
			}
		}
	}
	// addresses
	room := func(k K, q Sink) {
		ok := false
		for f := range k.st.facts {
			anyTerm(f, func(x *Term) bool {
				if x.Op == "lv" && knowns[lvKey(x)] != nil {
					ok = ok || below(k, x, max)
				}
				return false
			})
		}
		c.ob("sought", "more peers are sought only below the greatest number", ok, q.pos, "%s", describeIf(!ok, q.facts))
	}
	for _, q := range r.in.sinks {
		k := q.k(r.in)
		switch {
		case q.name == "rand.Intn":
			ok := k.has(mkNot(mkEq(q.args[0], mkInt(0)))) || k.has(mkLt(mkInt(0), q.args[0], false))
			c.ob("sought", "a peer is picked only from some", ok, q.pos, "%s", describeIf(!ok, q.facts))
		case q.name == "syncqueue.SyncQueue.Push":
			what := q.args[1]
			if what.Op == "fld" && what.Args[0] == factoryP {
				if k.didMatch("recv", func(a []*Term) bool { return true }) {
					room(k, q)
				}
				continue // the seeds
			}
			l, ok := listElems(what)
			from, id, conds := chosenOf(what)
			if ok && len(l) == 1 && l[0].Op == "lookup" {
				from, id = l[0].Args[0], l[0].Args[1]
			}
			ok = from != nil && isRecv2(from, ".PeersReceived.C", "PeerAddrs")
			if !c.ob("addresses", "only announced addresses are tried", ok, q.pos, "tried are %s", what) {
				continue
			}
			facts := map[*Term]bool{}
			for _, f := range conds {
				facts[f] = true
			}
			if conds == nil {
				facts = k.st.facts
			}
			ok = facts[mkNot(mkEq(id, own))] || conds == nil && k.has(mkNot(mkEq(id, own)))
			c.ob("addresses", "our own address is not tried", ok, q.pos, "%s", describeIf(!ok, q.facts))
			in := false
			for _, s := range knowns {
				for f := range facts {
					in = in || f.Op == "not" && f.Args[0].Op == "in" && f.Args[0].Args[0] == id && f.Args[0].Args[1].Op == "lv" && lvKey(f.Args[0].Args[1]) == lvKey(s)
				}
			}
			c.ob("addresses", "those connected already are not tried", in, q.pos, "%s", describeIf(!in, q.facts))
		case q.name == "topic.Topic.Pub":
			l, _ := listElems(q.args[1])
			for _, e := range l {
				switch q.args[0].Aux {
				case "SendPeers":
					req := k.received(".PeersRequested.C")
					ok := req != nil && F(e, "TargetRuntimeId") == F(req, "PeerRuntimeId")
					c.ob("asked", "addresses are sent to the peer that asked", ok, q.pos, "they go to %s", F(e, "TargetRuntimeId"))
					m := F(e, "PeerAddrs")
					ok = m.Op == "lv" && c.addrTable(k, m, knowns)
					c.ob("asked", "the addresses sent are those announced by the peers connected", ok, q.pos, "they are %s", clip(m.String(), 300))
				case "ShouldRequestPeers":
					room(k, q)
					t := F(e, "TargetRuntimeId")
					ok := false
					for _, s := range knowns {
						x := t
						for x.Op == "elem" || isCall(x, "setlist") {
							x = x.Args[0]
						}
						ok = ok || x != t && x.Op == "lv" && lvKey(x) == lvKey(s)
					}
					c.ob("sought", "only a connected peer is asked for addresses", ok, q.pos, "asked is %s", t)
				case "ShouldAnnounceAddr":
					t := F(e, "TargetRuntimeId")
					st := k.startedIn()
					ok := len(st) == 1 && t == who(st[0])
					c.ob("announced", "our address is announced to the peer just started", ok, q.pos, "it goes to %s", t)
					ok = k.didMatch("topic.Topic.SubCh", func(a []*Term) bool { return a[0].Aux == "ShouldAnnounceAddr" })
					c.ob("announced", "the peer is subscribed before our address is announced", ok, q.pos, "%s", describeIf(!ok, q.facts))
					ok = k.has(F(mkField(factoryP, "params"), "Listen")) || k.has(r.in.load(k.st, mkField(mkField(factoryP, "params"), "Listen"), nil))
					c.ob("announced", "our address is announced only if we listen", ok, q.pos, "%s", describeIf(!ok, q.facts))
					a := F(e, "Addr")
					ok = a == r.in.load(k.st, mkField(mkField(factoryP, "params"), "LocalAddr"), nil)
					c.ob("announced", "what is announced is the address we listen at", ok, q.pos, "it is %s", a)
				}
			}
		}
	}
}

// lvKey names a loop variable in whatever round.
func lvKey(t *Term) string {
	if len(t.Args) > 1 {
		return t.Aux + " " + t.Args[1].String()
	}
	return t.Aux
}

// below: there are fewer in the set than the limit.
func below(k K, set, max *Term) bool {
	for _, size := range []*Term{mkLen(mk("call", "setlist", set)), mkLen(set), mkLen(mkKeys(set))} {
		if k.has(mkLt(size, max, false)) || k.has(mkLt(size, max, true)) {
			return true
		}
	}
	return false
}

// chosenOf: of a list made of the values of a map at those keys that meet some conditions, the map, any
// such key and the conditions.
func chosenOf(t *Term) (of, key *Term, conds []*Term) {
	if t.Op != "map" || len(t.Args) != 2 || t.Args[1].Op != "lookup" {
		return nil, nil, nil
	}
	of = t.Args[1].Args[0]
	e := t.Args[1].Args[1]
	if e.Op != "elem" || e.Args[0].Op != "filt" || e.Args[1] != binderVar(t) || mkLen(e.Args[0]) != t.Args[0] || e.Args[0].Args[0] != mkKeys(of) {
		return nil, nil, nil
	}
	return of, mkElem(mkKeys(of), binderVar(e.Args[0])), conjuncts(e.Args[0].Args[1])
}

func isListOf(l, x *Term) bool {
	e, ok := listElems(l)
	return ok && len(e) == 1 && e[0] == x
}

func isRecv2(t *Term, ch, field string) bool {
	return t.Op == "fld" && t.Aux == field && isRecv(t.Args[0], ch)
}

// addrTable: filled with what connected peers announced, and emptied of those that closed.
func (c *Ctx) addrTable(k K, m *Term, knowns map[string]*Term) bool {
	ats := k.lvRecs(m)
	for _, at := range ats {
		l := at.rec.lvs[at.j]
		for _, s := range l.steps {
			n := K{k.in, &State{s.facts, s.mem}}
			ann, closing := n.received(".PeerAnnouncedAddr.C"), n.received(".PeerClosing.C")
			x := s.next
			ok := x == l.lv
			switch {
			case closing != nil:
				id := F(closing, "PeerRuntimeId")
				ok = x.Op == "mapdel" && x.Args[0] == l.lv && x.Args[1] == id || ok && n.has(mkNot(mkHas(l.lv, id)))
			case ann != nil:
				id := F(ann, "PeerRuntimeId")
				in := false
				for f := range s.facts {
					in = in || f.Op == "in" && f.Args[0] == id && f.Args[1].Op == "lv" && knowns[lvKey(f.Args[1])] != nil
				}
				ok = ok || x.Op == "mapput" && x.Args[0] == l.lv && x.Args[1] == id && x.Args[2] == F(ann, "Addr") && in
			}
			if !c.ob("addresses", "the addresses kept are those of the peers connected", ok, 0, "they become %s%s", x, describeIf(!ok, s.facts)) {
				return false
			}
		}
	}
	return len(ats) > 0
}

// offered: every connection made is handed on or closed.
func (c *Ctx) offered() {
	loop := c.runFactory("Loop")
	if loop == nil {
		return
	}
	runs := []*runRes{loop}
	var add func(r *runRes)
	done := map[string]bool{}
	add = func(r *runRes) {
		for _, q := range r.in.sinks {
			if q.kind != "go" || q.name == "peer.Peer.Loop" {
				continue
			}
			var n *runRes
			if q.name == "func literal" {
				if done[q.args[0].Aux] {
					continue
				}
				done[q.args[0].Aux] = true
				n = c.runClosureOver(q.args[0], q.args[1:], &State{q.facts, q.mem}, c.factoryOver())
			} else if strings.HasPrefix(q.name, "peerfactory.") && !done[q.name] {
				done[q.name] = true
				if f := c.p.fn("internal/" + q.name); f != nil {
					n = c.runFn(f, runOpt{args: []*Term{factoryP}, over: c.factoryOver(), key: "factory", setup: c.lookInto("peer.Peer.Loop")})
				}
			}
			if n != nil {
				runs = append(runs, n)
				add(n)
			}
		}
	}
	add(loop)
	own := F(mkField(factoryP, "params"), "RuntimeId")
	for _, r := range runs {
		check := func(facts map[*Term]bool, where string) {
			k := K{r.in, &State{facts, map[*Term]*Term{}}}
			for f := range facts {
				if f.Op != "did" || f.Aux != "connection" {
					continue
				}
				conn := f.Args[0]
				ok := k.didMatch("send", func(a []*Term) bool { return strings.HasSuffix(a[0].String(), "newConns") && a[1] == conn })
				for _, n := range []string{"prot.Conn.CloseIfPossible", "prot.Conn.Close"} {
					ok = ok || k.didMatch(n, func(a []*Term) bool { return a[0] == conn })
				}
				c.ob("offered", where+": every connection made is handed on or closed", ok, r.fn.Pos(), "%s", describeIf(!ok, facts))
			}
		}
		for _, rec := range r.in.recs {
			for _, b := range rec.backs {
				check(b.facts, shortName(rec.fn))
			}
		}
		for _, o := range r.outs {
			if o.kind == "ret" {
				check(o.st.facts, shortName(r.fn))
			}
		}
		for _, q := range r.in.sinks {
			if q.name == "prot.NewConn" || q.name == "prot.ResolveConn" {
				initiator := q.name == "prot.ResolveConn"
				p := q.args[0]
				c.ob("role", q.name+": who initiated the connection", F(p, "WeAreInitiator") == mkBool(initiator), q.pos, "WeAreInitiator is %s", F(p, "WeAreInitiator"))
				c.ob("role", q.name+": our own id is given", F(p, "RuntimeID") == own, q.pos, "RuntimeID is %s", F(p, "RuntimeID"))
			}
		}
	}
}

func (c *Ctx) lastHead(k K, head *Term) bool {
	for _, at := range k.lvRecs(head) {
		l := at.rec.lvs[at.j]
		for _, s := range l.steps {
			n := K{k.in, &State{s.facts, s.mem}}
			ev := n.received(".ValidatedHead.C")
			if ev == nil && s.next != l.lv || ev != nil && s.next != F(ev, "Head") {
				return false
			}
		}
		if len(l.steps) == 0 {
			return false
		}
	}
	return head.Op == "lv" && len(k.lvRecs(head)) > 0
}

// unsubscribed lists the topics a component reads that nothing was subscribed to yet.
func (c *Ctx) unsubscribed(k K, pkg string) []string {
	want := map[string]bool{}
	for _, f := range c.p.funcs() {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.FieldAddr); ok && strings.HasPrefix(typeName(x.Type()), "SubCh") {
					want[c.p.fieldName(x.X.Type(), x.Field)] = true
				}
			}
		}
	}
	var out []string
	for n := range want {
		if !k.didMatch("topic.Topic.SubCh", func(a []*Term) bool { return a[0].Aux == n }) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// handshake: a connection that has not failed is to another node that speaks the same protocol and wants it too.
func (c *Ctx) handshake() {
	params, tc := mkSym("params"), mkSym("tcpConn")
	r := c.run("pkg/prot.NewConn", runOpt{args: []*Term{params, tc}, over: connOver(c.p), key: "handshake"})
	if r == nil {
		return
	}
	own := F(params, "RuntimeID")
	good := 0
	for _, o := range r.outs {
		if o.kind != "ret" {
			c.ob("handshake", "always gives a connection", false, o.pos, "it may end in a %s", o.kind)
			continue
		}
		conn := locOf(o.vals[0])
		e := r.in.load(o.st, mkField(conn, "err"), nil)
		k := r.k(o)
		if k.has(mkNot(mkEq(e, tNil))) {
			continue
		}
		ok := true
		st := o.st.clone()
		for x := e; ok && x.Op == "connerr"; x = x.Args[1] {
			ok = r.in.addFact(st, mkEq(x, tNil))
		}
		if !ok {
			continue
		}
		good++
		k = K{r.in, st}
		// no failure was forgotten: every operation's result is in what the connection holds, or was seen to be good
		seen := map[*Term]bool{}
		for x := e; x.Op == "connerr"; x = x.Args[1] {
			seen[x] = true
		}
		for f := range o.st.facts {
			if f.Op == "eq" && (f.Args[0] == tNil || f.Args[1] == tNil) {
				for _, x := range f.Args {
					for ; x.Op == "connerr"; x = x.Args[1] {
						seen[x] = true
					}
				}
			}
		}
		ops := 0
		for f := range o.st.facts {
			if f.Op == "did" && (strings.HasPrefix(f.Aux, "prot.Conn.Read") || strings.HasPrefix(f.Aux, "prot.Conn.Write")) {
				ops++
			}
		}
		c.ob("handshake", "a failure is never forgotten", len(seen) >= ops, o.pos, "%d of at least %d operations are known to have gone well or are kept", len(seen), ops)
		id := r.in.load(st, mkField(conn, "peerRuntimeId"), nil)
		c.ob("handshake", "the peer's id is one it sent", isConn(id, "ReadString"), o.pos, "it is %s", clip(id.String(), 200))
		ok = k.has(mkNot(mkEq(id, own)))
		c.ob("handshake", "a node never connects to itself", ok, o.pos, "%s", describeIf(!ok, st.facts))
		ok = false
		for f := range st.facts {
			ok = ok || f.Op == "eq" && (isConn(f.Args[0], "ReadString") && f.Args[0] != id && f.Args[1].Op == "str" && k.wrote(f.Args[1]) || isConn(f.Args[1], "ReadString") && f.Args[1] != id && f.Args[0].Op == "str" && k.wrote(f.Args[0]))
		}
		c.ob("handshake", "both sides agreed to the connection", ok, o.pos, "%s", describeIf(!ok, st.facts))
		// what is expected of the other is what is told it
		n := 0
		for _, d := range k.dids("prot.Conn.ReadStringExpected") {
			n++
			c.ob("handshake", "what is expected of the peer is sent to it too", k.wrote(d.args[1]), o.pos, "expected is %s", d.args[1])
		}
		c.ob("handshake", "the protocol and its version are compared", n >= 2, o.pos, "%d comparisons", n)
		c.ob("handshake", "our id is sent", k.wrote(own), o.pos, "sent is our id")
	}
	c.ob("handshake", "may succeed", good > 0, r.fn.Pos(), "%d ways", good)
	c.contract("handshake", "pkg/prot.ResolveConn", "gives a connection or an error", runOpt{over: map[string]primFn{"prot.NewConn": func(c *callCtx) []callRes {
		return c.ret(mk("nonnil", "conn"))
	}}, key: "resolve"}, func(r *runRes, k K, v []*Term) bool {
		return v[0].Op == "nonnil" && v[1] == tNil || v[0] == tNil && k.has(mkNot(mkEq(v[1], tNil)))
	})
}

// wrote: this string was certainly written.
func (k K) wrote(s *Term) bool {
	return k.didMatch("prot.Conn.WriteString", func(a []*Term) bool { return a[1] == s })
}

func init() {
	register("C19",
		"the loop of the peer factory and everything it runs in goroutines of its own is analysed over a model in which connections and addresses may be anything; at every place a peer is started the facts on its path are compared with what must hold, and the step of the loop from round to round gives what is kept of those connected; the handshake is analysed on every path",
		[]string{"the loop of the factory runs once", "runtime ids of different nodes differ"}, func(c *Ctx) {
			c.peersKept()
			c.offered()
			c.handshake()
			for r, n := range map[string]int{"once": 2, "limit": 1, "usable": 1, "head": 1, "subscribed": 1, "tracked": 3, "handled": 2, "addresses": 5, "asked": 2, "sought": 2, "announced": 4, "offered": 3, "role": 4, "handshake": 8} {
				c.atLeast(r, n)
			}
		})
}
