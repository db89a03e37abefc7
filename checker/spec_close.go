package main

// What is left behind when a routine of the node ends: nothing. However it ends, the failure stays inside it.

import (
	"go/types"
	"strings"
)

// a routine started for each of something, with how it is analysed and what it must leave.
type routine struct {
	name  string
	self  *Term
	opt   runOpt
	new   string
	final func(r *runRes, k K, ob func(what string, ok bool, d string))
}

func (c *Ctx) routines() []routine {
	conn := mkField(peerP, "conn")
	who := callTerm("prot.Conn.PeerRuntimeId", conn)
	m := mkSym("m")
	// announcing that it closed leaves a mark
	over := connOver(c.p)
	pub := prims["topic.Topic.Pub"]
	over["topic.Topic.Pub"] = func(cc *callCtx) []callRes {
		out := pub(cc)
		if t := cc.val(0); t.Op == "fld" && t.Aux == "PeerClosing" {
			for _, r := range out {
				r.ps.st.mem[saidP] = tTrue
			}
		}
		return out
	}
	return []routine{
		{"internal/peer.Peer.Loop", peerP,
			runOpt{args: []*Term{peerP}, opaque: []string{"topic.SubCh.Close"}, over: over, key: "closing", states: 32},
			"internal/peer.NewPeer",
			func(r *runRes, k K, ob func(what string, ok bool, d string)) {
				ok := false
				for _, n := range []string{"prot.Conn.Close", "prot.Conn.CloseIfPossible"} {
					ok = ok || k.didMatch(n, func(a []*Term) bool { return a[0] == conn })
				}
				ob("its connection is closed", ok, "")
				said := 0
				for _, d := range k.dids("topic.Topic.Pub") {
					if d.args[0].Aux == "PeerClosing" && isListOfField(d.args[1], "PeerRuntimeId", who) {
						said++
					}
				}
				ob("it is announced once, by its id, that it closed", said == 1, "it was announced in other ways")
			}},
		{"internal/miner.Miner.Loop", m,
			runOpt{args: []*Term{m}, opaque: []string{"topic.SubCh.Close"}, over: map[string]primFn{}, key: "closing", states: 32},
			"internal/miner.NewMiner", nil},
	}
}

func isListOfField(l *Term, f string, x *Term) bool {
	e, ok := listElems(l)
	return ok && len(e) == 1 && F(e[0], f) == x
}

// leaves: however the routine ends, what it held is given back, and it takes nothing else down with it.
func (c *Ctx) leaves(q routine) {
	r := c.run(q.name, q.opt)
	if r == nil {
		return
	}
	// what it subscribes to
	made := map[string]bool{}
	if n := c.p.fn(q.new); c.need(q.new, n != nil) {
		st := n.Signature.Results().At(0).Type()
		for path := range c.subscriptionsOf(st, "", map[types.Type]bool{}) {
			made[path] = true
		}
	}
	c.ob("subscriptions", q.name+": what it is subscribed to", len(made) > 0, r.fn.Pos(), "%v", sortedNames(made))
	ends := 0
	for _, o := range r.outs {
		k := r.k(o)
		if o.kind == "panic" {
			c.ob("contained", q.name+": a panic does not leave it", false, o.pos, "%s", describeIf(true, o.st.facts))
			continue
		}
		ends++
		ob := func(what string, ok bool, d string) {
			c.ob("released", q.name+": when it ends, "+what, ok, o.pos, "%s", ifBad(ok, d+describeFacts(o.st.facts)))
		}
		for _, s := range sortedNames(made) {
			loc := q.self
			for _, f := range strings.Split(s, ".") {
				loc = mkField(loc, f)
			}
			n := 0
			for _, d := range k.dids("topic.SubCh.Close") {
				if d.args[0] == loc {
					n++
				}
			}
			ob("its subscription "+s+" is closed, once", n == 1, "closed in another way")
		}
		if q.final != nil {
			q.final(r, k, ob)
		}
	}
	c.ob("released", q.name+": ends", ends > 0, r.fn.Pos(), "%d ways", ends)
	for _, s := range r.in.sinks {
		if s.name == "topic.Topic.Pub" && s.args[0].Aux == "PeerClosing" {
			c.ob("released", q.name+": that it closed is announced once", s.mem[saidP] == nil, s.pos, "it may have been announced already")
		}
	}
	// whatever it calls, it is guarded by then
	for _, s := range r.in.sinks {
		if strings.HasPrefix(s.name, "prot.Conn.") || strings.HasPrefix(s.name, "inv.") || s.kind == "panic" || s.kind == "recv" {
			ok := s.mem[guardP] != nil && s.mem[guardP] != tNil || s.mem[mkSym("recovering")] == tTrue
			c.ob("contained", q.name+": "+s.name+" is guarded against panics", ok, s.pos, "at %v", s.stack)
		}
	}
}

var saidP = mkSym("<announced>")

var guardP = mkSym("guarded")

// subscriptionsOf lists the fields, at any depth, that hold a subscription.
func (c *Ctx) subscriptionsOf(t types.Type, path string, seen map[types.Type]bool) map[string]types.Type {
	out := map[string]types.Type{}
	t = deref(t)
	n, ok := t.(*types.Named)
	if !ok || seen[t] {
		return out
	}
	seen[t] = true
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := f.Name()
		if path != "" {
			p = path + "." + p
		}
		if typeName(f.Type()) == "SubCh" {
			out[p] = f.Type()
			continue
		}
		if m, ok := deref(f.Type()).(*types.Named); ok && m.Obj().Pkg() == n.Obj().Pkg() {
			for q, t := range c.subscriptionsOf(m, p, seen) {
				out[q] = t
			}
		}
	}
	return out
}

func init() {
	register("C27",
		"the loops of peers and miners are analysed with everything they call and all deferred functions, including those run while panicking; at every end the subscriptions found in the type's fields, the connection and the announcement are compared with what was released, and every place that can panic is checked to have a recovering defer in force",
		[]string{"closing a subscription or a connection does not itself panic", "the loops of the chain, the peer factory and the HTTP server are meant to end with the process"}, func(c *Ctx) {
			for _, q := range c.routines() {
				c.leaves(q)
			}
			c.atLeast("subscriptions", 2)
			c.atLeast("released", 10)
			c.atLeast("contained", 15)
		})
}
