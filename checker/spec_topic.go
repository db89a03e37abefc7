package main

// Events published on the bus reach every subscriber, once and in order.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contractSyncQueue: a queue used by many: closed, it is empty and takes nothing.
func (c *Ctx) contractSyncQueue() {
	q, keys := mkSym("q"), mkSym("keys")
	l, closed := F(q, "q"), F(q, "closed")
	rule := "shared-queue"
	cont := func(k K) *Term {
		if v, ok := k.st.mem[mk("cont", "", l)]; ok {
			return v
		}
		return l
	}
	same := func(k K) bool { return cont(k) == l }
	opt := func(args ...*Term) runOpt { return runOpt{args: append([]*Term{q}, args...)} }
	quiet := func(s Sink) bool { return strings.HasPrefix(s.name, "sync.") || strings.HasPrefix(s.name, "queue.") }
	c.onlyEffects(rule, c.contract(rule, "pkg/syncqueue.SyncQueue.Push", "puts everything it is given at the end, unless closed", opt(keys),
		func(r *runRes, k K, v []*Term) bool {
			return k.has(closed) && same(k) || k.has(mkNot(closed)) && cont(k) == mkConcat(l, keys)
		}), quiet)
	took := func(name, prim string) {
		c.onlyEffects(rule, c.contract(rule, "pkg/syncqueue.SyncQueue."+name, "the first item, or none when it is empty or closed", runOpt{args: []*Term{q}, over: map[string]primFn{prim: opaqueP}, key: "took"},
			func(r *runRes, k K, v []*Term) bool {
				if k.has(closed) {
					return v[1] == tFalse && len(k.dids(prim)) == 0
				}
				res := func(i string, t *Term) bool {
					return t.Op == "res" && t.Aux == i && t.Args[0].Op == "call" && t.Args[0].Aux == prim && t.Args[0].Args[0] == l
				}
				return k.has(mkNot(closed)) && len(k.dids(prim)) == 1 && res("0", v[0]) && res("1", v[1]) && v[0].Args[0] == v[1].Args[0]
			}), func(s Sink) bool { return strings.HasPrefix(s.name, "sync.") || s.name == prim && s.args[0] == l })
	}
	took("Pop", "queue.Queue.Pop")
	took("Peek", "queue.Queue.Peek")
	c.onlyEffects(rule, c.contract(rule, "pkg/syncqueue.SyncQueue.Size", "how many items are in it, none when closed", opt(),
		func(r *runRes, k K, v []*Term) bool {
			return k.has(closed) && k.same(v[0], mkInt(0)) || k.has(mkNot(closed)) && k.same(v[0], mkLen(l))
		}), quiet)
	c.contract(rule, "pkg/syncqueue.SyncQueue.Close", "it is closed", opt(),
		func(r *runRes, k K, v []*Term) bool { return k.st.mem[closed] == tTrue })
	c.onlyEffects(rule, c.contract(rule, "pkg/syncqueue.SyncQueue.Closed", "whether it is closed", opt(),
		func(r *runRes, k K, v []*Term) bool { return k.iff(v[0], closed) }), quiet)
	c.contract(rule, "pkg/syncqueue.NewSyncQueue", "an open queue of what it is given", runOpt{args: []*Term{keys}},
		func(r *runRes, k K, v []*Term) bool {
			x := F(v[0], "closed")
			return (x == tZero || x == tFalse) && k.same(F(v[0], "q"), keys)
		})
	for _, w := range c.p.fieldWrites0("pkg/syncqueue.SyncQueue") {
		if w.field == "closed" || w.field == "q" || w.field == "*" {
			c.ob(rule, "SyncQueue."+w.field+" set in "+shortName(w.fn), shortName(w.fn) == "syncqueue.SyncQueue.Close" || c.onlyCalledBy(w.fn, "syncqueue.SyncQueue.Close"), w.pos, "only closing it replaces its content")
		}
	}
}

// fieldWrites0 is fieldWrites for generic types, whose bodies are seen once.
func (p *Prog) fieldWrites0(typ string) []fieldWrite {
	t := p.typ(typ)
	var out []fieldWrite
	for _, f := range p.funcs() {
		if f.Origin() != nil || t == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					if namedOf(st.Addr.Type()) == t.Obj() {
						if _, local := st.Addr.(*ssa.Alloc); !local {
							out = append(out, fieldWrite{f, "*", st.Pos(), st.Addr})
						}
					}
					continue
				}
				if namedOf(fa.X.Type()) != t.Obj() {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				out = append(out, fieldWrite{f, deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name(), st.Pos(), fa.X})
			}
		}
	}
	return out
}

// onlyCalledBy tells that a function runs only as part of the named ones.
func (c *Ctx) onlyCalledBy(f *ssa.Function, names ...string) bool {
	for _, n := range names {
		if shortName(f) == n && f.Parent() == nil {
			return true
		}
	}
	in := c.p.graph().in[f]
	for _, e := range in {
		if e.kind == "go" || e.kind == "value" || !c.onlyCalledBy(e.from, names...) {
			return false
		}
	}
	return len(in) > 0
}

func (c *Ctx) topics() {
	t, msgs := mkSym("t"), mkSym("msgs")
	subs, next := F(t, "subs"), F(t, "nextId")
	open := func(n string) runOpt {
		return runOpt{args: []*Term{t}, inline: []string{n}}
	}
	over := map[string]primFn{}
	for _, n := range []string{"syncqueue.SyncQueue.Push", "syncqueue.SyncQueue.Closed"} {
		over[n] = opaqueP
	}
	rule := "published"
	r := c.run("pkg/topic.Topic.Pub", runOpt{args: []*Term{t, msgs}, inline: []string{"topic.Topic.Pub"}, over: over, key: "pub"})
	c.onReturn(r, rule, "every subscription gets all messages, in order", func(k K) bool {
		return k.forall(mkLen(subs), func(k K, i *Term) bool {
			return k.didMatch("syncqueue.SyncQueue.Push", func(a []*Term) bool {
				return a[0] == mkLookup(subs, mkElem(mkKeys(subs), i)) && a[1] == msgs
			})
		})
	})
	c.each1(r, rule, "syncqueue.SyncQueue.Push", "each subscription gets the messages once", func(s Sink, k K) bool {
		return !k.didMatch("syncqueue.SyncQueue.Push", func(a []*Term) bool { return k.same(a[0], s.args[0]) }) && s.args[1] == msgs
	})
	c.onlyEffects(rule, r, func(s Sink) bool {
		return strings.HasPrefix(s.name, "sync.") || s.name == "syncqueue.SyncQueue.Push"
	})
	// a new subscription is a new queue, kept under a number never used before
	rule = "subscribed"
	r = c.contract(rule, "pkg/topic.Topic.Sub", "a new queue is kept for it, and returned", open("topic.Topic.Sub"),
		func(r *runRes, k K, v []*Term) bool {
			ok := k.didMatch("mapput", func(a []*Term) bool { return a[0] == subs && a[1] == next && k.same(a[2], v[0]) })
			return ok && k.same(k.st.mem[next], mkAddU(next, 1))
		})
	if r != nil {
		for _, o := range r.outs {
			if o.kind != "ret" {
				continue
			}
			v := o.vals[0]
			if w, ok := o.st.mem[v]; ok {
				v = w
			}
			c.ob(rule, "topic.Topic.Sub: the queue is its own", rootObj(v) != nil, o.pos, "returns %s", v)
		}
	}
	r = c.run("pkg/topic.NewTopic", runOpt{inline: []string{"topic.NewTopic"}})
	if r != nil {
		for _, o := range r.outs {
			if o.kind == "ret" {
				v := r.in.resolve(o.st, o.vals[0])
				c.ob(rule, "topic.NewTopic: it starts with no subscriptions", r.k(o).same(mkLen(F(v, "subs")), mkInt(0)), o.pos, "%s", v)
			}
		}
	}
	// nobody but these touches the subscriptions
	changes := 0
	for f, ws := range c.topicChanges() {
		for _, w := range ws {
			changes++
			switch {
			case c.onlyCalledBy(f, "topic.Topic.Sub"):
			case w == "delete":
				c.forgets(f)
			default:
				c.ob(rule, "subscriptions changed in "+shortName(f), false, f.Pos(), "%s", w)
			}
		}
	}
	c.ob(rule, "who changes the subscriptions", changes >= 3, token.NoPos, "%d places", changes)
	// the channel of a subscription
	rule = "delivered"
	r = c.run("pkg/topic.Topic.SubCh", runOpt{args: []*Term{t}, inline: []string{"topic.Topic.SubCh"}})
	var loop string
	if r != nil {
		n := 0
		for _, s := range r.in.sinks {
			if s.kind == "go" {
				n++
				loop = s.name
			}
		}
		c.onReturn(r, rule, "a new channel, of a new subscription, fed by a routine of its own", func(k K) bool {
			v := r.in.resolve(k.st, r.outs[0].vals[0])
			q := F(v, "subQueue")
			fed := k.didMatch("go:"+loop, func(a []*Term) bool { return len(a) > 0 && a[0] == v })
			return n == 1 && fed && q.Op == "call" && q.Aux == "topic.Topic.Sub" && q.Args[0] == t && F(v, "C").Op == "chan" && F(v, "close").Op == "chan" && F(v, "C") != F(v, "close")
		})
	}
	c.feeds(rule)
	c.closing(loop)
	c.everyTopic()
}

// closing: a channel is closed only when nothing is sent on it any more, which its routine is told and has confirmed.
func (c *Ctx) closing(loop string) {
	rule := "closed"
	s := mkSym("s")
	ch, quit := F(s, "C"), F(s, "close")
	r := c.run("pkg/topic.SubCh.Close", runOpt{args: []*Term{s}, inline: []string{"topic.SubCh.Close"}})
	if r == nil {
		return
	}
	// what tells that the routine was told: marks set by a routine after handing it over
	confirmed := func(k K) bool { return k.didMatch("send", func(a []*Term) bool { return a[0] == quit }) }
	marks := map[*Term]bool{}
	for _, g := range r.in.sinks {
		if g.kind != "go" || g.args[0].Op != "closure" {
			continue
		}
		over := map[string]primFn{}
		for _, n := range []string{"atomic.Bool.Store", "atomic.Int32.Store", "atomic.Int64.Store"} {
			n := n
			over[n] = func(cc *callCtx) []callRes {
				cc.in.sink(cc.ps.st, "call", n, []*Term{cc.args[0], cc.val(1)}, nil, cc.pos)
				return cc.ret(tNil)
			}
		}
		h := c.runClosureOver(g.args[0], nil, &State{facts: map[*Term]bool{}, mem: g.mem}, over)
		if h == nil {
			continue
		}
		early := map[*Term]bool{}
		for _, q := range h.in.sinks {
			var m *Term
			switch {
			case strings.HasPrefix(q.name, "atomic.") && strings.HasSuffix(q.name, ".Store") && len(q.args) == 2 && q.args[1] != tFalse && q.args[1] != mkInt(0):
				m = q.args[0]
			case q.kind == "close" || q.kind == "send":
				m = q.args[0]
			}
			if m != nil && m != quit {
				if confirmed(q.k(h.in)) {
					marks[m] = true
				} else {
					early[m] = true
				}
			}
		}
		for m := range early {
			delete(marks, m)
		}
	}
	n := 0
	for _, q := range r.in.sinks {
		if q.kind != "close" {
			continue
		}
		n++
		k := q.k(r.in)
		ok := confirmed(k)
		for f := range q.facts {
			if f.Op == "call" && strings.HasSuffix(f.Aux, ".Load") {
				for m := range marks {
					ok = ok || rootObj(m) != nil && occursIn(f, rootObj(m)) || occursIn(f, m)
				}
			}
			if f.Op == "did" && f.Aux == "recv" && marks[f.Args[0]] {
				ok = true
			}
		}
		c.ob(rule, "topic.SubCh.Close: the channel is closed only after its routine was told to stop", ok && q.args[0] == ch, q.pos, "%s%s", q.args[0], ifBad(ok, describeFacts(q.facts)))
	}
	c.ob(rule, "topic.SubCh.Close: closes the channel", n > 0, r.fn.Pos(), "%d", n)
	c.onReturn(r, rule, "its queue is closed", func(k K) bool {
		return k.didMatch("topic.Sub.Close", func(a []*Term) bool { return a[0] == F(s, "subQueue") }) && k.didMatch("close", func(a []*Term) bool { return a[0] == ch })
	})
	// while it waits for the routine to stop, it takes what the routine may be sending
	took := false
	for _, rec := range r.in.recs {
		for _, b := range rec.backs {
			k := K{r.in, &State{facts: b.facts, mem: b.mem}}
			took = took || k.received(".C") != nil || k.didMatch("recv", func(a []*Term) bool { return a[0] == ch })
		}
	}
	c.ob(rule, "topic.SubCh.Close: what is still being sent is taken meanwhile", took, r.fn.Pos(), "nobody takes what the routine is sending")
	// the routine sends nothing after that
	fn := c.p.fn("pkg/topic.SubCh.loop")
	for _, f := range c.p.locks().all {
		if shortName(f) == loop {
			fn = f
		}
	}
	if !c.need("the routine of a subscription", fn != nil) {
		return
	}
	lr := c.runFn(fn, runOpt{args: []*Term{s}})
	if lr == nil {
		return
	}
	told := func(k K) bool { return k.didMatch("recv", func(a []*Term) bool { return a[0] == quit }) }
	sends := 0
	for _, q := range lr.in.sinks {
		if (q.kind == "send" || q.kind == "select") && q.args[0] == ch {
			sends++
			c.ob(rule, loop+": nothing is sent after it was told to stop", !told(q.k(lr.in)), q.pos, "")
		}
	}
	c.ob(rule, loop+": sends", sends > 0, fn.Pos(), "%d", sends)
	c.onReturn(lr, rule, "it ends only when told to", told)
}

func mkAddU(t *Term, n int64) *Term { return mkAdd(t, mkInt(n)) }

// each1 requires cond at every call of a name.
func (c *Ctx) each1(r *runRes, rule, name, what string, cond func(s Sink, k K) bool) {
	if r == nil {
		return
	}
	n := 0
	for _, s := range r.in.sinks {
		if s.name == name {
			n++
			c.ob(rule, shortName(r.fn)+": "+what, cond(s, s.k(r.in)), s.pos, "%v", s.args)
		}
	}
	c.ob(rule, shortName(r.fn)+": "+what+" (instances)", n > 0, r.fn.Pos(), "%d", n)
}

// topicChanges lists the changes to the subscriptions of a topic, outside of building one.
func (c *Ctx) topicChanges() map[*ssa.Function][]string {
	out := map[*ssa.Function][]string{}
	l := c.p.locks()
	t := c.p.typ("pkg/topic.Topic")
	if !c.need("pkg/topic.Topic", t != nil) {
		return nil
	}
	s := t.Underlying().(*types.Struct)
	for _, f := range l.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != t.Obj() || isMutex(s.Field(fa.Field).Type()) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				l.uses(fa, func(i ssa.Instruction, write bool, what string) {
					if !write {
						return
					}
					if call, ok := i.(*ssa.Call); ok {
						if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
							what = "delete"
						}
					}
					out[f] = append(out[f], what)
				}, map[ssa.Value]bool{})
			}
		}
	}
	return out
}

// forgets: only closed subscriptions are forgotten.
func (c *Ctx) forgets(f *ssa.Function) {
	t := mkSym("t")
	args := []*Term{t}
	r := c.runFn(f, runOpt{args: args, inline: []string{shortName(f)}, over: map[string]primFn{"syncqueue.SyncQueue.Closed": pureP}, key: "gc"})
	if r == nil {
		return
	}
	subs := F(t, "subs")
	n := 0
	for _, s := range r.in.sinks {
		if s.kind != "mapdel" {
			continue
		}
		n++
		k := s.k(r.in)
		// of what is in the table at the time
		ok := s.args[0] == subs && (k.has(callTerm("syncqueue.SyncQueue.Closed", mkLookup(subs, s.args[1]))) || k.has(callTerm("syncqueue.SyncQueue.Closed", mkLookup(s.args[2], s.args[1]))))
		c.ob("subscribed", shortName(f)+": only closed subscriptions are forgotten", ok, s.pos, "%s%s", s.args[1], ifBad(ok, describeFacts(s.facts)))
	}
	c.ob("subscribed", shortName(f)+": forgets", n > 0, f.Pos(), "%d", n)
}

func (c *Ctx) everyTopic() {
	r := c.run("internal/bus.NewBus", runOpt{})
	t := c.p.typ("internal/bus.Bus")
	if r == nil || !c.need("internal/bus.Bus", t != nil) {
		return
	}
	s := t.Underlying().(*types.Struct)
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		v := r.in.resolve(o.st, o.vals[0])
		seen := map[*Term]string{}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			x := F(v, n)
			ok := x.Op == "call" && x.Aux == "topic.NewTopic"
			c.ob("topics", "bus.NewBus: "+n+" is a topic of its own", ok && seen[x] == "", o.pos, "%s %s", x, seen[x])
			seen[x] = n
		}
	}
	c.atLeast("topics", 15)
}

// pulled is a message taken from a subscription and not yet passed on.
type pulled struct {
	msg, ok map[ssa.Value]bool
}

type pulls map[ssa.Value]*pulled // by where it was taken

func (a pulls) clone() pulls {
	b := pulls{}
	for k, v := range a {
		n := &pulled{map[ssa.Value]bool{}, map[ssa.Value]bool{}}
		for x := range v.msg {
			n.msg[x] = true
		}
		for x := range v.ok {
			n.ok[x] = true
		}
		b[k] = n
	}
	return b
}

func (a pulls) key() string {
	s := ""
	var ks []string
	for k, v := range a {
		e := k.Name() + ":"
		for _, m := range []map[ssa.Value]bool{v.msg, v.ok} {
			var ns []string
			for x := range m {
				ns = append(ns, x.Name())
			}
			e += strings.Join(sorted(ns), ",") + ";"
		}
		ks = append(ks, e)
	}
	for _, k := range sorted(ks) {
		s += k
	}
	return s
}

// feeds: whatever is taken from the queue of a subscription is sent on its channel, once, before anything
// else is taken. A typestate analysis over the functions that take from such queues.
func (c *Ctx) feeds(rule string) {
	t := c.p.typ("pkg/topic.SubCh")
	if !c.need("pkg/topic.SubCh", t != nil) {
		return
	}
	f := &feeder{c: c, rule: rule, t: t.Obj(), give: map[string]int{}, takes: map[*ssa.Function]int{}}
	n := 0
	for _, fn := range c.p.locks().all {
		if f.takesIn(fn) && f.gives(fn) < 0 {
			n++
			f.check(fn, nil)
			// it is what the subscription's own routine runs
			c.ob(rule, shortName(fn)+": only a subscription's own routine takes from its queue", f.ownRoutine(fn, map[*ssa.Function]bool{}), fn.Pos(), "reached in other ways than by the routine started when the channel is made")
		}
	}
	c.ob(rule, "takers of subscriptions", n > 0, token.NoPos, "%d functions", n)
}

type feeder struct {
	c     *Ctx
	rule  string
	t     *types.TypeName
	give  map[string]int
	takes map[*ssa.Function]int
}

// ownRoutine: reached only through the routine that Topic.SubCh starts.
func (f *feeder) ownRoutine(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	in := f.c.p.graph().in[fn]
	for _, e := range in {
		if e.kind == "go" {
			if shortName(e.from) != "topic.Topic.SubCh" && !f.c.onlyCalledBy(e.from, "topic.Topic.SubCh") {
				return false
			}
			continue
		}
		if e.kind != "call" && e.kind != "closure" || !f.ownRoutine(e.from, seen) {
			return false
		}
	}
	return len(in) > 0
}

// fieldOf tells which field of a subscription channel a value was read from.
func (f *feeder) fieldOf(v ssa.Value) string {
	v = origin(v)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || namedOf(fa.X.Type()) != f.t {
		return ""
	}
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

// isTake recognises taking from the queue: directly, or by a helper that returns what it took.
func (f *feeder) isTake(in ssa.Instruction) bool {
	x, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	name, recv := "", ssa.Value(nil)
	if x.Call.IsInvoke() {
		name, recv = x.Call.Method.Name(), x.Call.Value
	} else if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		name, recv = g.Name(), x.Call.Args[0]
	} else {
		return false
	}
	if name == "Pop" && f.fieldOf(recv) != "" {
		return true
	}
	g := f.c.p.locks().callee(&x.Call)
	return g != nil && f.gives(g) >= 0
}

func (f *feeder) takesIn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if f.isTake(in) {
				return true
			}
		}
	}
	return false
}

// gives tells whether a function takes a message and hands it to its caller: every return is (message, ok) as taken.
func (f *feeder) gives(fn *ssa.Function) int {
	if v, ok := f.takes[fn]; ok {
		return v
	}
	f.takes[fn] = -1
	res := -1
	if fn.Signature.Results().Len() == 2 {
		good, n := true, 0
		var call ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if f.isTake(in) {
					n++
					call = in.(*ssa.Call)
				}
				if r, ok := in.(*ssa.Return); ok {
					for i, v := range r.Results {
						e, ok := v.(*ssa.Extract)
						if !ok || e.Tuple != call || e.Index != i {
							good = false
						}
					}
				}
			}
		}
		if good && n == 1 {
			res = 0
		}
	}
	f.takes[fn] = res
	return res
}

// passesOn tells whether a function sends one of its arguments, once, whatever happens.
func (f *feeder) passesOn(fn *ssa.Function, i int) bool {
	key := fmt.Sprintf("%p %d", fn, i)
	if v, ok := f.give[key]; ok {
		return v == 1
	}
	f.give[key] = 0
	if f.check(fn, fn.Params[i]) {
		f.give[key] = 1
	}
	return f.give[key] == 1
}

// check follows what a function takes, and an argument it must pass on.
func (f *feeder) check(fn *ssa.Function, arg *ssa.Parameter) bool {
	start := pulls{}
	if arg != nil {
		start[arg] = &pulled{map[ssa.Value]bool{arg: true}, map[ssa.Value]bool{}}
	}
	in := map[*ssa.BasicBlock]pulls{fn.Blocks[0]: start}
	todo := []*ssa.BasicBlock{fn.Blocks[0]}
	good := true
	said := map[string]bool{}
	say := func(i ssa.Instruction, what string, ok bool) {
		good = good && ok
		if key := what + fmt.Sprint(ok) + f.c.p.pos(i.Pos()); arg == nil && !said[key] {
			said[key] = true
			f.c.ob(f.rule, shortName(fn)+": "+what, ok, i.Pos(), "in %s", shortName(fn))
		}
	}
	sent := func(st pulls, v ssa.Value) bool {
		found := false
		for k, p := range st {
			if p.msg[v] || p.msg[origin(v)] {
				delete(st, k)
				found = true
			}
		}
		return found
	}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		st := in[b].clone()
		for _, i := range b.Instrs {
			if f.isTake(i) {
				say(i, "what was taken is sent before anything else is taken", len(st) == 0)
				p := &pulled{map[ssa.Value]bool{}, map[ssa.Value]bool{}}
				for _, r := range *i.(*ssa.Call).Referrers() {
					if e, ok := r.(*ssa.Extract); ok {
						if e.Index == 0 {
							p.msg[e] = true
						} else {
							p.ok[e] = true
						}
					}
				}
				st[i.(*ssa.Call)] = p
				continue
			}
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && f.fieldOf(x.X) != "" {
					st = pulls{} // told to stop
				}
			case *ssa.Send:
				if f.fieldOf(x.Chan) != "" {
					say(i, "only what was just taken is sent", sent(st, x.X))
				}
			case *ssa.Call:
				g := f.c.p.locks().callee(&x.Call)
				if g == nil || f.c.p.locks().fns[g] == nil {
					continue
				}
				for j, a := range x.Call.Args {
					for _, p := range st {
						if p.msg[a] && f.passesOn(g, j) {
							sent(st, a)
						}
					}
				}
				if f.takesIn(g) && f.gives(g) < 0 {
					say(i, "what was taken is sent before anything else is taken", len(st) == 0)
				}
			case *ssa.Return:
				say(i, "nothing taken is left unsent when it ends", len(st) == 0)
			}
		}
		for si, s := range b.Succs {
			out := st.clone()
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				cond, yes := br.Cond, si == 0
				for {
					if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, yes = u.X, !yes
						continue
					}
					break
				}
				for k, p := range out {
					if p.ok[cond] && !yes {
						delete(out, k)
					}
				}
				f.chosen(cond, yes, out, sent)
			}
			pi := 0
			for j, p := range s.Preds {
				if p == b {
					pi = j
				}
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for _, p := range out {
					for _, m := range []map[ssa.Value]bool{p.msg, p.ok} {
						if m[ph.Edges[pi]] {
							m[ph] = true
						} else {
							delete(m, ph)
						}
					}
				}
			}
			old, ok := in[s]
			if ok {
				// what may be held on either way
				m := old.clone()
				for k, p := range out {
					if q := m[k]; q != nil {
						for x := range q.msg {
							if !p.msg[x] {
								delete(q.msg, x)
							}
						}
						for x := range q.ok {
							if !p.ok[x] {
								delete(q.ok, x)
							}
						}
					} else {
						m[k] = p
					}
				}
				out = m
			}
			if !ok || out.key() != old.key() {
				in[s] = out
				todo = append(todo, s)
			}
		}
	}
	return good
}

// chosen: the way taken after a select in which sending was one of the choices.
func (f *feeder) chosen(cond ssa.Value, yes bool, st pulls, sent func(st pulls, v ssa.Value) bool) {
	eq, ok := cond.(*ssa.BinOp)
	if !ok || eq.Op != token.EQL || !yes {
		return
	}
	e, ok := eq.X.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return
	}
	sel, ok := e.Tuple.(*ssa.Select)
	k, ok2 := eq.Y.(*ssa.Const)
	if !ok || !ok2 {
		return
	}
	i := int(k.Int64())
	if i >= 0 && i < len(sel.States) && sel.States[i].Send == nil && f.fieldOf(sel.States[i].Chan) != "" {
		for k := range st {
			delete(st, k) // told to stop
		}
	}
	if i >= 0 && i < len(sel.States) && sel.States[i].Send != nil && f.fieldOf(sel.States[i].Chan) != "" {
		sent(st, sel.States[i].Send)
	}
}

func sorted(a []string) []string {
	sort.Strings(a)
	return a
}

func init() {
	register("C23",
		"the bodies of the queue, the shared queue, the topic and its subscription channels are each compared with what they must do: publishing puts every message, in order, into the queue of every subscription, once; a subscription has a queue of its own, is forgotten only once closed and nobody else touches the table; a typestate analysis of what is taken from such a queue shows that it is sent on, once, before anything else is taken, by the one routine started for it; the channel is closed only after that routine was told; every access happens with the struct's lock held",
		[]string{"sync, sync/atomic and channels behave as documented"}, func(c *Ctx) {
			c.contractQueue()
			c.contractSyncQueue()
			c.topics()
			c.guarded("locked", "syncqueue.SyncQueue", "topic.Topic")
		})
}
