package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the HTTP interface: what is mounted where, behind which checks, and what it answers ----

// route is one method of one endpoint, as mounted by the server.
type route struct {
	path, method string
	reg          K       // what holds where it is mounted
	front        *runRes // the function mounted on the endpoint
	disp         Sink    // the call of the handler inside it
	handler      *runRes
	fn           *Term
}

var respW, respR = mkSym("w"), mkSym("r")

// runClosure analyses a function value in the state it was made in.
func (c *Ctx) runClosure(f *Term, args []*Term, st *State) *runRes {
	return c.runClosureOver(f, args, st, nil)
}

func (c *Ctx) runClosureOver(f *Term, args []*Term, st *State, over map[string]primFn) *runRes {
	return c.runClosureIn(f, args, st, over, nil)
}

func (c *Ctx) runClosureIn(f *Term, args []*Term, st *State, over map[string]primFn, inline []string) *runRes {
	fn := closureFn[f.Aux]
	if fn == nil {
		return nil
	}
	in := newInterp(c.p)
	in.maxState = 384
	for _, n := range inline {
		in.doInline[n] = true
	}
	in.over = over
	s := st.clone()
	bind := f.Args
	if fn.Synthetic != "" && fn.Object() != nil && strings.HasPrefix(fn.Synthetic, "bound method") {
		if m := c.p.boundTarget(fn); m != nil {
			fn, args, bind = m, append(append([]*Term(nil), bind...), args...), nil
		}
	}
	outs := in.exec(fn, args, bind, s, "h")
	c.stats["contexts"] += in.execs
	c.stats["instructions"] += in.steps
	c.stats["calls_and_effects"] += len(in.sinks)
	c.roots[shortName(fn)] = true
	return &runRes{in, outs, fn, args, Outcome{}}
}

func str(t *Term) (string, bool) {
	if t == nil || t.Op != "str" {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}

// closuresIn lists the function values a table holds, by key.
func closuresIn(t *Term) map[string]*Term {
	out := map[string]*Term{}
	for t != nil && t.Op == "mapput" {
		if k, ok := str(t.Args[1]); ok && out[k] == nil {
			out[k] = t.Args[2]
		}
		t = t.Args[0]
	}
	return out
}

// tableKey finds the key of a literal table that a term is made from.
func tableKey(t *Term) *Term {
	var e *Term
	anyTerm(t, func(x *Term) bool {
		if x.Op == "elem" && x.Args[0].Op == "keys" && len(closuresIn(x.Args[0].Args[0])) > 0 {
			e = x
		}
		return e != nil
	})
	return e
}

func (c *Ctx) routes() []route {
	s := mkSym("s")
	r := c.run("internal/rest.Server.Start", runOpt{args: []*Term{s}})
	if r == nil {
		return nil
	}
	var out []route
	seen := map[string]bool{}
	mount := func(q Sink, path, h *Term) {
		p, ok := str(path)
		if !ok || h.Op != "closure" && h.Op != "func" {
			c.ob("routes", strings.Join(q.stack, " > ")+": what is mounted is known", false, q.pos, "mounts %s on %s", clip(h.String(), 100), clip(path.String(), 100))
			return
		}
		key := fmt.Sprint(p, h.ID, describeFacts(q.facts))
		if seen[key] {
			return
		}
		seen[key] = true
		front := c.runClosure(h, []*Term{respW, respR}, &State{q.facts, q.mem})
		if front == nil {
			c.ob("routes", p+": the function mounted there is analysed", false, q.pos, "%s", h)
			return
		}
		n := 0
		for _, d := range front.in.sinks {
			if d.name != "dyn" {
				continue
			}
			if d.args[0].Op != "lookup" || len(closuresIn(d.args[0].Args[0])) == 0 {
				c.ob("routes", p+": the handler called is one of a table", false, d.pos, "calls %s", clip(d.args[0].String(), 200))
				continue
			}
			k := d.k(front.in)
			c.ob("routes", p+": the handler called is the one for the method", k.same(d.args[0].Args[1], F(respR, "Method")), d.pos, "calls the handler for %s", clip(d.args[0].Args[1].String(), 200))
			for m, f := range closuresIn(d.args[0].Args[0]) {
				k, ok := k.with(mkEq(F(respR, "Method"), mkStr(m)))
				if !ok {
					continue
				}
				hr := c.runClosure(f, d.args[1:], k.st)
				if hr == nil {
					c.ob("routes", m+" "+p+": the handler is analysed", false, d.pos, "%s", f)
					continue
				}
				n++
				out = append(out, route{p, m, q.k(r.in), front, d, hr, f})
			}
		}
		if n == 0 {
			out = append(out, route{path: p, reg: q.k(r.in), front: front, handler: front, fn: h})
		}
	}
	for _, q := range r.in.sinks {
		var path, h *Term
		switch q.name {
		case "http.HandleFunc", "http.Handle":
			path, h = q.args[0], q.args[1]
		case "http.ServeMux.HandleFunc", "http.ServeMux.Handle":
			path, h = q.args[1], q.args[2]
		default:
			continue
		}
		if e := tableKey(path); e != nil {
			// mounted for each entry of a literal table
			for m := range closuresIn(e.Args[0].Args[0]) {
				st := &State{map[*Term]bool{}, map[*Term]*Term{}}
				for f := range q.facts {
					st.facts[subst(f, e, mkStr(m))] = true
				}
				for l, v := range q.mem {
					st.mem[l] = subst(v, e, mkStr(m))
				}
				x := q
				x.facts, x.mem = st.facts, st.mem
				mount(x, subst(path, e, mkStr(m)), h)
			}
			continue
		}
		mount(q, path, h)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		return a.path+" "+a.method < b.path+" "+b.method
	})
	return out
}

func (r route) name() string { return strings.TrimSpace(r.method + " " + r.path) }

// writeKind tells what a call does to the response: nothing (""), set its status, write its body,
// or both.
func writeKind(name string, args []*Term, w *Term) string {
	at := func(i int) bool { return i < len(args) && args[i] == w }
	switch name {
	case "http.ResponseWriter.WriteHeader":
		if at(0) {
			return "header"
		}
	case "http.ResponseWriter.Write", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.Copy":
		if at(0) {
			return "body"
		}
	case "json.Encoder.Encode":
		if len(args) > 0 && occursIn(args[0], w) {
			return "body"
		}
	case "http.Error", "http.NotFound", "http.Redirect":
		if at(0) {
			return "all"
		}
	case "dyn":
		for i := range args {
			if at(i) {
				return "all"
			}
		}
	}
	return ""
}

type respWrite struct {
	kind string
	args []*Term
}

// written lists what certainly or possibly (on one of several merged paths) was written before.
func (k K) written(w *Term) []respWrite {
	var out []respWrite
	seen := map[*Term]bool{}
	var rec func(f *Term)
	rec = func(f *Term) {
		switch f.Op {
		case "did":
			if n := writeKind(f.Aux, f.Args, w); n != "" && !seen[f] {
				seen[f] = true
				out = append(out, respWrite{n, f.Args})
			}
		case "alts":
			for _, a := range f.Args {
				for _, g := range conjuncts(a) {
					rec(g)
				}
			}
		}
	}
	for f := range k.st.facts {
		rec(f)
	}
	return out
}

// oneResponse: on every path through a handler the response is written exactly once.
func (c *Ctx) oneResponse(where string, r *runRes) {
	any := false
	for _, q := range r.in.sinks {
		n := writeKind(q.name, q.args, respW)
		if n == "" {
			continue
		}
		any = true
		bad := ""
		for _, b := range q.k(r.in).written(respW) {
			if n != "body" || b.kind != "header" {
				bad = b.kind
			}
		}
		c.ob("one-response", where+": "+q.name+" in "+q.stack[len(q.stack)-1]+" is the only response", bad == "", q.pos, "already written before: %s", bad)
	}
	for _, l := range r.in.recs {
		for _, b := range l.backs {
			ws := K{r.in, b}.written(respW)
			c.ob("one-response", where+": the loop in "+shortName(l.fn)+" does not go on after answering", len(ws) == 0, l.fn.Pos(), "goes round again after writing the response")
		}
	}
	for _, o := range r.outs {
		k := r.k(o)
		if o.kind != "ret" {
			c.ob("one-response", where+": does not end without answering", false, o.pos, "panics: %s", describeFacts(o.st.facts))
			continue
		}
		nb, nh := 0, 0
		var status *Term
		for _, b := range k.written(respW) {
			switch b.kind {
			case "header":
				nh++
				status = b.args[1]
			case "body":
				nb++
			case "all":
				nb, nh = nb+1, nh+1
				if len(b.args) > 2 {
					status = b.args[2]
				}
			}
		}
		c.ob("one-response", where+": every path answers once", !any || nb+nh > 0 && nb < 2 && nh < 2, o.pos, "a path writes %d bodies and %d statuses%s", nb, nh, describeIf(true, o.st.facts))
		// the status tells whether the request was carried out
		var failed *Term
		accepted := false
		for f := range o.st.facts {
			if f.Op == "not" && f.Args[0].Op == "eq" {
				for i, a := range f.Args[0].Args {
					if a == tNil {
						switch x := f.Args[0].Args[1-i]; x.Op {
						case "call", "res", "recv":
							failed = x
						}
					}
				}
			}
			if f.Op == "eq" && (f.Args[0] == tNil && f.Args[1].Op == "recv" || f.Args[1] == tNil && f.Args[0].Op == "recv") {
				accepted = true
			}
		}
		if nh == 0 && any {
			for f := range o.st.facts {
				var e *Term
				if f.Op == "did" && f.Aux == "recv" {
					e = mk("recv", "", f.Args[0])
				}
				if f.Op == "did" && f.Aux == "json.Unmarshal" {
					e = callTerm("json.Unmarshal", f.Args...)
				}
				if e == nil || f.Aux == "recv" && !k.didMatch("topic.Topic.Pub", func(a []*Term) bool { return strings.HasSuffix(a[0].String(), ".CandidateTx") }) {
					continue
				}
				c.ob("status", where+": success is answered only when the outcome was looked at", k.has(mkEq(e, tNil)), o.pos, "answers success without %s being nil", clip(e.String(), 200))
			}
			c.ob("status", where+": success is answered only when nothing failed", failed == nil, o.pos, "answers success although %s is an error", failed)
		}
		if status != nil {
			if n, ok := isInt(status); ok && n >= 400 {
				c.ob("status", where+": failure is not answered for a submission that was accepted", !accepted, o.pos, "answers %d", n)
			}
		}
	}
}

// answeredOnce: each question and submission taken by a routine is answered exactly once.
func (c *Ctx) answeredOnce() {
	r, _ := c.runLoop()
	if r == nil {
		return
	}
	asks := map[string]bool{}
	if t := c.p.typ("internal/bus.Bus"); c.need("bus.Bus", t != nil) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			pt, ok := st.Field(i).Type().(*types.Pointer)
			if !ok {
				continue
			}
			nt, ok := pt.Elem().(*types.Named)
			if !ok || nt.TypeArgs().Len() != 1 {
				continue
			}
			if ms, ok := nt.TypeArgs().At(0).Underlying().(*types.Struct); ok {
				for j := 0; j < ms.NumFields(); j++ {
					if _, ok := ms.Field(j).Type().Underlying().(*types.Chan); ok {
						asks[st.Field(i).Name()] = true
					}
				}
			}
		}
	}
	c.ob("coverage", "kinds of question with a reply channel", len(asks) >= 7, r.fn.Pos(), "found %d", len(asks))
	var names []string
	for a := range asks {
		names = append(names, a)
	}
	sort.Strings(names)
	isAnswer := func(f *Term, ret *Term) bool {
		return f.Op == "did" && (f.Aux == "reply" || f.Aux == "send") && f.Args[0] == ret
	}
	for _, a := range names {
		taken := mk("did", "recv", F(mkSym("c"), "subs", a, "C"))
		ret := F(chainEvent(a), "Ret")
		n := 0
		check := func(k K, where string, pos token.Pos) {
			if !k.has(taken) {
				return
			}
			n++
			cnt := 0
			for f := range k.st.facts {
				if isAnswer(f, ret) {
					cnt++
				}
			}
			ok := cnt == 1 || cnt == 0 && (k.has(mkEq(ret, tNil)) || k.didMatch("reply", func(x []*Term) bool { return x[0] == ret }))
			c.ob("answered-once", shortName(r.fn)+": "+a+" is answered once "+where, ok, pos, "answered %d times%s", cnt, describeIf(!ok, k.st.facts))
		}
		for _, l := range r.in.recs {
			if l.depth > 1 {
				continue
			}
			for _, b := range l.backs {
				check(K{r.in, b}, "before the next event is taken", l.fn.Pos())
			}
		}
		for _, o := range r.outs {
			check(r.k(o), "before the routine ends", o.pos)
		}
		c.ob("answered-once", shortName(r.fn)+": "+a+" is taken", n > 0, r.fn.Pos(), "no path was found that takes it")
	}
	base := map[*Term]int{}
	for _, q := range r.in.sinks {
		if q.kind == "recv" {
			base[q.args[0]] = len(q.loops)
		}
	}
	for _, q := range r.in.sinks {
		if q.kind != "reply" && q.kind != "send" || len(q.args) < 2 {
			continue
		}
		m := recvOf(q.args[0])
		if m == nil {
			continue
		}
		k := q.k(r.in)
		twice := false
		for f := range k.st.facts {
			if isAnswer(f, q.args[0]) {
				twice = true
			}
		}
		name := m.Args[0].Args[0].Aux
		where := strings.Join(q.stack, " > ") + ": " + name
		c.ob("answered-once", where+" is not answered again", !twice, q.pos, "already answered")
		c.ob("answered-once", where+" is not answered in a loop", len(q.loops) <= base[m.Args[0]], q.pos, "answered once per round of a loop")
		if name != "CandidateTx" {
			continue
		}
		tx := F(m, "Tx")
		stored := k.didMatch("inv.Inv.StoreTx", func(a []*Term) bool { return a[0] == tx })
		okStored := false
		for f := range k.st.facts {
			if f.Op == "eq" {
				for i := range f.Args {
					if isCall(f.Args[i], "inv.Inv.StoreTx") && f.Args[1-i] == tNil {
						okStored = true
					}
				}
			}
		}
		if q.args[1] == tNil {
			known := k.has(inv("HasTx", callTerm("core.Tx.Hash", tx)))
			c.ob("verdict", where+" is answered with success only if it was stored now or before", known || stored && okStored, q.pos, "%s", describeIf(true, q.facts))
		} else {
			c.ob("verdict", where+" is not answered with failure after being stored", !(stored && okStored), q.pos, "answers %s", clip(q.args[1].String(), 200))
		}
	}
	c.atLeast("verdict", 3)
	// one routine answers each kind of question
	subs := map[string][]*ssa.Function{}
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				if n := shortName(ci.Common().StaticCallee()); n != "topic.Topic.SubCh" && n != "topic.Topic.Sub" {
					continue
				}
				if f.Pkg != nil && f.Pkg.Pkg.Name() == "topic" || f.Origin() != nil {
					continue
				}
				u, ok := ci.Common().Args[0].(*ssa.UnOp)
				if ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						n := c.p.fieldName(deref(fa.X.Type()), fa.Field)
						subs[n] = append(subs[n], f)
						continue
					}
				}
				c.ob("one-answerer", "the topic subscribed to in "+shortName(f)+" is known", false, in.Pos(), "subscribes to an unknown topic")
			}
		}
	}
	for _, a := range names {
		var fs []string
		for _, f := range subs[a] {
			fs = append(fs, shortName(f))
		}
		c.ob("one-answerer", a+" is subscribed to once", len(fs) == 1, token.NoPos, "subscribed to in %v", fs)
	}
}

// askers: who asks waits for the answer on the channel it sent, and asks once.
func (c *Ctx) askers() {
	n := 0
	for _, f := range c.p.funcs() {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "rest" || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Recv() == nil {
			continue
		}
		if !strings.HasPrefix(shortName(f), "rest.BusClient.") {
			continue
		}
		r := c.runFn(f, runOpt{})
		for _, o := range r.outs {
			if o.kind != "ret" || len(o.vals) == 0 {
				continue
			}
			n++
			k := r.k(o)
			v := r.in.resolve(o.st, o.vals[0])
			ok := false
			if v.Op == "recv" {
				cnt := 0
				for f := range k.st.facts {
					if f.Op == "did" && f.Aux == "topic.Topic.Pub" && len(f.Args) == 2 {
						if l, isl := listElems(f.Args[1]); isl && len(l) == 1 && F(l[0], "Ret") == v.Args[0] {
							cnt++
						}
					}
				}
				ok = cnt == 1 && v.Args[0].Op == "chan"
			}
			c.ob("asker", shortName(f)+": gives the answer received on the channel sent with its one question", ok, o.pos, "gives %s%s", clip(v.String(), 100), describeIf(!ok, o.st.facts))
		}
		pubs := 0
		for _, q := range r.in.sinks {
			if q.name == "topic.Topic.Pub" {
				pubs++
				c.ob("asker", shortName(f)+": asks outside any loop", len(q.loops) == 0, q.pos, "asks in a loop")
			}
		}
		c.ob("asker", shortName(f)+": asks one question", pubs == 1, f.Pos(), "asks %d", pubs)
	}
	c.atLeast("asker", 14)
}

// passwordOK: the request carries the configured password, or none is configured.
func passwordOK(k K, pw *Term) bool {
	if k.has(mkEq(pw, mkStr(""))) {
		return true
	}
	for f := range k.st.facts {
		if f.Op != "eq" {
			continue
		}
		for i := range f.Args {
			a, b := f.Args[i], f.Args[1-i]
			if a == pw && b.Op == "call" && occursIn(b, respR) && !occursIn(b, pw) {
				return true
			}
			// a constant-time comparison
			if n, ok := isInt(b); ok && n == 1 && isCall(a, "subtle.ConstantTimeCompare") && occursIn(a, respR) && occursIn(a, pw) {
				return true
			}
		}
	}
	return false
}

// guards: what it takes to reach an endpoint.
func (c *Ctx) guards() {
	p := F(mkSym("s"), "params")
	pw := F(p, "Password")
	admin, wallet := 0, 0
	rs := c.routes()
	open := map[string]bool{} // mounted without the admin interface being enabled
	for _, t := range rs {
		if !t.reg.has(F(p, "EnableAdmin")) {
			open[t.name()] = true
		}
	}
	for _, t := range rs {
		isAdmin := !open[t.name()]
		for _, q := range t.handler.in.sinks {
			k := q.k(t.handler.in)
			where := t.name() + ": " + q.name + " in " + q.stack[len(q.stack)-1]
			switch {
			case q.name == "topic.Topic.Pub" && q.args[0].Op == "fld" && q.args[0].Aux == "Terminate":
				admin++
				c.ob("admin-enabled", where+" ends the node only through an endpoint mounted when the admin interface is enabled", isAdmin, q.pos, "%s", describeIf(!isAdmin, t.reg.st.facts))
				ok := passwordOK(k, pw)
				c.ob("admin-password", where+" ends the node only for a request carrying the password", ok, q.pos, "%s", describeIf(!ok, q.facts))
			case q.name == "topic.Topic.Pub" || strings.HasPrefix(q.name, "inv."):
				wallet++
				ok := t.reg.has(F(p, "EnableWallet"))
				c.ob("wallet-enabled", where+" is reached only when the wallet interface is enabled", ok, q.pos, "%s", describeIf(!ok, t.reg.st.facts))
			}
			if isAdmin && writeKind(q.name, q.args, respW) == "body" && t.handler != t.front {
				ok := passwordOK(k, pw)
				c.ob("admin-password", where+" answers only a request carrying the password", ok, q.pos, "%s", describeIf(!ok, q.facts))
			}
		}
		if isAdmin && t.handler != t.front {
			ok := passwordOK(t.disp.k(t.front.in), pw)
			c.ob("admin-password", t.name()+" is carried out only for a request carrying the password", ok, t.disp.pos, "%s", describeIf(!ok, t.disp.facts))
		}
		if !isAdmin {
			// nothing else asks for the password
			continue
		}
		for _, q := range t.front.in.sinks {
			if q.name == "http.ResponseWriter.WriteHeader" && q.args[0] == respW {
				if n, ok := isInt(q.args[1]); ok && (n == 401 || n == 403) {
					c.ob("admin-password", t.path+": a request carrying the password is not refused", !passwordOK(q.k(t.front.in), pw), q.pos, "%s", describeIf(true, q.facts))
				}
			}
		}
	}
	c.ob("coverage", "ways to end the node over HTTP", admin > 0, token.NoPos, "none found")
	c.ob("coverage", "questions answered over HTTP", wallet >= 7, token.NoPos, "%d found", wallet)
	// no other way to end the node
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || shortName(ci.Common().StaticCallee()) != "topic.Topic.Pub" {
					continue
				}
				if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && c.p.fieldName(deref(fa.X.Type()), fa.Field) == "Terminate" {
						ok := f.Pkg != nil && f.Pkg.Pkg.Name() == "rest"
						c.ob("admin-only-way", shortName(f)+" asks the node to end", ok, in.Pos(), "outside the HTTP interface")
					}
				}
			}
		}
	}
	c.atLeast("admin-only-way", 1)
	c.atLeast("admin-password", 2)
	c.atLeast("admin-enabled", 1)
	c.atLeast("wallet-enabled", 7)
}

var mainOpaque = []string{"inv.NewInv", "chain.NewChain", "peerfactory.NewPeerFactory", "miner.NewMiner", "rest.NewServer", "bus.NewBus", "core.DevNetParams", "core.ProdNetParams", "rest.Server.Start", "chain.Chain.Loop", "peerfactory.PeerFactory.Loop", "miner.Miner.Loop"}

// httpWiring: the server gets the settings given on the command line.
func (c *Ctx) httpWiring() {
	r := c.run("cmd/bcnode.main", runOpt{opaque: mainOpaque})
	if r == nil {
		return
	}
	flagOf := func(t *Term) string {
		if t.Op == "call" && strings.HasPrefix(t.Aux, "flag.") {
			s, _ := str(t.Args[0])
			return s
		}
		return ""
	}
	n := 0
	for _, q := range r.in.sinks {
		if q.name != "rest.NewServer" {
			continue
		}
		n++
		p := q.args[0]
		for field, kind := range map[string]string{"EnableAdmin": "http-admin", "EnableWallet": "http-wallet", "Password": "admin-pw"} {
			got := flagOf(F(p, field))
			c.ob("settings", "main: the server's "+field+" is the setting "+kind, got == kind, q.pos, "it is %s", clip(F(p, field).String(), 200))
		}
	}
	c.ob("coverage", "main starts the HTTP server", n > 0, r.fn.Pos(), "no call of rest.NewServer found")
}

// adminSecret: the admin password goes nowhere but into the comparison.
func (c *Ctx) adminSecret() {
	t := newTaint(c.p)
	n := 0
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && strings.HasPrefix(shortName(ci.Call.StaticCallee()), "flag.String") {
					for _, a := range ci.Call.Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "admin-pw") {
							n++
							t.add(ci)
						}
					}
				}
			}
		}
	}
	if pt := c.p.typ("internal/rest.Params"); c.need("rest.Params", pt != nil) {
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Password" {
				n++
				t.addField(pt, i)
			}
		}
	}
	c.ob("coverage", "where the admin password comes from", n >= 2, token.NoPos, "%d sources found", n)
	okFns := map[string]bool{"subtle.ConstantTimeCompare": true, "hmac.Equal": true, "bytes.Equal": true, "strings.Compare": true, "sha256.Sum256": true, "strings.TrimSpace": true}
	for _, u := range t.run() {
		c.ob("secret", shortName(u.in)+" gives the admin password to "+u.name, okFns[u.name], u.pos, "the password reaches %s", u.name)
	}
	c.ob("secret", "places the admin password reaches were followed", len(t.vals) > 4, token.NoPos, "followed through %d values", len(t.vals))
}

func init() {
	register("C12",
		"every path round the chain routine that takes a question or submission with a reply channel answers on that channel exactly once before the next event; a submission is answered with success exactly when it is stored; each kind of question has one subscriber; whoever asks waits on the channel it sent; every path through every HTTP handler writes one response, with a success status only when nothing failed",
		nil, func(c *Ctx) {
			c.answeredOnce()
			c.askers()
			for _, t := range c.routes() {
				if t.handler != t.front {
					c.oneResponse(t.name(), t.handler)
				}
				c.oneResponse(t.path, t.front)
			}
			c.atLeast("one-response", 60)
			c.atLeast("status", 20)
			c.atLeast("routes", 11)
		})
}

func init() {
	register("C20",
		"every path to ending the node goes through an endpoint mounted only when the admin interface is enabled and a comparison of the request's password with the configured one; wallet questions are reachable only when the wallet interface is enabled; the settings come from the command line; the password flows only into the comparison",
		nil, func(c *Ctx) {
			c.guards()
			c.httpWiring()
			c.adminSecret()
		})
}
