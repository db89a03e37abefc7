package main

// Records sent from one node to another: the bytes a writer sends are taken as one stream, the
// reader is analysed over exactly that stream, and what it gives must be what was written.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	wireOut = mkSym("<stream>")
	wirePos = mkSym("<read>")
)

// segments splits what one write sends into parts of which each is one value.
func (in *Interp) segments(st *State, d *Term) []*Term {
	d = in.resolve(st, in.content(st, d))
	switch {
	case d.Op == "copied" && (isCall(d.Args[1], "be64") || isCall(d.Args[1], "be16")):
		if mkLen(d.Args[0]) == mkInt(8) && d.Args[1].Aux == "be64" || mkLen(d.Args[0]) == mkInt(2) && d.Args[1].Aux == "be16" {
			return []*Term{d.Args[1]}
		}
	case d.Op == "list" && (len(d.Args) == 2 || len(d.Args) == 8):
		if t := bigEndian(d.Args); t != nil {
			return []*Term{t}
		}
	case d.Op == "concat":
		var out []*Term
		for _, a := range d.Args {
			out = append(out, in.segments(st, a)...)
		}
		return out
	}
	return []*Term{d}
}

// bigEndian: the value whose bytes are written out one by one, the highest first.
func bigEndian(bytes []*Term) *Term {
	n := len(bytes)
	last := bytes[n-1]
	if last.Op != "conv" || last.Aux != "byte" && last.Aux != "uint8" {
		return nil
	}
	x := last.Args[0]
	for i, b := range bytes[:n-1] {
		k := 8 * (n - 1 - i)
		if b.Op != "conv" || b.Aux != last.Aux || b.Args[0].Op != "bin" || b.Args[0].Args[0] != x {
			return nil
		}
		if y := b.Args[0]; !(y.Aux == ">>" && y.Args[1] == mkInt(int64(k))) && !(y.Aux == "/" && y.Args[1] == mkInt(1<<k)) {
			return nil
		}
	}
	if n == 2 {
		return mk("call", "be16", mk("conv", "uint16", x))
	}
	return mk("call", "be64", x)
}

// segLen is the number of bytes of a part of the stream.
func segLen(p *Prog, t *Term) *Term {
	switch {
	case isCall(t, "be64"):
		return mkInt(8)
	case isCall(t, "be16"):
		return mkInt(2)
	case t.Op == "fld":
		if n, ok := p.hashField(); ok && t.Aux == n {
			return mkInt(32)
		}
	}
	return mkLen(t)
}

// hashField is the name of the field that holds the 32 bytes of a hash.
func (p *Prog) hashField() (string, bool) {
	t, ok := p.typ("pkg/core.HashT").Underlying().(*types.Struct)
	if !ok || t.NumFields() != 1 {
		return "", false
	}
	a, ok := t.Field(0).Type().Underlying().(*types.Array)
	return t.Field(0).Name(), ok && a.Len() == 32
}

// narrow drops a conversion to 16 bits of a number known to fit.
func (k K) narrow(t *Term) *Term {
	if t.Op == "conv" && (t.Aux == "uint16" || t.Aux == "uint8") {
		lim := int64(1) << 16
		if t.Aux == "uint8" {
			lim = 1 << 8
		}
		small := mkLt(t.Args[0], mkInt(lim), false)
		if k.has(small) || k.has(mkLt(t.Args[0], mkInt(lim), true)) || k.hasEach(small) {
			return t.Args[0]
		}
	}
	return t
}

// hasEach: known of this element because it is known of all.
func (k K) hasEach(t *Term) bool {
	for f := range k.st.facts {
		if f.Op != "all" || len(f.Args) != 2 {
			continue
		}
		for _, i := range k.in.loops {
			if n := domLen(f.Args[0]); !k.has(mkLt(i, n, false)) && !k.has(mkLt(i, n, true)) {
				continue
			}
			for _, g := range conjuncts(subst(f.Args[1], binderVar(f), i)) {
				if g == t {
					return true
				}
			}
		}
	}
	return false
}

// sendOver records what is written; every write succeeds.
func sendOver() map[string]primFn {
	quiet := func(c *callCtx) []callRes { return c.ret(pack(c.sig, tNil)) }
	return map[string]primFn{
		"fmt.Printf": quiet, "net.conn.SetWriteDeadline": quiet, "net.conn.SetReadDeadline": quiet, "net.conn.SetDeadline": quiet,
		"net.conn.Write": func(c *callCtx) []callRes {
			st := c.ps.st
			prev := c.in.load(st, wireOut, nil)
			st.mem[wireOut] = mkConcat(prev, mk("list", "", c.in.segments(st, c.args[1])...))
			return c.ret(mk("tuple", "", mkLen(c.val(1)), tNil))
		},
	}
}

// recvOver reads from the stream recorded; anything that does not fit gives an error.
func recvOver(stream *Term) map[string]primFn {
	over := sendOver()
	bad := func(c *callCtx) []callRes {
		return c.ret(mk("tuple", "", mkInt(0), mk("err", "", c.site())))
	}
	over["net.conn.Write"] = bad
	over["io.ReadFull"] = func(c *callCtx) []callRes {
		st := c.ps.st
		k := K{c.in, st}
		want := k.narrow(c.in.resolve(st, mkLen(c.in.content(st, c.args[1]))))
		pos := c.in.load(st, wirePos, nil)
		var parts []*Term
		sum := mkInt(0)
		for i := int64(0); i < 16; i++ {
			seg := c.in.resolve(st, c.in.elemAt(st, stream, mkAdd(pos, mkInt(i))))
			if isCall(seg, "be16") {
				seg = mk("call", "be16", k.narrow(seg.Args[0]))
			}
			parts = append(parts, seg)
			sum = mkAdd(sum, segLen(c.in.p, seg))
			if k.same(sum, want) {
				st.mem[wirePos] = mkAdd(pos, mkInt(i+1))
				v := parts[0]
				if len(parts) > 1 {
					v = mkConcat(parts...)
				}
				c.in.setContent(st, c.args[1], v)
				return c.ret(mk("tuple", "", want, tNil))
			}
		}
		// a round of a loop is first looked at before it is known how far each gets
		st.mem[wirePos] = mkAdd(pos, mkInt(1))
		c.in.setContent(st, c.args[1], mk("call", "part", pos))
		c.in.sink(st, "call", "wire", []*Term{want, pos, parts[0]}, nil, c.pos)
		return c.ret(mk("tuple", "", want, tNil))
	}
	for n, call := range map[string]string{"binary.bigEndian.Uint64": "be64", "binary.bigEndian.Uint16": "be16"} {
		over[n] = func(c *callCtx) []callRes {
			if v := c.val(1); isCall(v, call) {
				return c.ret(v.Args[0])
			}
			return c.pure()
		}
	}
	return over
}

// setContent replaces all a slice refers to.
func (in *Interp) setContent(st *State, s, v *Term) {
	in.copyInto(st, s, v)
	if in.content(st, s) != v && s.Op == "obj" {
		st.mem[contOf(s)] = v
	}
}

// wirePairs: every method that writes, with the one that reads it.
func (p *Prog) wirePairs() [][2]*ssa.Function {
	ms := p.connMethods()
	var out [][2]*ssa.Function
	for _, n := range sortedNames(ms) {
		if !strings.HasPrefix(n, "Write") {
			continue
		}
		if r := ms["Read"+strings.TrimPrefix(n, "Write")]; r != nil {
			out = append(out, [2]*ssa.Function{ms[n], r})
		}
	}
	return out
}

// overTheWire: whatever is written without an error is read without an error, and unchanged.
func (c *Ctx) overTheWire() {
	rule := "arrives"
	hf, ok := c.p.hashField()
	if !c.need("the bytes of a hash", ok) {
		return
	}
	h := mkSym("h")
	c.contract("arrives", "pkg/core.NewHashTFromBytes", "makes the hash of the bytes of a hash", runOpt{args: []*Term{F(h, hf)}, inline: []string{"core.NewHashTFromBytes"}}, func(r *runRes, k K, v []*Term) bool {
		x := F(v[0], hf)
		if x.Op == "copied" {
			x = x.Args[1]
		}
		return v[0] == h || x == F(h, hf)
	})
	c.contract("arrives", "pkg/core.HashT.Data", "gives the bytes of the hash", runOpt{args: []*Term{h}, inline: []string{"core.HashT.Data"}}, func(r *runRes, k K, v []*Term) bool {
		return v[0] == F(h, hf)
	})
	for _, pr := range c.p.wirePairs() {
		w, rd := pr[0], pr[1]
		what := shortName(w)
		x, conn := mkSym("x"), mkSym("c")
		over := sendOver()
		err0 := mkField(conn, "err")
		wr := c.runFn(w, runOpt{args: []*Term{conn, x}, over: over, key: "send", setup: func(in *Interp, st *State) {
			in.store(st, err0, tNil)
			st.mem[wireOut] = mk("list", "")
			in.fatal = func(st *State, loc, v *Term) bool {
				return loc == err0 && (K{in, st}).has(mkNot(mkEq(v, tNil)))
			}
		}})
		n := 0
		for _, o := range wr.outs {
			if o.kind != "ret" {
				c.ob(rule, what+": never panics", false, o.pos, "writing can panic%s", wr.describe(o))
				continue
			}
			if !wr.k(o).same(wr.in.load(o.st, err0, nil), tNil) {
				continue
			}
			n++
			c.readBack(what, rd, x, w.Params[1].Type(), wr.in.resolve(o.st, o.st.mem[wireOut]), o.st.facts)
		}
		if n == 0 {
			c.ob("coverage", rule+" "+what, false, w.Pos(), "no way through writing was found")
		}
	}
}

func (c *Ctx) readBack(what string, rd *ssa.Function, x *Term, typ types.Type, stream *Term, facts map[*Term]bool) {
	rule := "arrives"
	hf, _ := c.p.hashField()
	conn := mkSym("c'")
	over := recvOver(stream)
	over["core.NewHashTFromBytes"] = func(c *callCtx) []callRes {
		if v := c.val(0); v.Op == "fld" && v.Aux == hf {
			return c.ret(v.Args[0])
		}
		return c.pure()
	}
	hash := "core." + typeName(typ) + ".Hash"
	over[hash] = func(c *callCtx) []callRes {
		if v := c.val(0); (K{c.in, c.ps.st}).eta(typ, v, x, 0) == "" {
			return c.ret(callTerm(hash, x))
		}
		return c.pure()
	}
	args := []*Term{conn}
	for _, p := range rd.Params[1:] {
		switch typeName(p.Type()) {
		case "HashT":
			args = append(args, callTerm(hash, x))
		default:
			args = append(args, mkSym(p.Name()))
		}
	}
	err0 := mkField(conn, "err")
	r := c.runFn(rd, runOpt{args: args, over: over, key: fmt.Sprint("recv", stream.ID), setup: func(in *Interp, st *State) {
		in.store(st, err0, tNil)
		st.mem[wirePos] = mkInt(0)
		for f := range facts {
			if f.Op != "did" {
				in.addFact(st, f)
			}
		}
	}})
	for _, q := range r.in.sinks {
		if q.name == "wire" {
			c.ob(rule, what+": read in the parts it was written in", false, q.pos, "%s bytes are read at part %s, which is %s, of %s", q.args[0], q.args[1], q.args[2], clip(stream.String(), 600))
		}
	}
	n := 0
	for _, o := range r.outs {
		k := r.k(o)
		if o.kind != "ret" {
			c.ob(rule, what+": reading back never fails", false, o.pos, "reading can panic%s", r.describe(o))
			continue
		}
		n++
		e := r.in.resolve(o.st, r.in.load(o.st, err0, nil))
		if !c.ob(rule, what+": reading back never fails", k.same(e, tNil), o.pos, "what was written: %s\nan error is possible here (%s)%s", clip(stream.String(), 600), clip(e.String(), 300), ifBad(k.same(e, tNil), r.describe(o))) {
			continue
		}
		why := k.eta(typ, o.vals[0], x, 0)
		c.ob(rule, what+": what is read is what was written", why == "", o.pos, "%s", "part "+what+why)
		pos := r.in.resolve(o.st, o.st.mem[wirePos])
		c.ob(rule, what+": everything written is read", k.same(pos, mkLen(stream)), o.pos, "%s of %s parts were read", pos, mkLen(stream))
	}
	if n == 0 {
		c.ob("coverage", rule+" "+what, false, rd.Pos(), "no way through reading was found")
	}
}

// expected: a string expected is accepted if it comes, and nothing else is.
func (c *Ctx) expected() {
	ms := c.p.connMethods()
	w, rd := ms["WriteString"], ms["ReadStringExpected"]
	if rd == nil || !c.need("prot.Conn.WriteString", w != nil) {
		return
	}
	x, y, conn := mkSym("x"), mkSym("y"), mkSym("c")
	c.contract("expected", "pkg/prot.Conn.ReadStringExpected", "fails exactly if something else came", runOpt{args: []*Term{conn, y}, key: "expected", over: map[string]primFn{
		"prot.Conn.ReadString": func(c *callCtx) []callRes { return c.ret(x) },
	}, setup: func(in *Interp, st *State) { in.store(st, mkField(conn, "err"), tNil) }}, func(r *runRes, k K, v []*Term) bool {
		return k.iff(mkEq(r.in.resolve(k.st, r.in.load(k.st, mkField(conn, "err"), nil)), tNil), mkEq(x, y))
	})
}

// bounded: nothing that comes from a peer decides how much is allocated, beyond the 64 kB of one
// message part.
func (k K) bounded(n *Term) bool {
	if v, ok := isInt(n); ok {
		return v >= 0 && v <= 1<<20
	}
	switch n.Op {
	case "conv":
		if n.Aux == "uint16" || n.Aux == "uint8" {
			return true
		}
		return k.bounded(n.Args[0])
	case "call":
		return n.Aux == "binary.bigEndian.Uint16"
	case "len":
		return true // as much again as is there already
	}
	l := toLin(n)
	if l.c < 0 || l.c > 1<<20 || len(l.coef) > 4 {
		return false
	}
	for t, f := range l.coef {
		if t == n || f <= 0 || f > 4 || !k.bounded(t) {
			return false
		}
	}
	return true
}

var rdl, wdl = mkSym("<read deadline>"), mkSym("<write deadline>")

func deadlineOver() map[string]primFn {
	set := func(gs ...*Term) primFn {
		return func(c *callCtx) []callRes {
			for _, g := range gs {
				c.ps.st.mem[g] = c.val(1)
			}
			return c.ret(pack(c.sig, callTerm(c.name, c.site())))
		}
	}
	use := func(g *Term) primFn {
		return func(c *callCtx) []callRes {
			c.in.sink(c.ps.st, "call", "deadline", []*Term{c.in.load(c.ps.st, g, nil)}, nil, c.pos)
			return c.external()
		}
	}
	over := map[string]primFn{}
	for _, t := range []string{"net.conn", "net.TCPConn", "net.Conn"} {
		over[t+".SetReadDeadline"], over[t+".SetWriteDeadline"], over[t+".SetDeadline"] = set(rdl), set(wdl), set(rdl, wdl)
		over[t+".Read"], over[t+".Write"] = use(rdl), use(wdl)
	}
	over["io.ReadFull"], over["io.ReadAtLeast"], over["io.Copy"], over["io.ReadAll"], over["io.CopyN"] = use(rdl), use(rdl), use(rdl), use(rdl), use(rdl)
	return over
}

// patience: how long a node waits on a peer, and how much it sets aside for it.
func (c *Ctx) patience() {
	ms := c.p.connMethods()
	seen := map[*ssa.Function]bool{}
	look := func(name string, r *runRes, timeout *Term) {
		if r == nil {
			return
		}
		for _, q := range r.in.sinks {
			k := q.k(r.in)
			switch {
			case q.name == "deadline":
				for _, f := range q.fns {
					seen[f] = true
				}
				d := q.args[0]
				ok := isCall(d, "time.Time.Add") && (timeout != nil && d.Args[1] == timeout || k.positive(d.Args[1]))
				c.ob("deadline", name+": every wait for the network ends", ok, q.pos, "the deadline is %s", d)
			case q.kind == "make":
				c.ob("bounded", name+": allocates no more than was received", k.bounded(k.narrow(q.args[0])) && (len(q.args) < 2 || k.bounded(k.narrow(q.args[1]))), q.pos, "the size is %v", q.args)
			case strings.HasPrefix(q.name, "prot.Conn.ReadTimeout"):
				c.ob("deadline", name+": every wait for the network ends", k.positive(q.args[1]), q.pos, "the timeout is %s", q.args[1])
			}
		}
	}
	for _, n := range sortedNames(ms) {
		if !strings.HasPrefix(n, "Read") && !strings.HasPrefix(n, "Write") {
			continue
		}
		var args []*Term
		var timeout *Term
		for _, p := range ms[n].Params {
			args = append(args, mkSym(p.Name()))
			if types.TypeString(p.Type(), nil) == "time.Duration" {
				timeout = args[len(args)-1]
			}
		}
		args[0] = connC
		look("prot.Conn."+n, c.runFn(ms[n], runOpt{args: args, over: deadlineOver(), key: "deadline", setup: func(in *Interp, st *State) {
			st.mem[rdl], st.mem[wdl] = tZero, tZero
		}}), timeout)
	}
	look("pkg/prot.NewConn", c.run("pkg/prot.NewConn", runOpt{over: deadlineOver(), key: "deadline", setup: func(in *Interp, st *State) {
		st.mem[rdl], st.mem[wdl] = tZero, tZero
	}}), nil)
	look("internal/peer.Peer.Loop", c.peerLoop(), nil)
	// nothing else uses the network of a peer
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n, g := "", call.Common().StaticCallee()
				if g != nil {
					n = shortName(g)
				}
				switch n {
				case "io.ReadFull", "io.ReadAtLeast", "net.conn.Read", "net.conn.Write", "net.TCPConn.Read", "net.TCPConn.Write":
					c.ob("deadline", shortName(f)+": its use of the network is analysed", seen[f], i.Pos(), "%s is called by %s", n, shortName(f))
				}
			}
		}
	}
}

// positive: certainly a length of time, and at most ten minutes.
func (k K) positive(d *Term) bool {
	n, ok := isInt(k.in.resolve(k.st, d))
	return ok && n > 0 && n <= 600e9
}

func init() {
	register("C16",
		"each method that writes to a peer is analysed for an arbitrary value and the bytes it writes recorded as a stream, with loops kept as sequences over all their rounds; the method that reads it is analysed over exactly that stream, cut wherever it cuts it; every path must succeed, use up the stream and return a value equal to the one written, field by field and element by element",
		[]string{"the connection delivers the bytes written, in order", "a hash identifies what it is the hash of"}, func(c *Ctx) {
			c.overTheWire()
			c.expected()
			c.atLeast("arrives", 20)
			c.atLeast("expected", 1)
		})
	register("C25",
		"each method of a connection and the loop of a peer connection is analysed on every path; at every use of the network the deadline in force is tracked, and at every allocation the size is decided as a term over what was received; a census of the module's functions shows that no other function uses the network of a peer",
		[]string{"the operating system enforces deadlines of connections"}, func(c *Ctx) {
			c.patience()
			c.atLeast("deadline", 15)
			c.atLeast("bounded", 10)
		})
}
