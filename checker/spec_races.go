package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "effect and escape analysis of every routine; lockset analysis",
		[]string{
			"whatever is passed to a function outside the repository is not kept or changed by it, except by those known to",
			"handlers given to net/http run at any time, any number at once",
		},
		func(c *Ctx) {
			c.guarded("locked")
			c.discipline("locks")
			c.apart("apart")
			c.selfWait("waits")
		})
	register("C11", "effect and escape analysis of everything received, shared, sent or published",
		[]string{
			"whatever is passed to a function outside the repository is not kept or changed by it, except by those known to",
		},
		func(c *Ctx) {
			c.handed("handed over")
		})
}

// apart: no two routines touch the same memory at the same time, one of them changing it, unless
// under a lock.
func (c *Ctx) apart(rule string) {
	e := c.p.effects()
	started := 0
	for _, f := range e.all {
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					n++
					ok, what := false, "its function is not known"
					if t := g.Call.StaticCallee(); t != nil {
						if t.Origin() != nil {
							t = t.Origin()
						}
						if e.fns[t] != nil {
							ok, what = true, ""
						}
					}
					for _, ed := range e.p.graph().out[f] {
						ok = ok || ed.instr == in
					}
					c.ob(rule, fmt.Sprintf("%s: routine %d it starts", shownFn(f), n), ok, in.Pos(), "%s", what)
				}
			}
		}
		started += n
	}
	c.ob(rule, "routines started", started >= 8, token.NoPos, "%d go statements", started)

	excused := map[string]string{}
	excuse := func(name string) string {
		r, ok := excused[name]
		if !ok {
			r = c.setFirst(name)
			excused[name] = r
		}
		return r
	}
	touched := 0
	for _, f := range e.all {
		x := e.fns[f]
		threads, n := false, 0
		for ef := range x.effects {
			threads = threads || ef.in != nil
			n++
		}
		if !threads {
			continue
		}
		touched += n
		bad := map[string]string{}
		for _, cl := range e.clashes(f) {
			why := fmt.Sprintf("%s: %s, and %s", cl.a.name, e.where(cl.a), e.where(cl.b))
			if r := excuse(cl.a.name); r != "" {
				bad[cl.a.name] = why + "; " + r
			}
		}
		var names []string
		for k := range bad {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c.ob(rule, shownFn(f)+": "+k+" is not touched by two routines at once", false, f.Pos(), "%s", bad[k])
		}
		c.ob(rule, shownFn(f)+": what is touched by the routines started here and below", true, f.Pos(), "%d kinds of access", n)
	}
	c.ob(rule, "accesses compared", touched >= 100, token.NoPos, "%d", touched)
	var ex []string
	for k, why := range excused {
		if why == "" {
			ex = append(ex, k)
		}
	}
	sort.Strings(ex)
	for _, k := range ex {
		c.ob(rule, k+": set once, before any routine that reads it is started", true, token.NoPos, "")
	}
}

func shownFn(f *ssa.Function) string {
	n := shortName(f)
	if f.Parent() != nil {
		n = shownFn(f.Parent()) + " literal"
	}
	return n
}

// setFirst: a setting of the peer factory is only ever changed from empty to something, and the
// routines that read it are only started when it is not empty. It gives why not, or nothing.
func (c *Ctx) setFirst(name string) string {
	e := c.p.effects()
	loc := factoryP
	parts := strings.Split(name, "/")
	for _, p := range parts {
		i := strings.LastIndex(p, ".")
		if i < 0 {
			return "unprotected"
		}
		loc = mkField(loc, p[i+1:])
	}
	if !strings.HasPrefix(parts[0], "peerfactory.PeerFactory.") {
		return "unprotected"
	}
	if t := fieldTypes[parts[len(parts)-1]]; t == nil || t.String() != "string" {
		return "unprotected"
	}
	// who reads it as a routine of its own
	readers := map[string]bool{}
	root := c.p.fn("internal/peerfactory.PeerFactory.Loop")
	if root == nil {
		return "unprotected"
	}
	for ef := range e.fns[root].effects {
		if ef.name == name && ef.in == nil {
			continue
		}
		if ef.name == name {
			if ef.kind != "read" {
				return "another routine sets it"
			}
			g, ok := ef.in.(*ssa.Go)
			if !ok || g.Call.StaticCallee() == nil {
				return "unprotected"
			}
			readers[shortName(g.Call.StaticCallee())] = true
		}
	}
	if e.setLate(root, name) {
		return "it is set elsewhere"
	}
	r := c.runFactory("Loop")
	stores, starts := 0, 0
	why := ""
	empty := mkStr("")
	for _, q := range r.in.sinks {
		k := q.k(r.in)
		switch q.kind {
		case "store":
			if q.args[0].String() != loc.String() {
				if strings.HasPrefix(loc.String(), q.args[0].String()) {
					why = "it is replaced as part of something else"
				}
				continue
			}
			stores++
			if !k.has(mkEq(r.in.load(k.st, loc, nil), empty)) && !k.has(mkEq(loc, empty)) {
				why = "it may be set when it is set already"
			}
			if !hasText(q.args[1]) {
				why = "it may be set to nothing"
			}
		case "go":
			if !readers[q.name] {
				continue
			}
			starts++
			if v := r.in.load(k.st, loc, nil); !k.has(mkNot(mkEq(v, empty))) && !hasText(v) {
				why = "a routine that reads it may be started before it is set"
			}
		}
	}
	if stores == 0 || starts == 0 {
		return "unprotected"
	}
	return why
}

// hasText: a text that is not empty whatever its parts are.
func hasText(t *Term) bool {
	if t.Op == "str" {
		return t.Aux != "" && t.Aux != `""`
	}
	if t.Op == "cat" {
		for _, a := range t.Args {
			if hasText(a) {
				return true
			}
		}
	}
	return false
}

// setLate: something outside the routine sets a field of that name.
func (e *effects) setLate(root *ssa.Function, name string) bool {
	last := name[strings.LastIndex(name, "/")+1:]
	reach := e.p.graph().reach([]*ssa.Function{root}, func(ed edge) bool { return ed.kind == "call" || ed.kind == "defer" || ed.kind == "closure" })
	for _, f := range e.all {
		if reach[f] {
			continue
		}
		for ef := range e.fns[f].effects {
			if ef.kind != "read" && ef.in == nil && ef.where == f && lastField(ef.loc.path) == last && !local(ef.loc.root) {
				return true
			}
		}
	}
	return false
}

// selfWait: no routine sends on a channel only it receives from, unless there is room.
func (c *Ctx) selfWait(rule string) {
	e := c.p.effects()
	g := c.p.graph()
	var roots []*ssa.Function
	if m := c.p.fn("cmd/bcnode.main"); m != nil {
		roots = append(roots, m)
	}
	for _, f := range e.all {
		for _, ed := range g.out[f] {
			if ed.kind == "go" {
				roots = append(roots, ed.to)
			}
		}
	}
	// the field a channel is kept in
	field := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldElem(fa.X.Type(), fa.Field)
			}
		}
		return ""
	}
	sends, gets := map[string]map[*ssa.Function]ssa.Instruction{}, map[string]map[*ssa.Function]bool{}
	room := map[string]bool{}
	note := func(m map[string]map[*ssa.Function]ssa.Instruction, k string, f *ssa.Function, in ssa.Instruction) {
		if m[k] == nil {
			m[k] = map[*ssa.Function]ssa.Instruction{}
		}
		m[k][f] = in
	}
	for _, r := range roots {
		for f := range g.reach([]*ssa.Function{r}, func(ed edge) bool { return ed.kind == "call" || ed.kind == "defer" || ed.kind == "closure" }) {
			if f.Origin() != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send:
						if k := field(x.Chan); k != "" {
							note(sends, k, r, in)
						}
					case *ssa.UnOp:
						if k := field(x.X); x.Op == token.ARROW && k != "" {
							if gets[k] == nil {
								gets[k] = map[*ssa.Function]bool{}
							}
							gets[k][r] = true
						}
					case *ssa.Select:
						for _, st := range x.States {
							k := field(st.Chan)
							if k == "" {
								continue
							}
							if st.Send != nil && x.Blocking && len(x.States) == 1 {
								note(sends, k, r, in)
							} else if st.Send == nil {
								if gets[k] == nil {
									gets[k] = map[*ssa.Function]bool{}
								}
								gets[k][r] = true
							}
						}
					}
				}
			}
		}
	}
	for _, f := range e.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if mc, ok := st.Val.(*ssa.MakeChan); ok {
					n, isC := mc.Size.(*ssa.Const)
					k := fieldElem(fa.X.Type(), fa.Field)
					if isC && n.Int64() > 0 || !isC {
						if _, seen := room[k]; !seen {
							room[k] = true
						}
					} else {
						room[k] = false
					}
				}
			}
		}
	}
	var ks []string
	for k := range sends {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for r, in := range sends[k] {
			others := false
			for q := range gets[k] {
				others = others || q != r
			}
			c.ob(rule, fmt.Sprintf("%s: what %s sends someone receives", k, shownFn(r)), others || gets[k][r] && room[k], in.Pos(), "only it receives from there, and there is no room")
		}
	}
}

// handed: what a routine receives or finds in a shared store it does not change; what it sends,
// publishes or keeps in a shared store is not changed afterwards.
func (c *Ctx) handed(rule string) {
	e := c.p.effects()
	received_, given_ := 0, 0
	for _, f := range e.all {
		fs, _, n := e.handovers(f)
		got := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						got++
					}
				case *ssa.Select:
					got += len(x.States)
				}
			}
		}
		received_ += got
		given_ += n
		sort.Slice(fs, func(i, j int) bool { return fs[i].key < fs[j].key })
		for _, x := range fs {
			c.ob(rule, shownFn(f)+": "+x.key, false, f.Pos(), "%s", x.text)
		}
		if got > 0 {
			c.ob(rule, shownFn(f)+": nothing it receives is changed", true, f.Pos(), "%d places", got)
		}
		if n > 0 {
			c.ob(rule, shownFn(f)+": nothing it gives away is changed afterwards", true, f.Pos(), "%d ways", n)
		}
	}
	c.ob(rule, "received", received_ >= 20, token.NoPos, "%d places", received_)
	c.ob(rule, "given away", given_ >= 60, token.NoPos, "%d ways", given_)
	var mv []string
	for t, ok := range e.linear {
		if ok {
			mv = append(mv, strings.ReplaceAll(t, modPath+"/", ""))
		}
	}
	sort.Strings(mv)
	for _, t := range mv {
		c.ob(rule, t+": is its receiver's alone once sent", true, token.NoPos, "")
	}
}
