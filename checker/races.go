package main

// What runs at the same time, and what is handed over: decided over the effects of every function.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// after tells whether, once a has run, b may run without passing the instruction avoided.
func (e *effects) after(a, b, avoid ssa.Instruction) bool {
	if a == nil || b == nil || a.Block() == nil || b.Block() == nil {
		return true
	}
	// what is deferred runs when the function ends
	if _, ok := b.(*ssa.Defer); ok {
		return true
	}
	if _, ok := a.(*ssa.Defer); ok {
		return false
	}
	if avoid != nil && avoid == a {
		avoid = nil // made by the call itself: what is made later is something else
		if a == b {
			return false
		}
	}
	k := [3]ssa.Instruction{a, b, avoid}
	if r, ok := e.order[k]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var from func(bl *ssa.BasicBlock, i int) bool
	from = func(bl *ssa.BasicBlock, i int) bool {
		for ; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == b {
				return true
			}
			if avoid != nil && bl.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	r := false
	for i, in := range a.Block().Instrs {
		if in == a {
			r = from(a.Block(), i+1)
		}
	}
	if e.order == nil {
		e.order = map[[3]ssa.Instruction]bool{}
	}
	e.order[k] = r
	return r
}

// covers: what is at loc is at v or is reached from it; through tells that a reference is passed on
// the way, so that a copy of v still shares it.
func covers(v orig, t types.Type, loc orig) (covered, through bool) {
	if v.root != loc.root || loc.path != v.path && !strings.HasPrefix(loc.path, v.path+"/") {
		return false, false
	}
	rest := strings.TrimPrefix(loc.path, v.path)
	if rest == "" {
		return true, false
	}
	if t == nil {
		return true, true
	}
	path := v.path
	for _, el := range strings.Split(strings.TrimPrefix(rest, "/"), "/") {
		if t == nil {
			return true, true
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			return true, true
		}
		path += "/" + el
		if el == "[]" {
			if a, ok := t.Underlying().(*types.Array); ok {
				t = a.Elem()
			} else {
				t = nil
			}
		} else {
			t = fieldTypes[el]
		}
	}
	return true, false
}

// spread: every go statement there starts its routine on another element of a list.
func (e *effects) spread(in ssa.Instruction, root any) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	made := madeAt(root)
	if made == nil {
		return false
	}
	if i, ok := root.(inCall); ok {
		made = i.at
	}
	if !e.after(made, made, nil) {
		return false // the same one for all
	}
	// the one made there is put into the list once each
	if v, ok := made.(ssa.Value); ok {
		n := 0
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					n++
				}
			case *ssa.DebugRef:
			default:
				n += 2
			}
		}
		if n != 1 {
			return false
		}
	}
	for _, a := range call.Common().Args {
		if u, ok := a.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && counted(ia.Index) {
				return true
			}
		}
	}
	return false
}

// counted: the index goes up by one each time round a loop.
func counted(v ssa.Value) bool {
	step := func(v ssa.Value, phi *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op.String() != "+" || b.X != phi {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && c.Value != nil && c.Value.String() == "1"
	}
	if b, ok := v.(*ssa.BinOp); ok {
		if phi, ok := b.X.(*ssa.Phi); ok {
			for _, ed := range phi.Edges {
				if ed == v {
					return step(v, phi)
				}
			}
		}
		return false
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	n := 0
	for _, ed := range phi.Edges {
		if step(ed, phi) {
			n++
		} else if _, ok := ed.(*ssa.Const); !ok {
			return false
		}
	}
	return n == 1
}

type clash struct {
	what, where string
	pos         ssa.Instruction
	fn          *ssa.Function
	loc         orig
	a, b        effect
}

// shownPath is a path without the parts that only wrap others.
func shownPath(o orig) string {
	p := strings.TrimPrefix(o.path, "/")
	if p == "" {
		p = "itself"
	}
	switch r := o.root.(type) {
	case *ssa.Global:
		p = "global " + r.Name() + " " + p
	case *ssa.FreeVar:
		p = "captured " + r.Name() + " " + p
	}
	return p
}

// clashes finds what two routines may touch at the same time, one of them changing it.
func (e *effects) clashes(f *ssa.Function) []clash {
	x := e.fns[f]
	var all []effect
	for ef := range x.effects {
		if r, ok := ef.loc.root.(*ssa.Global); ok && e.ready(r, ef) {
			continue
		}
		all = append(all, ef)
	}
	by := map[any][]effect{}
	for _, ef := range all {
		by[ef.loc.root] = append(by[ef.loc.root], ef)
	}
	var out []clash
	for root, efs := range by {
		threads := false
		for _, a := range efs {
			threads = threads || a.in != nil
		}
		if !threads {
			continue
		}
		made := madeAt(root)
		for _, a := range efs {
			if a.kind == "read" {
				continue
			}
			for _, b := range efs {
				if a.in == nil && b.in == nil || a.locked && b.locked {
					continue
				}
				if a.loc != b.loc && !partOf(a.loc, b) && !partOf(b.loc, a) {
					continue
				}
				if a.kind == "append" && b.kind == "read" {
					continue
				}
				bad := false
				switch {
				case a.instr == b.instr:
					// decided where it was called, unless it is called again
					bad = (a.in != nil || b.in != nil) && e.after(a.instr, a.instr, made) && !e.spread(a.instr, root)
				case a.in == nil:
					bad = e.after(b.instr, a.instr, made)
				case b.in == nil:
					bad = e.after(a.instr, b.instr, made)
				default:
					bad = e.after(a.instr, b.instr, made) || e.after(b.instr, a.instr, made)
				}
				if bad {
					out = append(out, clash{fn: f, loc: a.loc, a: a, b: b})
				}
			}
		}
	}
	return out
}

// partOf: the effect is on all of something of which loc is a part kept inside it.
func partOf(loc orig, b effect) bool {
	if loc.root != b.loc.root || !strings.HasPrefix(loc.path, b.loc.path+"/") {
		return false
	}
	t := typeAt(b.loc.path)
	if t == nil {
		return false
	}
	_, through := covers(b.loc, t, loc)
	return !through
}

// ready: a package's variables are set before anything runs.
func (e *effects) ready(g *ssa.Global, ef effect) bool {
	return ef.where.Name() == "init" || strings.HasPrefix(ef.where.Name(), "init#")
}

func (e *effects) where(ef effect) string {
	r := "its caller's routine"
	if ef.in != nil {
		r = "a routine started at " + e.p.pos(ef.in.Pos())
	}
	return fmt.Sprintf("%s in %s at %s by %s", ef.kind, shortName(ef.where), e.p.pos(ef.pos), r)
}

// fault is one place where the rules on what is handed over are broken.
type fault struct {
	key, text string
}

// handovers checks what is received, kept in a shared store, sent or published.
func (e *effects) handovers(f *ssa.Function) (faults []fault, got, given_ int) {
	x := e.fns[f]
	seen := map[string]bool{}
	put := func(key, format string, a ...any) {
		if !seen[key] {
			seen[key] = true
			faults = append(faults, fault{key, fmt.Sprintf(format, a...)})
		}
	}
	// what was received or found in a shared store is not changed
	foreign := func(o orig) (string, bool) {
		if _, ok := o.root.(sharedRoot); ok {
			return "found in a store all routines share", true
		}
		if g, ok := received(o.root); ok && !e.moved(g.typ) {
			return "received as " + strings.ReplaceAll(g.typ, modPath+"/", ""), true
		}
		return "", false
	}
	for ef := range x.effects {
		if ef.kind == "read" {
			continue
		}
		if how, bad := foreign(ef.loc); bad {
			got++
			put(shortName(ef.where)+": "+ef.name, "%s: changes what was %s", e.where(ef), how)
		}
	}
	writes := []effect{}
	for ef := range x.effects {
		if ef.kind == "write" {
			writes = append(writes, ef)
		}
	}
	for k := range x.keeps {
		how, bad := foreign(k.val)
		if !bad {
			continue
		}
		for _, w := range writes {
			if _, through := covers(k.loc, typeAt(k.loc.path), w.loc); through {
				put(shortName(w.where)+": "+w.name, "%s: changes what was kept in %s when it was %s", e.where(w), shownPath(k.loc), how)
			}
		}
	}
	for es := range x.escapes {
		given_++
		vals := []orig{es.val}
		for _, w := range writes {
			locs := []orig{w.loc}
			for k := range x.keeps {
				if k.val.root == es.val.root && (w.loc.path == k.loc.path || strings.HasPrefix(w.loc.path, k.loc.path+"/")) && w.loc.root == k.loc.root {
					locs = append(locs, orig{k.val.root, extend(k.val.path, strings.TrimPrefix(strings.TrimPrefix(w.loc.path, k.loc.path), "/"))})
				}
			}
			for _, v := range vals {
				for _, l := range locs {
					if _, through := covers(v, es.typ, l); !through {
						continue
					}
					made := madeAt(v.root)
					late := false
					switch {
					case es.in != nil && es.in == w.in:
					case es.in != nil || w.in != nil:
						late = e.after(es.instr, w.instr, made) || es.in != nil && e.after(w.instr, es.instr, made)
					default:
						late = e.after(es.instr, w.instr, made)
					}
					if late && !w.locked {
						put(shortName(w.where)+": "+w.name, "%s: changes what was %s before (%s, %s)", e.where(w), es.how, shortName(es.where), e.p.pos(es.pos))
					}
				}
			}
		}
	}
	return
}

// moved: values of this type change hands when sent, and are the receiver's to change.
func (e *effects) moved(typ string) bool {
	if r, ok := e.linear[typ]; ok {
		return r
	}
	n, ok := 0, true
	for _, f := range e.all {
		x := e.fns[f]
		for es := range x.escapes {
			if es.typ == nil || es.typ.String() != typ {
				continue
			}
			if es.how != "sent" {
				ok = false
				continue
			}
			n++
			if !local(es.val.root) {
				continue // looked at where it was made
			}
			for ef := range x.effects {
				if ef.loc.root == es.val.root && ef.in == nil && es.in == nil && e.after(es.instr, ef.instr, madeAt(es.val.root)) {
					ok = false
				}
			}
		}
	}
	if e.linear == nil {
		e.linear = map[string]bool{}
	}
	e.linear[typ] = ok && n > 0
	return e.linear[typ]
}
