package main

// Locks. For every struct with a mutex the analysis tells, at each instruction of the repository,
// which mutexes are certainly held: a forward must-analysis over each function's control flow
// graph, with the net effect of helpers that lock or unlock for their caller, and with what is held
// at every call of a function that is only ever called.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	lockRead  = 1
	lockWrite = 2
)

// a mutex, by the value its struct is reached from and the path from there.
type lockKey struct {
	root ssa.Value
	path string
}

type lockSet map[lockKey]int

func (a lockSet) clone() lockSet {
	b := lockSet{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

func (a lockSet) same(b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func meetLocks(a, b lockSet) lockSet {
	out := lockSet{}
	for k, v := range a {
		if w := b[k]; w != 0 {
			if w < v {
				v = w
			}
			out[k] = v
		}
	}
	return out
}

type lockFn struct {
	entry   lockSet // nil: not yet known (never called)
	held    map[ssa.Instruction]lockSet
	exit    lockSet // held at every return, locks given up by deferred calls excluded
	release map[lockKey]bool
	again   []ssa.Instruction // locking what is held
	stray   []ssa.Instruction // unlocking what is not held
	uneven  []ssa.Instruction // held on only some of the ways here
}

type locks struct {
	p     *Prog
	types map[*types.TypeName]int // struct types with a mutex: its field
	fns   map[*ssa.Function]*lockFn
	all   []*ssa.Function
}

func isMutex(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func namedOf(t types.Type) *types.TypeName {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return nil
	}
	return n.Origin().Obj()
}

// origin follows a value to where it comes from: a cell written once stands for what is in it.
func origin(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				if s := onlyStore(a); s != nil {
					v = s
					continue
				}
			case *ssa.FreeVar:
				if b := bindingOf(a); b != nil {
					if al, ok := b.(*ssa.Alloc); ok && onlyStore(al) != nil {
						return a // the cell stands for its only content
					}
				}
			}
			return v
		}
		return v
	}
	return v
}

// onlyStore gives the one value ever put in a cell, if there is just one.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					if val != nil {
						ok = false
					}
					val = x.Val
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						visit(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	visit(a)
	if !ok {
		return nil
	}
	return val
}

// bindingOf gives what a free variable is bound to, when its closure is made in one place.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	i := -1
	for j, g := range f.FreeVars {
		if g == fv {
			i = j
		}
	}
	if f.Parent() == nil || i < 0 {
		return nil
	}
	var res ssa.Value
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
				res = m.Bindings[i]
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return res
}

// keyOf gives the root and path a value is reached by.
func keyOf(v ssa.Value) lockKey {
	v = origin(v)
	switch x := v.(type) {
	case *ssa.FieldAddr:
		k := keyOf(x.X)
		return lockKey{k.root, fmt.Sprintf("%s.%d", k.path, x.Field)}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				k := keyOf(x.X)
				return lockKey{k.root, k.path + "*"}
			}
		}
	}
	return lockKey{v, ""}
}

var locksCache *locks

func (p *Prog) locks() *locks {
	if locksCache != nil {
		return locksCache
	}
	l := &locks{p: p, types: map[*types.TypeName]int{}, fns: map[*ssa.Function]*lockFn{}}
	for _, q := range p.All {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if isMutex(s.Field(i).Type()) {
					l.types[tn] = i
				}
			}
		}
	}
	for _, f := range p.funcs() {
		if f.Origin() == nil && f.Blocks != nil {
			l.all = append(l.all, f)
		}
	}
	g := p.graph()
	called := func(f *ssa.Function) bool {
		if f.Name() == "main" || f.Name() == "init" || len(g.in[f]) == 0 {
			return false
		}
		for _, e := range g.in[f] {
			if e.kind != "call" && e.kind != "closure" {
				return false
			}
			if e.kind == "closure" {
				// only ever called, not kept
				for _, r := range *e.instr.(*ssa.MakeClosure).Referrers() {
					if c, ok := r.(*ssa.Call); !ok || c.Call.Value != e.instr.(*ssa.MakeClosure) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, f := range l.all {
		l.fns[f] = &lockFn{}
		if !called(f) {
			l.fns[f].entry = lockSet{}
		}
	}
	for round := 0; round < 30; round++ {
		changed := false
		for _, f := range l.all {
			if l.fns[f].entry != nil && l.flow(f) {
				changed = true
			}
		}
		for _, f := range l.all {
			if !called(f) {
				continue
			}
			var in lockSet
			for _, e := range g.in[f] {
				from := e.from
				if from.Origin() != nil {
					from = from.Origin()
					if l.fns[from] != nil {
						continue // seen at the generic body
					}
				}
				cf := l.fns[from]
				if cf == nil || cf.held == nil {
					continue
				}
				at := cf.held[e.instr]
				if m, ok := e.instr.(*ssa.MakeClosure); ok {
					for _, r := range *m.Referrers() {
						if c, ok := r.(ssa.Instruction); ok {
							at = cf.held[c]
						}
					}
				}
				if at == nil {
					continue
				}
				here := lockSet{}
				args := argsTo(e.instr, f)
				for k, m := range at {
					for i, a := range args {
						if a == nil {
							continue
						}
						ak := keyOf(a)
						if ak.root == k.root && strings.HasPrefix(k.path, ak.path) {
							var to ssa.Value
							if i < len(f.Params) {
								to = f.Params[i]
							} else {
								to = f.FreeVars[i-len(f.Params)]
							}
							here[lockKey{to, strings.TrimPrefix(k.path, ak.path)}] = m
						}
					}
				}
				if in == nil {
					in = here
				} else {
					in = meetLocks(in, here)
				}
			}
			if in != nil && (l.fns[f].entry == nil || !in.same(l.fns[f].entry)) {
				l.fns[f].entry = in
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	locksCache = l
	return l
}

// argsTo gives the values bound to the parameters and free variables of f at a call or closure.
func argsTo(in ssa.Instruction, f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	var com *ssa.CallCommon
	switch x := in.(type) {
	case ssa.CallInstruction:
		com = x.Common()
	case *ssa.MakeClosure:
		for _, r := range *x.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == x {
				com = c.Common()
			}
		}
	}
	if com != nil {
		if com.IsInvoke() {
			out = append(out, com.Value)
		}
		out = append(out, com.Args...)
	}
	for len(out) < len(f.Params) {
		out = append(out, nil)
	}
	out = out[:len(f.Params)]
	if com != nil {
		if m, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range m.Bindings {
				// a captured cell stands for its content
				if a, ok := b.(*ssa.Alloc); ok {
					if s := onlyStore(a); s != nil {
						b = s
					}
				}
				out = append(out, b)
			}
		}
	}
	return out
}

// lockCall recognises a call of a mutex method.
func (l *locks) lockCall(com *ssa.CallCommon) (op string, key lockKey) {
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Signature.Recv() == nil || !isMutex(deref(f.Signature.Recv().Type())) {
		return "", lockKey{}
	}
	return f.Name(), keyOf(com.Args[0])
}

func (l *locks) callee(com *ssa.CallCommon) *ssa.Function {
	f := com.StaticCallee()
	if f == nil {
		return nil
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f
}

// translate gives the caller's name for a lock of a callee.
func translate(k lockKey, f *ssa.Function, args []ssa.Value) (lockKey, bool) {
	for i, a := range args {
		if a == nil {
			continue
		}
		if i < len(f.Params) && k.root == f.Params[i] || i >= len(f.Params) && i-len(f.Params) < len(f.FreeVars) && k.root == f.FreeVars[i-len(f.Params)] {
			ak := keyOf(a)
			return lockKey{ak.root, ak.path + k.path}, true
		}
	}
	return lockKey{}, false
}

// flow computes what is held in one function and tells whether its summary changed.
func (l *locks) flow(f *ssa.Function) bool {
	fn := l.fns[f]
	in := map[*ssa.BasicBlock]lockSet{f.Blocks[0]: fn.entry}
	held := map[ssa.Instruction]lockSet{}
	release := map[lockKey]bool{}
	var exit lockSet
	var again, stray []ssa.Instruction
	deferred := map[lockKey]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if op, k := l.lockCall(&d.Call); op == "Unlock" || op == "RUnlock" {
					deferred[k] = true
				} else if c := l.callee(&d.Call); c != nil && l.fns[c] != nil {
					args := argsTo(d, c)
					for k := range l.fns[c].release {
						if t, ok := translate(k, c, args); ok {
							deferred[t] = true
						}
					}
				}
			}
		}
	}
	for round := 0; round < 50; round++ {
		changed := false
		exit, again, stray = nil, nil, nil
		for _, b := range f.Blocks {
			st, ok := in[b]
			if !ok {
				continue
			}
			st = st.clone()
			for _, i := range b.Instrs {
				held[i] = st.clone()
				l.step(i, st, &again, &stray, release)
				if _, ok := i.(*ssa.Return); ok {
					out := st.clone()
					for k := range deferred {
						delete(out, k)
					}
					if exit == nil {
						exit = out
					} else {
						exit = meetLocks(exit, out)
					}
				}
			}
			for _, s := range b.Succs {
				old, ok := in[s]
				nw := st
				if ok {
					nw = meetLocks(old, st)
				}
				if !ok || !nw.same(old) {
					in[s] = nw
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	fn.uneven = nil
	outs := map[*ssa.BasicBlock]lockSet{}
	for _, b := range f.Blocks {
		if in[b] != nil {
			outs[b] = l.after(b, held)
		}
	}
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if outs[p] != nil && !outs[p].same(in[b]) {
				fn.uneven = append(fn.uneven, b.Instrs[0])
			}
		}
	}
	changed := !exit.same(fn.exit) || len(release) != len(fn.release) || fn.held == nil
	if !changed {
		for i, s := range held {
			if !s.same(fn.held[i]) {
				changed = true
				break
			}
		}
	}
	fn.held, fn.exit, fn.release, fn.again, fn.stray = held, exit, release, again, stray
	return changed
}

// afterGo tells which instructions may run after a routine was started in the same function.
func afterGo(f *ssa.Function) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var all func(b *ssa.BasicBlock)
	all = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, i := range b.Instrs {
			out[i] = true
		}
		for _, s := range b.Succs {
			all(s)
		}
	}
	for _, b := range f.Blocks {
		started := false
		for _, i := range b.Instrs {
			if started {
				out[i] = true
			}
			if _, ok := i.(*ssa.Go); ok {
				started = true
			}
		}
		if started {
			for _, s := range b.Succs {
				all(s)
			}
		}
	}
	return out
}

// constField tells whether a field is only ever set while its struct is built.
func (p *Prog) constField(tn *types.TypeName, field int) bool {
	for _, f := range p.funcs() {
		if f.Origin() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != field || namedOf(fa.X.Type()) != tn {
					continue
				}
				if _, fresh := origin(fa.X).(*ssa.Alloc); fresh {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						return false
					case *ssa.Store:
						return false
					default:
						_ = x
						return false // its address is taken
					}
				}
			}
		}
	}
	return true
}

// plain tells whether values of a type hold no reference to anything that could change.
func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plain(u.Elem())
	case *types.Chan, *types.Signature:
		return true
	}
	return false
}

// sync gives whether a type takes care of concurrent use itself.
func (l *locks) syncType(t types.Type) bool {
	tn := namedOf(t)
	if tn == nil {
		return false
	}
	if tn.Pkg() != nil && (tn.Pkg().Path() == "sync" || tn.Pkg().Path() == "sync/atomic") {
		return true
	}
	_, ok := l.types[tn]
	return ok
}

// guarded: everything in a struct with a mutex that can change is touched only while it is held.
func (c *Ctx) guarded(rule string, only ...string) {
	l := c.p.locks()
	want := map[string]bool{}
	for _, o := range only {
		want[o] = true
	}
	var tns []*types.TypeName
	for tn := range l.types {
		if len(want) == 0 || want[tn.Pkg().Name()+"."+tn.Name()] {
			tns = append(tns, tn)
		}
	}
	sort.Slice(tns, func(i, j int) bool { return tns[i].Name() < tns[j].Name() })
	for _, o := range only {
		found := false
		for _, tn := range tns {
			found = found || tn.Pkg().Name()+"."+tn.Name() == o
		}
		c.ob(rule, o+": has a lock", found, token.NoPos, "no mutex among its fields")
	}
	for _, tn := range tns {
		mu := l.types[tn]
		s := tn.Type().Underlying().(*types.Struct)
		name := tn.Pkg().Name() + "." + tn.Name()
		konst := map[int]bool{}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if i == mu || l.syncType(ft) && !isPointer(ft) {
				konst[i] = true
			} else if c.p.constField(tn, i) && (plain(ft) || l.syncType(ft)) {
				konst[i] = true
			}
		}
		n := map[string]int{}
		bad := map[string][]string{}
		for _, f := range l.all {
			fn := l.fns[f]
			late := afterGo(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cp, ok := in.(*ssa.UnOp); ok && cp.Op == token.MUL && namedOf(cp.Type()) == tn {
						if _, isP := cp.Type().Underlying().(*types.Pointer); !isP {
							bad["copied"] = append(bad["copied"], "the whole struct is copied at "+c.p.pos(in.Pos()))
						}
					}
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || namedOf(fa.X.Type()) != tn || konst[fa.Field] {
						continue
					}
					if fn.held == nil {
						continue // never called
					}
					base := keyOf(fa.X)
					if _, fresh := base.root.(*ssa.Alloc); fresh && base.path == "" && !late[in] {
						continue
					}
					lock := lockKey{base.root, fmt.Sprintf("%s.%d", base.path, mu)}
					fld := s.Field(fa.Field).Name()
					use := func(i ssa.Instruction, write bool, what string) {
						n[fld]++
						need := lockRead
						if write {
							need = lockWrite
						}
						if fn.held[i][lock] < need {
							bad[fld] = append(bad[fld], fmt.Sprintf("%s in %s (%s)", what, shortName(f), c.p.pos(i.Pos())))
						}
					}
					l.uses(fa, use, map[ssa.Value]bool{})
				}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			fld := s.Field(i).Name()
			if konst[i] {
				continue
			}
			c.ob(rule, name+"."+fld+": only touched under the struct's lock", len(bad[fld]) == 0, tn.Pos(), "%d uses; without the lock: %v", n[fld], bad[fld])
		}
		c.ob(rule, name+": never copied with its lock", len(bad["copied"]) == 0, tn.Pos(), "%v", bad["copied"])
	}
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// uses reports every use of what an address or a reference found there leads to, inside its
// function, and every way it leaves the function.
func (l *locks) uses(v ssa.Value, use func(i ssa.Instruction, write bool, what string), seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	_, isAddr := v.(*ssa.FieldAddr)
	if _, ok := v.(*ssa.IndexAddr); ok {
		isAddr = true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			use(x, false, "read")
			if !plain(x.Type()) && !l.syncType(x.Type()) {
				l.uses(x, use, seen)
			}
		case *ssa.Store:
			if x.Addr == v {
				use(x, true, "written")
			} else if isAddr || !plain(v.Type()) {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					// a local variable
					for _, r2 := range *a.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok {
							l.uses(u, use, seen)
						} else if r2 != r {
							if _, ok := r2.(*ssa.DebugRef); !ok {
								use(r2, true, "kept")
							}
						}
					}
				} else {
					use(x, true, "kept")
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.Field:
			l.uses(x.(ssa.Value), use, seen)
		case *ssa.Range:
			use(x, false, "iterated")
			l.uses(x, use, seen)
		case *ssa.Next:
			use(x, false, "iterated")
		case *ssa.Lookup:
			use(x, false, "looked up")
		case *ssa.Index:
			use(x, false, "read")
		case *ssa.MapUpdate:
			if x.Map == v {
				use(x, true, "written")
			} else {
				use(x, true, "kept")
			}
		case *ssa.BinOp, *ssa.If:
		case *ssa.Return:
			if !plain(v.Type()) || isAddr {
				use(x, true, "returned to whoever calls it")
				// held or not, it is out of the lock's reach
				l.leak(x, use)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "copy", "append":
					use(x, true, b.Name())
					if b.Name() == "append" {
						l.uses(x, use, seen)
					}
				default:
					use(x, false, b.Name())
				}
				continue
			}
			use(x, l.writes(&x.Call, v, 0), "used by "+x.Call.String())
		default:
			use(r, true, fmt.Sprintf("handed on by %T", r))
			l.leak(r, use)
		}
	}
}

// leak marks something as wrong whatever is held.
func (l *locks) leak(i ssa.Instruction, use func(i ssa.Instruction, write bool, what string)) {
	use(leaked{i}, true, "handed out of the lock's reach")
}

type leaked struct{ ssa.Instruction }

// writes tells whether a call may change what one of its arguments refers to.
func (l *locks) writes(com *ssa.CallCommon, v ssa.Value, depth int) bool {
	f := l.callee(com)
	if f == nil || l.fns[f] == nil || depth > 5 {
		return true
	}
	res := false
	for i, a := range com.Args {
		if a != v || i >= len(f.Params) {
			continue
		}
		inner := func(in ssa.Instruction, write bool, what string) { res = res || write }
		l.uses(f.Params[i], inner, map[ssa.Value]bool{})
	}
	return res
}

// blocks lists the instructions at which a function itself may wait for others.
func blocks(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				out = append(out, in)
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					out = append(out, in)
				}
			case *ssa.Select:
				if x.Blocking {
					out = append(out, in)
				}
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil {
					p := c.Pkg.Pkg.Path()
					if p == "time" && c.Name() == "Sleep" || p == "net" || p == "net/http" || p == "sync" && c.Name() == "Wait" {
						out = append(out, in)
					}
				} else if x.Call.IsInvoke() && x.Call.Method.Pkg() != nil && strings.HasPrefix(x.Call.Method.Pkg().Path(), "net") {
					out = append(out, in)
				}
			}
		}
	}
	return out
}

// discipline: no lock is taken twice, kept, or given up by who does not hold it; nobody waits while holding one, and
// locks of different structs are always taken in the same order.
func (c *Ctx) discipline(rule string) {
	l := c.p.locks()
	g := c.p.graph()
	runs := func(e edge) bool { return e.kind == "call" || e.kind == "defer" || e.kind == "closure" }
	order := map[string]map[string]string{}
	taken := 0
	owner := func(f *ssa.Function, com *ssa.CallCommon) string {
		if fa, ok := com.Args[0].(*ssa.FieldAddr); ok {
			if tn := namedOf(fa.X.Type()); tn != nil {
				return tn.Pkg().Name() + "." + tn.Name()
			}
		}
		return "?"
	}
	// what a function and everything it runs may lock or wait for
	type does struct {
		locks map[string]string
		waits string
	}
	memo := map[*ssa.Function]*does{}
	what := func(f *ssa.Function) *does {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if d := memo[f]; d != nil {
			return d
		}
		d := &does{locks: map[string]string{}}
		memo[f] = d
		for h := range g.reach([]*ssa.Function{f}, runs) {
			if h.Origin() != nil {
				h = h.Origin()
			}
			for _, i := range blocks(h) {
				d.waits = shortName(h) + " waits at " + c.p.pos(i.Pos())
			}
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(*ssa.Call); ok {
						if op, _ := l.lockCall(&x.Call); op == "Lock" || op == "RLock" {
							d.locks[owner(h, &x.Call)] = shortName(h)
						}
					}
				}
			}
		}
		return d
	}
	for _, f := range l.all {
		fn := l.fns[f]
		if fn.held == nil {
			continue
		}
		locksHere := 0
		typeOf := map[lockKey]string{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok {
					if op, k := l.lockCall(x.Common()); op != "" {
						typeOf[k] = owner(f, x.Common())
						if op == "Lock" || op == "RLock" {
							locksHere++
						}
					}
				}
			}
		}
		waits := map[ssa.Instruction]bool{}
		for _, i := range blocks(f) {
			waits[i] = true
		}
		bad := ""
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				h := fn.held[i]
				if len(h) == 0 {
					continue
				}
				if waits[i] {
					bad = "waits with a lock held at " + c.p.pos(i.Pos())
				}
				var targets []*ssa.Function
				for _, e := range g.out[f] {
					if e.instr == i && runs(e) {
						targets = append(targets, e.to)
					}
				}
				if x, ok := i.(*ssa.Call); ok {
					if op, k := l.lockCall(&x.Call); op == "Lock" || op == "RLock" {
						for a := range h {
							if a != k {
								addOrder(order, typeOf[a], typeOf[k], shortName(f))
							}
						}
					}
				}
				for _, t := range targets {
					d := what(t)
					if d.waits != "" {
						bad = d.waits + ", called with a lock held at " + c.p.pos(i.Pos())
					}
					for a := range h {
						for o, where := range d.locks {
							addOrder(order, typeOf[a], o, where+" called from "+shortName(f))
						}
					}
				}
			}
		}
		if locksHere == 0 && len(fn.again)+len(fn.stray) == 0 && bad == "" {
			continue
		}
		taken += locksHere
		name := shortName(f)
		if f.Parent() != nil {
			name += fmt.Sprintf("$%d", len(f.Parent().AnonFuncs))
		}
		c.ob(rule, name+": nobody waits while holding a lock", bad == "", f.Pos(), "%s", bad)
		c.ob(rule, name+": locks are taken and given up in turn", len(fn.again)+len(fn.stray)+len(fn.uneven) == 0, f.Pos(), "%d taken again, %d given up wrongly, %d held on only some of the ways to them", len(fn.again), len(fn.stray), len(fn.uneven))
		// kept after returning
		kept := ""
		for k := range fn.exit {
			if fn.entry[k] == 0 {
				up := 0
				for _, e := range g.in[f] {
					if e.kind == "call" {
						up++
					}
				}
				if up == 0 {
					kept = "held when it returns and nobody to give it up"
				}
			}
		}
		c.ob(rule, name+": what it locks it or its caller unlocks", kept == "" && l.freed(f), f.Pos(), "%s", kept)
	}
	c.ob(rule, "locks taken", taken >= 8, token.NoPos, "%d places", taken)
	// the order is a partial one
	var cyc []string
	for a := range order {
		seen := map[string]bool{}
		var walk func(x string)
		walk = func(x string) {
			for y := range order[x] {
				if y == a {
					cyc = append(cyc, a+" and "+x+" ("+order[x][y]+")")
				}
				if !seen[y] {
					seen[y] = true
					walk(y)
				}
			}
		}
		walk(a)
	}
	sort.Strings(cyc)
	c.ob(rule, "locks are taken in one order", len(cyc) == 0, token.NoPos, "%v in circles: %v", order, cyc)
}

func addOrder(o map[string]map[string]string, a, b, where string) {
	if o[a] == nil {
		o[a] = map[string]string{}
	}
	o[a][b] = where
}

// freed tells that on no way out of a function something locked on that way stays locked, except
// what all ways out leave locked for the caller.
func (l *locks) freed(f *ssa.Function) bool {
	fn := l.fns[f]
	deferred := map[lockKey]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if op, k := l.lockCall(&d.Call); strings.HasSuffix(op, "Unlock") {
					deferred[k] = true
				} else if c := l.callee(&d.Call); c != nil && l.fns[c] != nil {
					args := argsTo(d, c)
					for k := range l.fns[c].release {
						if t, ok := translate(k, c, args); ok {
							deferred[t] = true
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Return); ok {
				for k := range fn.held[i] {
					if !deferred[k] && fn.exit[k] == 0 {
						return false
					}
				}
			}
		}
	}
	return true
}

var _ = constant.MakeBool

// step is the effect of one instruction on what is held.
func (l *locks) step(i ssa.Instruction, st lockSet, again, stray *[]ssa.Instruction, release map[lockKey]bool) {
	x, ok := i.(*ssa.Call)
	if !ok {
		return
	}
	op, k := l.lockCall(&x.Call)
	switch op {
	case "Lock", "RLock":
		if st[k] != 0 {
			*again = append(*again, i)
		}
		st[k] = lockWrite
		if op == "RLock" {
			st[k] = lockRead
		}
	case "Unlock", "RUnlock":
		if want := map[string]int{"Unlock": lockWrite, "RUnlock": lockRead}[op]; st[k] == 0 {
			release[k] = true
			if _, isParam := k.root.(*ssa.Parameter); !isParam {
				if _, isFree := k.root.(*ssa.FreeVar); !isFree {
					*stray = append(*stray, i)
				}
			}
		} else if st[k] != want {
			*stray = append(*stray, i)
		}
		delete(st, k)
	case "TryLock", "TryRLock":
		// not known to be held
	case "":
		if c := l.callee(&x.Call); c != nil && l.fns[c] != nil {
			args := argsTo(x, c)
			for k := range l.fns[c].release {
				if t, ok := translate(k, c, args); ok {
					if st[t] == 0 {
						release[t] = true
					}
					delete(st, t)
				}
			}
			for k, m := range l.fns[c].exit {
				if l.fns[c].entry[k] != 0 {
					continue
				}
				if t, ok := translate(k, c, args); ok {
					if st[t] != 0 {
						*again = append(*again, i)
					}
					st[t] = m
				}
			}
		}
	}
}

// after gives what is held at the end of a block.
func (l *locks) after(b *ssa.BasicBlock, held map[ssa.Instruction]lockSet) lockSet {
	last := b.Instrs[len(b.Instrs)-1]
	st := held[last].clone()
	var x, y []ssa.Instruction
	l.step(last, st, &x, &y, map[lockKey]bool{})
	return st
}
