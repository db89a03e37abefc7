package main

// Effects. For every function: what memory, named by how it is reached from the function's
// parameters, captured variables, globals, received values or own allocations, it may read, write,
// store references in, or hand to others. Flow-insensitive inside a function, with summaries
// instantiated at each call (allocations of a callee are told apart by call), computed to a fixpoint
// over the whole repository.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// where something comes from: a root and the fields and elements passed on the way.
type orig struct {
	root any // *ssa.Parameter, *ssa.FreeVar, *ssa.Global, ssa.Instruction (allocation), inCall, given, sharedRoot
	path string
}

// an allocation made inside a call.
type inCall struct {
	at   ssa.Instruction
	root any
}

// something received from a channel there.
type given struct {
	at  ssa.Instruction
	typ string
}

// something held in a store shared by all routines.
type sharedRoot struct{}

type origs map[orig]bool

type effect struct {
	in    ssa.Instruction // the routine it happens in, when that is one started here or below
	loc   orig
	kind  string // read, write, append
	instr ssa.Instruction
	where *ssa.Function // where it happens
	pos   token.Pos

	locked bool   // reached through a field that only the holder of its struct's lock touches
	name   string // the fields it was last reached by
}

type escape struct {
	in    ssa.Instruction
	val   orig
	how   string
	instr ssa.Instruction
	where *ssa.Function
	pos   token.Pos
	typ   types.Type
}

type kept struct {
	loc orig
	val orig
}

type fnEff struct {
	vals    map[ssa.Value]origs
	content map[orig]origs
	effects map[effect]bool
	escapes map[escape]bool
	keeps   map[kept]bool // stores of references, into anything but own allocations
	results []origs
	known   map[effect]bool
}

type effects struct {
	p     *Prog
	fns   map[*ssa.Function]*fnEff
	all   []*ssa.Function
	grew  bool
	reads bool
	watch map[string]bool

	lockField map[string]bool // fields of structs with a lock
	linear    map[string]bool
	order     map[[3]ssa.Instruction]bool
}

var effectsCache *effects

func (p *Prog) effects() *effects {
	if effectsCache != nil {
		return effectsCache
	}
	e := &effects{p: p, fns: map[*ssa.Function]*fnEff{}, all: p.locks().all}
	e.lockField = map[string]bool{}
	for tn := range p.locks().types {
		st := tn.Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			e.lockField[tn.Pkg().Name()+"."+tn.Name()+"."+st.Field(i).Name()] = true
		}
	}
	for _, f := range e.all {
		e.fns[f] = &fnEff{vals: map[ssa.Value]origs{}, content: map[orig]origs{}, effects: map[effect]bool{}, escapes: map[escape]bool{}, keeps: map[kept]bool{}, known: map[effect]bool{},
			results: make([]origs, f.Signature.Results().Len())}
		for i := range e.fns[f].results {
			e.fns[f].results[i] = origs{}
		}
	}
	e.run()
	// now that it is known what may change, who reads it
	e.watch = map[string]bool{}
	for _, x := range e.fns {
		for ef := range x.effects {
			e.watch[lastField(ef.loc.path)] = true
		}
	}
	e.reads = true
	e.run()
	effectsCache = e
	return e
}

// run brings all summaries to a fixpoint, callees first.
func (e *effects) run() {
	g := e.p.graph()
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	gen := func(f *ssa.Function) *ssa.Function {
		if f.Origin() != nil {
			return f.Origin()
		}
		return f
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		f = gen(f)
		if seen[f] || e.fns[f] == nil {
			return
		}
		seen[f] = true
		for _, ed := range g.out[f] {
			to := gen(ed.to)
			visit(to)
			if callers[to] == nil {
				callers[to] = map[*ssa.Function]bool{}
			}
			callers[to][f] = true
		}
		order = append(order, f)
	}
	for _, f := range e.all {
		visit(f)
	}
	dirty := map[*ssa.Function]bool{}
	for _, f := range order {
		dirty[f] = true
	}
	for round := 0; len(dirty) > 0 && round < 60; round++ {
		for _, f := range order {
			if !dirty[f] {
				continue
			}
			delete(dirty, f)
			changed := false
			for i := 0; i < 30; i++ {
				e.grew = false
				e.pass(f)
				if !e.grew {
					break
				}
				changed = true
			}
			if changed {
				for c := range callers[f] {
					dirty[c] = true
				}
			}
		}
	}
}

// lastField is the last field on a path.
func lastField(path string) string {
	for {
		i := strings.LastIndex(path, "/")
		if i < 0 {
			return ""
		}
		if e := path[i+1:]; e != "[]" && e != "…" {
			return e
		}
		path = path[:i]
	}
}

const maxPath = 7

// nowhere is a path that no value of its type has.
const nowhere = "!"

var (
	fieldTypes = map[string]types.Type{}
	extended   = map[[2]string]string{}
)

// extend goes on along a path. A path its types do not allow leads nowhere.
func extend(path, elem string) string {
	if elem == "" || path == nowhere {
		return path
	}
	k := [2]string{path, elem}
	if r, ok := extended[k]; ok {
		return r
	}
	r := path
	for _, x := range strings.Split(elem, "/") {
		if strings.HasSuffix(r, "…") {
			break
		}
		if t := typeAt(r); t != nil && !allows(t, x) {
			r = nowhere
			break
		}
		if strings.Count(r, "/") >= maxPath {
			r += "/…"
			break
		}
		if x == "[]" && strings.HasSuffix(r, "/[]/[]") {
			continue
		}
		r += "/" + x
	}
	extended[k] = r
	return r
}

// typeAt is the type at the end of a path, where its fields tell.
func typeAt(path string) types.Type {
	i := strings.LastIndex(path, "/")
	if i < 0 {
		return nil
	}
	if path[i+1:] != "[]" {
		return fieldTypes[path[i+1:]]
	}
	t := typeAt(path[:i])
	if t == nil {
		return nil
	}
	if strings.HasSuffix(path[:i], "/[]") {
		return nil
	}
	switch u := deref(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// allows: a value of that type can have such a part.
func allows(t types.Type, elem string) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	switch u := deref(t).Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		if tn := namedOf(t); tn != nil {
			return strings.HasPrefix(elem, tn.Pkg().Name()+"."+tn.Name()+".")
		}
		return elem != "[]"
	case *types.Slice, *types.Array, *types.Map:
		return elem == "[]"
	case *types.Basic:
		return false
	default:
		_ = u
		return true
	}
}

func local(root any) bool {
	switch root.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, sharedRoot:
		return false
	}
	return true
}

// received gives what was received from a channel, also inside a call.
func received(root any) (given, bool) {
	for {
		switch r := root.(type) {
		case inCall:
			root = r.root
			continue
		case given:
			return r, true
		}
		return given{}, false
	}
}

// madeAt is the instruction at which something local comes about in its function.
func madeAt(root any) ssa.Instruction {
	switch r := root.(type) {
	case inCall:
		return r.at
	case given:
		return r.at
	case ssa.Instruction:
		return r
	}
	return nil
}

// resolve gives what is at a place in a function.
func (x *fnEff) resolve(o orig, out origs, seen map[orig]bool) {
	if o.path == nowhere {
		return
	}
	if !local(o.root) {
		out[o] = true
		return
	}
	if seen[o] || len(seen) > 200 {
		return
	}
	seen[o] = true
	found := false
	// what was stored there, or in what it is part of
	p := o.path
	for {
		if c, ok := x.content[orig{o.root, p}]; ok {
			rest := strings.TrimPrefix(strings.TrimPrefix(o.path, p), "/")
			for v := range c {
				found = true
				if rest == "" {
					out[v] = true
				} else {
					x.resolve(orig{v.root, extend(v.path, rest)}, out, seen)
				}
			}
		}
		i := strings.LastIndex(p, "/")
		if i < 0 {
			break
		}
		p = p[:i]
	}
	if !found {
		out[o] = true
	}
}

func (e *effects) add(set origs, o orig) {
	if o.path == nowhere {
		return
	}
	if !set[o] {
		set[o] = true
		e.grew = true
	}
}

func (e *effects) of(x *fnEff, v ssa.Value) origs {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return nil
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return origs{orig{v, ""}: true}
	}
	return x.vals[v]
}

func (e *effects) set(x *fnEff, v ssa.Value, os origs) {
	if len(os) == 0 {
		return
	}
	m := x.vals[v]
	if m == nil {
		m = origs{}
		x.vals[v] = m
	}
	for o := range os {
		e.add(m, o)
	}
}

func (e *effects) effect(x *fnEff, ef effect) {
	if ef.loc.path == nowhere || ef.kind == "read" && !e.reads {
		return
	}
	// one example for each instruction
	ef.locked = ef.locked || e.locked(ef.loc.path)
	if n := lastField(ef.loc.path); n != "" || ef.name == "" {
		ef.name = shownPath(ef.loc)
	}
	k := effect{in: ef.in, loc: ef.loc, kind: ef.kind, instr: ef.instr, locked: ef.locked}
	if !x.known[k] {
		x.known[k] = true
		x.effects[ef] = true
		e.grew = true
	}
}

func fieldElem(t types.Type, i int) string {
	n := "struct"
	if tn := namedOf(t); tn != nil {
		n = tn.Pkg().Name() + "." + tn.Name()
	}
	f := deref(t).Underlying().(*types.Struct).Field(i)
	n += "." + f.Name()
	if fieldTypes[n] == nil && !strings.HasPrefix(n, "struct.") {
		if g, ok := deref(t).(*types.Named); ok {
			f = g.Origin().Underlying().(*types.Struct).Field(i)
		}
		fieldTypes[n] = f.Type()
	}
	return n
}

// sub gives everything reached by one more step.
func (e *effects) sub(x *fnEff, os origs, elem string, load bool) origs {
	out := origs{}
	for o := range os {
		n := orig{o.root, extend(o.path, elem)}
		if load {
			x.resolve(n, out, map[orig]bool{})
		} else {
			out[n] = true
		}
	}
	return out
}

func (e *effects) store(x *fnEff, in ssa.Instruction, loc orig, vals origs) {
	if len(vals) == 0 || loc.path == nowhere {
		return
	}
	if e.locked(loc.path) {
		e.escaped(x, in.Parent(), in, vals, typeAt(loc.path), "published")
	}
	if !local(loc.root) {
		for v := range vals {
			if v.path == nowhere {
				continue
			}
			k := kept{loc, v}
			if !x.keeps[k] {
				x.keeps[k] = true
				e.grew = true
			}
		}
		return
	}
	c := x.content[loc]
	if c == nil {
		c = origs{}
		x.content[loc] = c
	}
	for v := range vals {
		if v != loc {
			e.add(c, v)
		}
	}
}

// mutators: functions of the standard library that change what an argument refers to.
var mutators = map[string]int{
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Sort": 0, "sort.Stable": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "maps.Copy": 0, "maps.DeleteFunc": 0,
	"slices.Delete": 0, "slices.Insert": 0, "slices.Compact": 0, "slices.DeleteFunc": 0,
	"io.ReadFull": 1, "io.ReadAtLeast": 1, "json.Unmarshal": 1, "json.Decoder.Decode": 1, "rand.Read": 0, "hex.Decode": 0, "hex.Encode": 0,
	"binary.bigEndian.PutUint64": 1, "binary.littleEndian.PutUint64": 1, "binary.bigEndian.PutUint32": 1, "binary.littleEndian.PutUint32": 1,
	"big.Int.FillBytes": 1, "net.TCPConn.Read": 1, "bufio.Reader.Read": 1,
}

// passing: functions of the standard library whose result refers to what an argument refers to.
var passing = map[string]bool{"slices.Delete": true, "slices.Insert": true, "slices.Compact": true, "slices.DeleteFunc": true, "slices.Grow": true, "slices.Clip": true, "bytes.TrimSpace": true, "bytes.TrimRight": true, "bytes.TrimLeft": true, "bytes.Trim": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true}

func (e *effects) pass(f *ssa.Function) {
	x := e.fns[f]
	own := func(i ssa.Instruction) origs { return origs{orig{i, ""}: true} }
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			touch := func(os origs, elem, kind string) {
				for o := range os {
					if kind == "read" && e.reads && !e.watched(extend(o.path, elem), in) {
						continue
					}
					e.effect(x, effect{loc: orig{o.root, extend(o.path, elem)}, kind: kind, instr: in, where: f, pos: in.Pos()})
				}
			}
			switch v := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				e.set(x, v.(ssa.Value), own(in))
			case *ssa.FieldAddr:
				e.set(x, v, e.sub(x, e.of(x, v.X), fieldElem(v.X.Type(), v.Field), false))
			case *ssa.Field:
				e.set(x, v, e.sub(x, e.of(x, v.X), fieldElem(v.X.Type(), v.Field), true))
			case *ssa.IndexAddr:
				e.set(x, v, e.sub(x, e.of(x, v.X), "[]", false))
			case *ssa.Index:
				e.set(x, v, e.sub(x, e.of(x, v.X), "[]", true))
			case *ssa.Lookup:
				touch(e.of(x, v.X), "[]", "read")
				if !plain(v.Type()) {
					e.set(x, v, e.sub(x, e.of(x, v.X), "[]", true))
				}
			case *ssa.Range:
				e.set(x, v, e.of(x, v.X))
			case *ssa.Next:
				touch(e.of(x, v.Iter), "[]", "read")
				e.set(x, v, e.sub(x, e.of(x, v.Iter), "[]", true))
			case *ssa.UnOp:
				switch v.Op {
				case token.MUL:
					touch(e.of(x, v.X), "", "read")
					e.set(x, v, e.sub(x, e.of(x, v.X), "", true))
				case token.ARROW:
					t := v.Type()
					if v.CommaOk {
						t = t.(*types.Tuple).At(0).Type()
					}
					e.set(x, v, origs{orig{given{in, t.String()}, ""}: true})
				}
			case *ssa.Slice:
				e.set(x, v, e.of(x, v.X))
			case *ssa.ChangeType:
				e.set(x, v, e.of(x, v.X))
			case *ssa.ChangeInterface:
				e.set(x, v, e.of(x, v.X))
			case *ssa.MakeInterface:
				e.set(x, v, e.of(x, v.X))
			case *ssa.TypeAssert:
				e.set(x, v, e.of(x, v.X))
			case *ssa.Convert:
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					e.set(x, v, own(in))
				}
			case *ssa.SliceToArrayPointer:
				e.set(x, v, e.of(x, v.X))
			case *ssa.Phi:
				for _, ed := range v.Edges {
					e.set(x, v, e.of(x, ed))
				}
			case *ssa.Extract:
				switch t := v.Tuple.(type) {
				case *ssa.Select:
					n := 0
					for _, s := range t.States {
						if s.Dir == types.RecvOnly {
							if n+2 == v.Index {
								e.set(x, v, origs{orig{given{t, v.Type().String()}, ""}: true})
							}
							n++
						}
					}
				case *ssa.Call:
					e.extract(x, t, v)
				case *ssa.Next:
					if v.Index > 0 {
						e.set(x, v, x.vals[t])
					}
				default:
					if v.Index == 0 {
						e.set(x, v, x.vals[v.Tuple])
					}
				}
			case *ssa.Store:
				touch(e.of(x, v.Addr), "", "write")
				if !plain(v.Val.Type()) {
					for o := range e.of(x, v.Addr) {
						e.store(x, in, o, e.of(x, v.Val))
					}
				}
			case *ssa.MapUpdate:
				touch(e.of(x, v.Map), "[]", "write")
				if !plain(v.Value.Type()) {
					for o := range e.of(x, v.Map) {
						e.store(x, in, orig{o.root, extend(o.path, "[]")}, e.of(x, v.Value))
					}
				}
			case *ssa.Send:
				e.escaped(x, f, in, e.of(x, v.X), v.X.Type(), "sent")
			case *ssa.Select:
				for _, s := range v.States {
					if s.Send != nil {
						e.escaped(x, f, in, e.of(x, s.Send), s.Send.Type(), "sent")
					}
				}
			case *ssa.MakeClosure:
				e.set(x, v, own(in))
				g := v.Fn.(*ssa.Function)
				if e.fns[g] == nil {
					g = e.p.boundTarget(g)
				}
				if g != nil && e.fns[g] != nil && !onlySpawned(v) {
					if g == v.Fn {
						e.call(x, f, in, g, nil, v.Bindings)
					} else {
						e.call(x, f, in, g, v.Bindings, nil)
					}
				}
				for i, bd := range v.Bindings {
					e.store(x, in, orig{in, fmt.Sprintf("/%d", i)}, e.of(x, bd))
				}
			case *ssa.Return:
				for i, r := range v.Results {
					if plain(r.Type()) {
						continue
					}
					for o := range e.of(x, r) {
						e.add(x.results[i], o)
					}
				}
			case *ssa.Go:
				e.anyCall(x, f, in, &v.Call)
			case *ssa.Call, *ssa.Defer:
				e.anyCall(x, f, in, in.(ssa.CallInstruction).Common())
			}
		}
	}
}

// watched: what is read there may change, or is a struct with a part that may.
func (e *effects) watched(path string, in ssa.Instruction) bool {
	if e.watch[lastField(path)] {
		return true
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	s, ok := v.Type().Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if e.watch[fieldElem(v.Type(), i)] {
			return true
		}
	}
	return false
}

// onlySpawned: the closure is only started as a routine of its own.
func onlySpawned(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		if g, ok := r.(*ssa.Go); !ok || g.Call.Value != m {
			return false
		}
	}
	return true
}

// escaped notes that something, and whatever it refers to, is now in reach of other routines.
func (e *effects) escaped(x *fnEff, f *ssa.Function, in ssa.Instruction, os origs, t types.Type, how string) {
	if t != nil && plain(t) {
		return
	}
	if t != nil && e.p.locks().syncType(deref(t)) {
		return
	}
	put := func(o orig, t types.Type) {
		k := escape{nil, o, how, in, f, in.Pos(), t}
		if !x.escapes[k] {
			x.escapes[k] = true
			e.grew = true
		}
	}
	for o := range os {
		if o.path == nowhere {
			continue
		}
		put(o, t)
		for v, vt := range x.reached(o) {
			if !local(v.root) {
				put(v, vt)
			}
		}
	}
}

// reached gives what is reached from something through what is stored in it.
func (x *fnEff) reached(o orig) map[orig]types.Type {
	seen := map[orig]types.Type{}
	var walk func(o orig)
	walk = func(o orig) {
		if !local(o.root) {
			return
		}
		for l, c := range x.content {
			if l.root == o.root && (l.path == o.path || strings.HasPrefix(l.path, o.path+"/")) {
				lt := typeAt(l.path)
				if lt != nil && plain(lt) {
					continue
				}
				for v := range c {
					if _, ok := seen[v]; !ok && v.path != nowhere {
						seen[v] = lt
						walk(v)
					}
				}
			}
		}
	}
	walk(o)
	return seen
}

// locked: the last field on the path that belongs to a struct with a lock is followed by containers only.
func (e *effects) locked(path string) bool {
	parts := strings.Split(path, "/")
	for i := len(parts) - 1; i > 0; i-- {
		switch parts[i] {
		case "[]", "queue.Queue.q", "set.Set.s":
			continue
		}
		t, _, _ := strings.Cut(parts[i], ".")
		_ = t
		return e.lockField[parts[i]]
	}
	return false
}

func extName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	n := shortName(f)
	return n
}

func (e *effects) anyCall(x *fnEff, f *ssa.Function, in ssa.Instruction, com *ssa.CallCommon) {
	val, _ := in.(ssa.Value)
	own := origs{orig{in, ""}: true}
	touch := func(os origs, elem, kind string) {
		for o := range os {
			e.effect(x, effect{loc: orig{o.root, extend(o.path, elem)}, kind: kind, instr: in, where: f, pos: in.Pos()})
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			kind := "append"
			if s, ok := com.Args[0].(*ssa.Slice); ok && s.High != nil && s.Max == nil {
				kind = "write" // over what comes after the part kept
			}
			touch(e.of(x, com.Args[0]), "[]", kind)
			if val != nil {
				e.set(x, val, e.of(x, com.Args[0]))
				e.set(x, val, own)
				if len(com.Args) > 1 {
					if s, ok := com.Args[1].Type().Underlying().(*types.Slice); ok && !plain(s.Elem()) {
						e.store(x, in, orig{in, "/[]"}, e.sub(x, e.of(x, com.Args[1]), "[]", true))
						e.store(x, in, orig{in, "/[]"}, e.sub(x, e.of(x, com.Args[0]), "[]", true))
						for o := range e.of(x, com.Args[0]) {
							e.store(x, in, orig{o.root, extend(o.path, "[]")}, e.sub(x, e.of(x, com.Args[1]), "[]", true))
						}
					}
				}
			}
		case "copy":
			touch(e.of(x, com.Args[0]), "[]", "write")
			touch(e.of(x, com.Args[1]), "[]", "read")
			if s, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && !plain(s.Elem()) {
				for o := range e.of(x, com.Args[0]) {
					e.store(x, in, orig{o.root, extend(o.path, "[]")}, e.sub(x, e.of(x, com.Args[1]), "[]", true))
				}
			}
		case "delete", "clear":
			touch(e.of(x, com.Args[0]), "[]", "write")
		case "len":
			if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
				touch(e.of(x, com.Args[0]), "[]", "read")
			}
		}
		return
	}
	if g := com.StaticCallee(); g != nil {
		if g.Origin() != nil {
			g = g.Origin()
		}
		if e.fns[g] != nil {
			var bind []ssa.Value
			if m, ok := com.Value.(*ssa.MakeClosure); ok {
				bind = m.Bindings
			}
			e.call(x, f, in, g, com.Args, bind)
			return
		}
		name := extName(g)
		if i, ok := mutators[name]; ok && i < len(com.Args) {
			touch(e.of(x, com.Args[i]), "[]", "write")
		}
		switch name {
		case "sync.Map.Load", "sync.Map.LoadOrStore":
			if val != nil {
				e.set(x, val, origs{orig{sharedRoot{}, ""}: true})
			}
			return
		case "sync.Map.Store":
			e.escaped(x, f, in, e.of(x, com.Args[2]), com.Args[2].Type(), "kept in a shared store")
			return
		}
		if passing[name] && val != nil {
			e.set(x, val, e.of(x, com.Args[0]))
		}
		if val != nil && !plain(val.Type()) {
			e.set(x, val, own)
		}
		return
	}
	if com.IsInvoke() {
		n := 0
		for _, ed := range e.p.graph().out[f] {
			if ed.instr == in && (ed.kind == "call" || ed.kind == "defer") {
				g := ed.to
				if g.Origin() != nil {
					g = g.Origin()
				}
				if e.fns[g] != nil && g.Name() == com.Method.Name() {
					n++
					e.call(x, f, in, g, append([]ssa.Value{com.Value}, com.Args...), nil)
				}
			}
		}
		if n == 0 && val != nil {
			e.set(x, val, own)
		}
		return
	}
	// a function value: whatever it may be
	n := 0
	for _, ed := range e.p.graph().out[f] {
		if ed.instr == in && (ed.kind == "call" || ed.kind == "defer" || ed.kind == "go") {
			g := ed.to
			if g.Origin() != nil {
				g = g.Origin()
			}
			if e.fns[g] != nil && len(g.FreeVars) == 0 {
				n++
				e.call(x, f, in, g, com.Args, nil)
			}
		}
	}
	// an unknown function: what it gives is taken to be new
	if val != nil && !plain(val.Type()) {
		e.set(x, val, own)
	}
}

// named gives the caller's names for a callee's.
func (e *effects) named(x *fnEff, in ssa.Instruction, g *ssa.Function, args, bind []ssa.Value, o orig, load bool) origs {
	var base origs
	switch r := o.root.(type) {
	case *ssa.Parameter:
		for i, p := range g.Params {
			if p == r && i < len(args) {
				base = e.of(x, args[i])
			}
		}
	case *ssa.FreeVar:
		for i, v := range g.FreeVars {
			if v == r && i < len(bind) {
				base = e.of(x, bind[i])
				if o.path != "" {
					// what is in the captured variable
					base = e.sub(x, base, "", true)
				}
			}
		}
	case *ssa.Global, given, sharedRoot:
		return origs{o: true}
	default:
		depth := 0
		inner := o.root
		for r := o.root; ; depth++ {
			c, ok := r.(inCall)
			if !ok {
				break
			}
			r = c.root
			inner = r
		}
		if depth >= 3 {
			base = origs{orig{inCall{in, inner}, ""}: true}
		} else {
			base = origs{orig{inCall{in, o.root}, ""}: true}
		}
	}
	if o.path == "" && !load {
		return base
	}
	out := origs{}
	elems := strings.TrimPrefix(o.path, "/")
	// go step by step: each step but the last is read
	for b := range base {
		cur := origs{b: true}
		parts := []string{}
		if elems != "" {
			parts = strings.Split(elems, "/")
		}
		for i, p := range parts {
			nx := origs{}
			for c := range cur {
				n := orig{c.root, extend(c.path, p)}
				if i < len(parts)-1 || load {
					x.resolve(n, nx, map[orig]bool{})
				} else {
					nx[n] = true
				}
			}
			cur = nx
		}
		for c := range cur {
			out[c] = true
		}
	}
	return out
}

func (e *effects) call(x *fnEff, f *ssa.Function, in ssa.Instruction, g *ssa.Function, args, bind []ssa.Value) {
	y := e.fns[g]
	var thread ssa.Instruction
	if _, ok := in.(*ssa.Go); ok || e.handler(g) && isClosure(in) {
		thread = in
	}
	tag := func(t ssa.Instruction) ssa.Instruction {
		if t == nil {
			return thread
		}
		return t
	}
	// the allocations it made that are reached from what it keeps and gives back
	need := map[any]bool{}
	var reach func(o orig)
	reach = func(o orig) {
		if !local(o.root) || need[o.root] {
			return
		}
		need[o.root] = true
		for l, c := range y.content {
			if l.root == o.root {
				for v := range c {
					reach(v)
				}
			}
		}
	}
	for k := range y.keeps {
		reach(k.val)
	}
	keptRoots := map[any]bool{}
	for r := range need {
		keptRoots[r] = true
	}
	for _, rs := range y.results {
		for o := range rs {
			reach(o)
		}
	}
	// what a routine started there does matters to the caller if what it does it to is given back after that
	back := func(ef effect) bool {
		if keptRoots[ef.loc.root] {
			return true
		}
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !e.after(ef.instr, r, madeAt(ef.loc.root)) {
				continue
			}
			for _, v := range r.Results {
				for o := range e.of(y, v) {
					if o.root == ef.loc.root {
						return true
					}
					for in := range y.reached(o) {
						if in.root == ef.loc.root {
							return true
						}
					}
				}
			}
		}
		return false
	}
	names := map[orig]origs{}
	named := func(o orig, load bool) origs {
		k := o
		if load {
			k.path += "*"
		}
		if r, ok := names[k]; ok {
			return r
		}
		r := e.named(x, in, g, args, bind, o, load)
		names[k] = r
		return r
	}
	done := map[effect]bool{}
	for ef := range y.effects {
		k := effect{in: ef.in, loc: ef.loc, kind: ef.kind, locked: ef.locked}
		if done[k] || local(ef.loc.root) && (ef.in == nil || !need[ef.loc.root] || !back(ef)) {
			continue
		}
		done[k] = true
		for o := range named(ef.loc, false) {
			e.effect(x, effect{tag(ef.in), o, ef.kind, in, ef.where, ef.pos, ef.locked, ef.name})
		}
	}
	type esc struct {
		in  ssa.Instruction
		val orig
		how string
	}
	sent := map[esc]bool{}
	for k := range y.escapes {
		if local(k.val.root) || sent[esc{k.in, k.val, k.how}] {
			continue
		}
		sent[esc{k.in, k.val, k.how}] = true
		for o := range named(k.val, true) {
			if o.path == nowhere {
				continue
			}
			n := escape{tag(k.in), o, k.how, in, k.where, k.pos, k.typ}
			if !x.escapes[n] {
				x.escapes[n] = true
				e.grew = true
			}
			if local(o.root) && thread == nil {
				e.escaped(x, f, in, origs{o: true}, k.typ, k.how)
			}
		}
	}
	for k := range y.keeps {
		for l := range named(k.loc, false) {
			e.store(x, in, l, named(k.val, true))
		}
	}
	for l, c := range y.content {
		if !need[l.root] {
			continue
		}
		for nl := range named(orig{l.root, ""}, false) {
			loc := orig{nl.root, extend(nl.path, strings.TrimPrefix(l.path, "/"))}
			for v := range c {
				e.store(x, in, loc, named(v, true))
			}
		}
	}
	if v, ok := in.(ssa.Value); ok && len(y.results) == 1 {
		if _, isClosure := in.(*ssa.MakeClosure); !isClosure {
			for o := range y.results[0] {
				e.set(x, v, e.named(x, in, g, args, bind, o, true))
			}
		}
	}
}

// handler: net/http calls it, in routines of its own.
func (e *effects) handler(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if f.Signature.Params().At(i).Type().String() == "net/http.ResponseWriter" {
			return true
		}
	}
	return false
}

func (e *effects) extract(x *fnEff, c *ssa.Call, v *ssa.Extract) {
	if plain(v.Type()) {
		return
	}
	do := func(g *ssa.Function, args, bind []ssa.Value) {
		y := e.fns[g]
		if v.Index < len(y.results) {
			for o := range y.results[v.Index] {
				e.set(x, v, e.named(x, c, g, args, bind, o, true))
			}
		}
	}
	if g := c.Call.StaticCallee(); g != nil {
		if g.Origin() != nil {
			g = g.Origin()
		}
		if e.fns[g] != nil {
			var bind []ssa.Value
			if m, ok := c.Call.Value.(*ssa.MakeClosure); ok {
				bind = m.Bindings
			}
			do(g, c.Call.Args, bind)
			return
		}
		if n := extName(g); n == "sync.Map.Load" || n == "sync.Map.LoadOrStore" {
			if v.Index == 0 {
				e.set(x, v, origs{orig{sharedRoot{}, ""}: true})
			}
			return
		}
	} else if c.Call.IsInvoke() {
		n := 0
		for _, ed := range e.p.graph().out[c.Parent()] {
			if ed.instr == c && ed.kind == "call" && ed.to.Name() == c.Call.Method.Name() {
				g := ed.to
				if g.Origin() != nil {
					g = g.Origin()
				}
				if e.fns[g] != nil {
					n++
					do(g, append([]ssa.Value{c.Call.Value}, c.Call.Args...), nil)
				}
			}
		}
		if n > 0 {
			return
		}
	}
	e.set(x, v, origs{orig{c, ""}: true})
}

func (o orig) String() string {
	r := ""
	switch x := o.root.(type) {
	case *ssa.Parameter:
		r = "parameter " + x.Name()
	case *ssa.FreeVar:
		r = "captured " + x.Name()
	case *ssa.Global:
		r = "global " + x.Name()
	case given:
		r = "received " + strings.ReplaceAll(x.typ, modPath+"/", "")
	case sharedRoot:
		r = "shared store"
	case inCall:
		r = "made in a call"
	case ssa.Value:
		r = "made as " + x.Name()
	default:
		r = "made here"
	}
	return r + o.path
}

func (e *effects) dump(f *ssa.Function) {
	x := e.fns[f]
	var out []string
	for k := range x.effects {
		if k.kind != "read" && !local(k.loc.root) {
			out = append(out, fmt.Sprintf("%s %s in %s", k.kind, k.loc, shortName(k.where)))
		}
	}
	for k := range x.escapes {
		out = append(out, fmt.Sprintf("escape %s %s in %s", k.how, k.val, shortName(k.where)))
	}
	for i, r := range x.results {
		for o := range r {
			out = append(out, fmt.Sprintf("result %d %s", i, o))
		}
	}
	sort.Strings(out)
	for _, s := range out {
		fmt.Println("  ", s)
	}
}

func isClosure(in ssa.Instruction) bool {
	_, ok := in.(*ssa.MakeClosure)
	return ok
}
