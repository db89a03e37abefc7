package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func strconvUnquote(s string) (string, error) { return strconv.Unquote(s) }

// fieldName gives the canonical name of a struct field. Exported fields keep their name; an
// unexported field is identified by its type within the struct, so renaming it changes nothing.
func (p *Prog) fieldName(typ types.Type, i int) string {
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		typ = pt.Elem()
	}
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprint(i)
	}
	f := s.Field(i)
	if f.Exported() || f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), modPath) {
		return f.Name()
	}
	n, ok := typ.(*types.Named)
	if !ok {
		return f.Name()
	}
	if n.Origin() != nil {
		if os, ok := n.Origin().Underlying().(*types.Struct); ok {
			s = os
			f = s.Field(i)
		}
	}
	tab := fieldTable[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	if tab == nil {
		return f.Name()
	}
	ts := typeStr(f.Type())
	cnt := 0
	for j := 0; j < s.NumFields(); j++ {
		if typeStr(s.Field(j).Type()) == ts {
			cnt++
		}
	}
	if cnt == 1 && tab[ts] != "" {
		return tab[ts]
	}
	return f.Name()
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var objSeqTypes = map[string]types.Type{}

// newObj gives the abstract object allocated by instr in the present context.
func (in *Interp) newObj(fr *frame, instr ssa.Instruction, label string, typ types.Type) *Term {
	args := []*Term{mkSym(fr.key + "/" + fr.fi.site[instr])}
	args = append(args, in.loops...)
	if label == "" {
		label = "new"
	}
	o := mk("obj", label, args...)
	objTypes[o] = typ
	return o
}

func (in *Interp) clearObj(st *State, o *Term) {
	for k := range st.mem {
		if rootObj(k) == o {
			delete(st.mem, k)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// did records an effect that must have happened on this path.
func (in *Interp) did(st *State, name string, args ...*Term) {
	st.facts[mk("did", name, args...)] = true
}

func (in *Interp) sink(st *State, kind, name string, args []*Term, res *Term, pos token.Pos) {
	if in.quiet > 0 {
		return
	}
	s := Sink{kind: kind, name: name, args: args, res: res, pos: pos, loops: append([]*Term(nil), in.loops...)}
	s.facts = make(map[*Term]bool, len(st.facts))
	for f := range st.facts {
		s.facts[f] = true
	}
	s.mem = make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		s.mem[k] = v
	}
	for _, f := range in.stack {
		s.stack = append(s.stack, shortName(f.fn))
		s.fns = append(s.fns, f.fn)
	}
	in.sinks = append(in.sinks, s)
}

// siteSym identifies a call occurrence: the call string plus the enclosing loop iterations.
func (in *Interp) siteSym(fr *frame, instr ssa.Instruction) *Term {
	args := append([]*Term(nil), in.loops...)
	return mk("site", fr.key+"/"+fr.fi.site[instr], args...)
}

func (in *Interp) step(fr *frame, instr ssa.Instruction, ps *PS) []*PS {
	one := []*PS{ps}
	st := ps.st
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		typ := deref(x.Type())
		lbl := typeLabel(typ)
		o := in.newObj(fr, x, lbl, typ)
		in.clearObj(st, o)
		ps.env[x] = o
	case *ssa.Store:
		a := in.val(ps, x.Addr)
		v := in.val(ps, x.Val)
		loc := locOf(a)
		if in.fatal != nil && in.fatal(st, loc, v) {
			return nil
		}
		if rootObj(loc) == nil {
			in.sink(st, "store", loc.String(), []*Term{loc, in.resolve(st, v)}, v, x.Pos())
			in.did(st, "store", loc, v)
		}
		in.store(st, loc, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			loc := locOf(in.val(ps, x.X))
			if loc.Op == "glob" {
				if c := in.p.globalConst(loc.Aux); c != nil {
					if _, ok := st.mem[loc]; !ok {
						ps.env[x] = c
						return one
					}
				}
			}
			ps.env[x] = noFlag(in.load(st, loc, x.Type()), x.Type())
		case token.NOT:
			ps.env[x] = mkNot(in.val(ps, x.X))
		case token.SUB:
			ps.env[x] = mkSub(mkInt(0), in.val(ps, x.X), isUnsigned(x.Type()))
		case token.ARROW:
			ch := in.val(ps, x.X)
			in.sink(st, "recv", "recv", []*Term{ch}, nil, x.Pos())
			in.did(st, "recv", ch)
			v := mk("recv", "", ch)
			if x.CommaOk {
				v = mk("tuple", "", v, mk("recvok", "", ch, in.siteSym(fr, x)))
			}
			ps.env[x] = v
		default:
			ps.env[x] = mk("un", x.Op.String(), in.resolve(st, in.val(ps, x.X)))
		}
	case *ssa.BinOp:
		a, b := in.val(ps, x.X), in.val(ps, x.Y)
		// pointer and interface comparisons with nil look at the reference itself
		if (x.Op == token.EQL || x.Op == token.NEQ) && (a.Op == "nil" || b.Op == "nil") {
			r := a
			if a.Op == "nil" {
				r = b
			}
			c := in.nilTest(st, r)
			if x.Op == token.NEQ {
				c = mkNot(c)
			}
			ps.env[x] = c
			return one
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			c := mkEq(a, b)
			if x.Op == token.NEQ {
				c = mkNot(c)
			}
			ps.env[x] = c
			return one
		}
		v := in.binop(st, x.Op, a, b, x.X.Type())
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			// a narrow number wraps: it is not the number it would be
			if n, ok := basicSize(x.Type()); ok && n < 64 {
				if k, ok := isInt(v); !ok || k < 0 || k >= 1<<uint(n-1) {
					v = mk("conv", typeStr(x.Type().Underlying()), v)
				}
			}
		}
		ps.env[x] = v
	case *ssa.FieldAddr:
		ps.env[x] = mkAddr(mk("fld", in.p.fieldName(deref(x.X.Type()), x.Field), locOf(in.val(ps, x.X))))
	case *ssa.Field:
		ps.env[x] = noFlag(mkField(in.val(ps, x.X), in.p.fieldName(x.X.Type(), x.Field)), x.Type())
	case *ssa.IndexAddr:
		b := in.val(ps, x.X)
		i := in.val(ps, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			l := mk("elem", "", locOf(b), i)
			arrayLocs[l] = true
			ps.env[x] = mkAddr(l)
		} else {
			ps.env[x] = mkAddr(mk("elem", "", b, i))
		}
	case *ssa.Index:
		ps.env[x] = mkElem(in.val(ps, x.X), in.val(ps, x.Index))
	case *ssa.Lookup:
		m := in.val(ps, x.X)
		k := in.resolve(st, in.val(ps, x.Index))
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok { // string index
			ps.env[x] = mkElem(m, k)
			return one
		}
		c := in.content(st, m)
		v := mkLookup(c, k)
		if x.CommaOk {
			ps.env[x] = mk("tuple", "", v, mkHas(c, k))
		} else {
			ps.env[x] = v
		}
	case *ssa.Slice:
		ps.env[x] = in.sliceOp(fr, ps, x)
	case *ssa.MakeSlice:
		n := in.val(ps, x.Len)
		if k, ok := isInt(n); ok && k == 0 {
			ps.env[x] = mk("list", "")
			if _, ok := isInt(in.val(ps, x.Cap)); !ok {
				in.sink(st, "make", "slice", []*Term{n, in.val(ps, x.Cap)}, ps.env[x], x.Pos())
			}
			return one
		}
		o := in.newObj(fr, x, "slice", nil)
		st.mem[contOf(o)] = mk("make", "", n)
		ps.env[x] = o
		in.sink(st, "make", "slice", []*Term{n, in.val(ps, x.Cap)}, o, x.Pos())
	case *ssa.MakeMap:
		o := in.newObj(fr, x, "map", nil)
		st.mem[contOf(o)] = mk("emptymap", "")
		ps.env[x] = o
		if x.Reserve != nil {
			in.sink(st, "make", "map", []*Term{in.val(ps, x.Reserve)}, o, x.Pos())
		}
	case *ssa.MakeChan:
		ps.env[x] = mk("chan", in.val(ps, x.Size).String(), in.siteSym(fr, x))
	case *ssa.MapUpdate:
		m := in.val(ps, x.Map)
		k := in.resolve(st, in.val(ps, x.Key))
		v := in.val(ps, x.Value)
		c := in.content(st, m)
		rv := in.resolve(st, v)
		in.sink(st, "mapput", "mapput", []*Term{m, k, rv, c}, v, x.Pos())
		in.did(st, "mapput", m, k, rv)
		st.mem[contOf(m)] = mk("mapput", "", c, k, v)
	case *ssa.Convert:
		ps.env[x] = in.convert(st, in.val(ps, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		ps.env[x] = in.val(ps, x.X)
	case *ssa.MakeInterface:
		v := in.val(ps, x.X)
		ps.env[x] = v
		if t, ok := in.dynType[v]; !ok {
			in.dynType[v] = x.X.Type()
		} else if t != nil && !types.Identical(t, x.X.Type()) {
			in.dynType[v] = nil
		}
		if v.Op == "nil" && types.Identical(x.Type().Underlying(), types.Universe.Lookup("error").Type().Underlying()) {
			ps.env[x] = mk("nonnil", "typednil")
		}
	case *ssa.ChangeInterface:
		ps.env[x] = in.val(ps, x.X)
	case *ssa.SliceToArrayPointer:
		ps.env[x] = mkAddr(in.resolve(st, in.val(ps, x.X)))
	case *ssa.TypeAssert:
		v := in.val(ps, x.X)
		if x.CommaOk {
			ps.env[x] = mk("tuple", "", v, mk("isType", typeStr(x.AssertedType), in.resolve(st, v)))
		} else {
			ps.env[x] = v
		}
	case *ssa.Extract:
		t := in.val(ps, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			ps.env[x] = t.Args[x.Index]
		} else {
			ps.env[x] = mk("res", fmt.Sprint(x.Index), t)
		}
	case *ssa.Range:
		r := in.val(ps, x.X)
		ps.env[x] = mk("range", "", in.content(st, r))
	case *ssa.Next:
		r := in.val(ps, x.Iter)
		var m *Term = r
		if r.Op == "range" {
			m = r.Args[0]
		}
		idx := mk("idx", "?", mkSym(fr.key))
		if len(in.loops) > 0 {
			idx = in.loops[len(in.loops)-1]
		}
		if x.IsString {
			ps.env[x] = mk("tuple", "", mkLt(idx, mk("len", "", m), false), idx, mk("rune", "", m, idx))
			return one
		}
		k := mkElem(mkKeys(m), idx)
		ps.env[x] = mk("tuple", "", mkLt(idx, mkLen(mkKeys(m)), false), k, mkLookup(m, k))
	case *ssa.Send:
		ch, v := in.val(ps, x.Chan), in.val(ps, x.X)
		in.sink(st, "send", "send", []*Term{ch, in.resolve(st, v)}, nil, x.Pos())
		in.did(st, "send", ch, in.resolve(st, v))
	case *ssa.Go:
		name, args := in.callDesc(ps, &x.Call)
		in.sink(st, "go", name, args, nil, x.Pos())
		in.did(st, "go:"+name, args...)
		if in.goIn != nil && args[0].Op == "closure" {
			in.goIn(st, args[0], args[1:], x.Pos())
		}
	case *ssa.Defer:
		d := deferred{call: x}
		if !x.Call.IsInvoke() {
			d.fn = in.val(ps, x.Call.Value)
		} else {
			d.fn = in.val(ps, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.val(ps, a))
		}
		ps.defers = append(ps.defers, d)
		if d.recovers() {
			prev := st.mem[guardP]
			if prev == nil {
				prev = tNil
			}
			st.mem[guardP] = mk("guard", fr.key, prev)
		}
	case *ssa.RunDefers:
		return in.runDefers(fr, ps)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var b []*Term
		for _, a := range x.Bindings {
			b = append(b, in.val(ps, a))
		}
		closureFn[fn.String()] = fn
		ps.env[x] = mk("closure", fn.String(), b...)
	case *ssa.Select:
		return in.selectOp(fr, ps, x)
	case *ssa.Call:
		var fnT *Term
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			fnT = in.val(ps, x.Call.Value)
		}
		var args []*Term
		for _, a := range x.Call.Args {
			args = append(args, in.val(ps, a))
		}
		var out []*PS
		for _, r := range in.doCall(fr, ps, &x.Call, x, fnT, args, x.Pos()) {
			r.ps.env[x] = r.val
			out = append(out, r.ps)
		}
		return out
	default:
		panic(fmt.Sprintf("unhandled instruction %T in %s", instr, fr.fn))
	}
	return one
}

// nilTest says whether a reference is nil.
func (in *Interp) nilTest(st *State, r *Term) *Term {
	switch r.Op {
	case "nil", "zero":
		return tTrue
	case "obj", "closure", "func", "addr", "list", "nonnil", "chan", "concat", "map":
		return tFalse
	}
	if st.facts[mk("nonnilref", "", r)] {
		return tFalse
	}
	return mkEq(r, tNil)
}

func (in *Interp) callDesc(ps *PS, c *ssa.CallCommon) (string, []*Term) {
	var args []*Term
	name := ""
	if c.IsInvoke() {
		name = ifaceName(c.Value.Type()) + "." + c.Method.Name()
		args = append(args, in.val(ps, c.Value))
	} else if f := c.StaticCallee(); f != nil {
		name = shortName(f)
		if f.Parent() != nil {
			name = "func literal"
			args = append(args, in.val(ps, c.Value))
		}
	} else {
		name = "func value"
		args = append(args, in.val(ps, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, in.resolve(ps.st, in.val(ps, a)))
	}
	return name, args
}

func (in *Interp) sliceOp(fr *frame, ps *PS, x *ssa.Slice) *Term {
	st := ps.st
	b := in.val(ps, x.X)
	lo, hi := tNil, tNil
	if x.Low != nil {
		lo = in.val(ps, x.Low)
	}
	if x.High != nil {
		hi = in.val(ps, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := pt.Elem().Underlying().(*types.Array)
		loc := locOf(b)
		al, isAlloc := x.X.(*ssa.Alloc)
		if isAlloc && (al.Comment == "varargs" || al.Comment == "slicelit" || al.Comment == "makeslice") {
			if al.Comment == "makeslice" {
				o := in.newObj(fr, x, "slice", nil)
				n := mkInt(arr.Len())
				if hi.Op != "nil" {
					n = hi
				}
				if k, ok := isInt(n); ok && k == 0 {
					return mk("list", "")
				}
				st.mem[contOf(o)] = mk("make", "", n)
				return o
			}
			var l []*Term
			for i := int64(0); i < arr.Len(); i++ {
				e := mk("elem", "", loc, mkInt(i))
				arrayLocs[e] = true
				l = append(l, in.load(st, e, arr.Elem()))
			}
			return mk("list", "", l...)
		}
		as := mk("aslice", "", loc)
		if lo.Op == "nil" && hi.Op == "nil" {
			return as
		}
		return mkSlice(as, lo, hi)
	}
	if lo.Op == "nil" && hi.Op == "nil" {
		return b
	}
	if b.Op == "obj" || st.mem[contOf(b)] != nil {
		return mkSlice(in.content(st, b), lo, hi)
	}
	return mkSlice(b, lo, hi)
}

func basicSize(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	case types.Int32, types.Uint32:
		return 32, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int8, types.Uint8:
		return 8, true
	}
	return 0, false
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type) *Term {
	fs, fi := basicSize(from)
	ts, ti := basicSize(to)
	switch {
	case fi && ti:
		if ts < fs {
			if n, ok := isInt(v); ok && n >= 0 && n < 1<<uint(ts-1) {
				return v
			}
			return mk("conv", typeStr(to.Underlying()), v)
		}
		return v
	case fi && isFloat(to):
		if n, ok := isInt(v); ok && v.Op == "int" {
			return mk("flt", fmt.Sprint(n))
		}
		return mk("float", "", v)
	case isFloat(from) && ti:
		return mk("trunc", "", v)
	}
	if _, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		return v
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		if _, ok := to.Underlying().(*types.Array); ok {
			return in.resolve(st, v)
		}
		return in.resolve(st, v)
	}
	return v
}

func (in *Interp) selectOp(fr *frame, ps *PS, x *ssa.Select) []*PS {
	var out []*PS
	n := len(x.States)
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	emit := func(i int) {
		p := ps.clone()
		if in.choose != nil {
			var ch *Term
			if i >= 0 {
				ch = in.val(p, x.States[i].Chan)
			}
			if !in.choose(ch) {
				return
			}
		}
		tup := []*Term{mkInt(int64(i)), tTrue}
		r := 0
		var vals []*Term
		for j, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if j == i {
				vals = append(vals, mk("recv", "", in.val(p, s.Chan)))
			} else {
				vals = append(vals, tZero)
			}
			r++
		}
		tup = append(tup, vals...)
		if i >= 0 {
			s := x.States[i]
			ch := in.val(p, s.Chan)
			if s.Dir == types.RecvOnly {
				p.st.facts[mk("did", "recv", ch)] = true
				in.sink(p.st, "recv", "select", []*Term{ch}, nil, x.Pos())
			} else {
				v := in.resolve(p.st, in.val(p, s.Send))
				p.st.facts[mk("did", "send", ch, v)] = true
				in.sink(p.st, "send", "select", []*Term{ch, v}, nil, x.Pos())
			}
		} else {
			p.st.facts[mk("selectdefault", "", in.siteSym(fr, x))] = true
		}
		p.env[x] = mk("tuple", "", tup...)
		out = append(out, p)
	}
	for i := 0; i < n; i++ {
		emit(i)
	}
	if !x.Blocking {
		emit(-1)
	}
	return out
}

// globalConst resolves a package-level variable only ever assigned a constant by its initialiser.
func (p *Prog) globalConst(name string) *Term {
	if p.globs == nil {
		p.globs = map[string]*Term{}
		bad := map[string]bool{}
		for f := range p.fns {
			p.scanGlobals(f, bad)
		}
		for _, sp := range p.SPkgs {
			if f := sp.Func("init"); f != nil && !p.fns[f] {
				p.scanGlobals(f, bad)
			}
		}
		for k := range bad {
			delete(p.globs, k)
		}
	}
	return p.globs[name]
}

func (p *Prog) scanGlobals(f *ssa.Function, bad map[string]bool) {
	init := f.Name() == "init" && f.Parent() == nil
	for _, b := range f.Blocks {
		for _, instr := range b.Instrs {
			s, ok := instr.(*ssa.Store)
			if !ok {
				// a global whose address is taken otherwise is not constant
				for _, op := range instr.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := instr.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := instr.(*ssa.DebugRef); ok {
							continue
						}
						bad[globName(g)] = true
					}
				}
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			n := globName(g)
			if !init {
				bad[n] = true
				continue
			}
			if c, ok := s.Val.(*ssa.Const); ok {
				if p.globs[n] != nil {
					bad[n] = true
				}
				p.globs[n] = constTerm(c)
			} else if types.Identical(s.Val.Type().Underlying(), types.Universe.Lookup("error").Type().Underlying()) {
				p.globs[n] = mk("nonnil", n)
			} else {
				bad[n] = true
			}
		}
	}
}

// isFalse: a flag that is false, also when it was never set.
func isFalse(v *Term) bool { return v == tFalse || v == tZero }

// noFlag: a flag never set is false.
func noFlag(v *Term, t types.Type) *Term {
	if b, ok := t.Underlying().(*types.Basic); ok && v == tZero && b.Info()&types.IsBoolean != 0 {
		return tFalse
	}
	return v
}
