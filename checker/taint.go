package main

// Where a secret may go: a flow-insensitive propagation over the typed program, through locals,
// fields, parameters, results, closures and globals.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fieldKey struct {
	typ   string
	field int
}

type taintUse struct {
	in   *ssa.Function
	name string // external function, or a kind of use
	arg  int
	call ssa.CallInstruction
	pos  token.Pos
}

type taint struct {
	p      *Prog
	vals   map[ssa.Value]bool
	fields map[fieldKey]string
	rets   map[*ssa.Function]map[int]bool
	todo   []ssa.Value
	uses   map[string]taintUse
	// passes tells whether an external function's result still holds the secret.
	passes func(name string) bool
	// stops tells that a repository function ends the flow (its uses are judged on their own).
	stops func(name string) bool
	// carriers follows whole values of types that hold the secret in a field.
	carriers map[string]bool
}

func newTaint(p *Prog) *taint {
	return &taint{p: p, vals: map[ssa.Value]bool{}, fields: map[fieldKey]string{}, rets: map[*ssa.Function]map[int]bool{}, uses: map[string]taintUse{}, carriers: map[string]bool{}}
}

func (t *taint) add(v ssa.Value) {
	if v == nil || t.vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	t.vals[v] = true
	t.todo = append(t.todo, v)
}

func structOf(typ types.Type) (*types.Struct, string) {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	s, _ := typ.Underlying().(*types.Struct)
	return s, types.TypeString(typ, nil)
}

func (t *taint) addField(typ types.Type, i int) {
	s, n := structOf(typ)
	if s == nil {
		return
	}
	k := fieldKey{n, i}
	if t.fields[k] != "" {
		return
	}
	t.fields[k] = s.Field(i).Name()
	t.carriers[n] = true
	// types holding such a type are carriers too
	for changed := true; changed; {
		changed = false
		for _, q := range t.p.All {
			sc := q.Types.Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok || t.carriers[types.TypeString(tn.Type(), nil)] {
					continue
				}
				for j := 0; j < st.NumFields(); j++ {
					if t.carries(st.Field(j).Type()) {
						t.carriers[types.TypeString(tn.Type(), nil)] = true
						changed = true
						break
					}
				}
			}
		}
	}
	for _, f := range t.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if _, m := structOf(x.X.Type()); m == n && x.Field == i {
						t.add(x)
					}
				case *ssa.Field:
					if _, m := structOf(x.X.Type()); m == n && x.Field == i {
						t.add(x)
					}
				}
			}
		}
	}
}

func (t *taint) carries(typ types.Type) bool {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return t.carries(u.Elem())
	case *types.Slice:
		return t.carries(u.Elem())
	case *types.Array:
		return t.carries(u.Elem())
	case *types.Map:
		return t.carries(u.Elem()) || t.carries(u.Key())
	}
	return t.carriers[types.TypeString(typ, nil)]
}

func (t *taint) use(in *ssa.Function, name string, arg int, call ssa.CallInstruction, pos token.Pos) {
	t.uses[fmt.Sprintf("%s|%s|%d|%d", in, name, arg, pos)] = taintUse{in, name, arg, call, pos}
}

// run propagates to a fixed point and gives the uses outside the repository, in order.
func (t *taint) run() []taintUse {
	for round := 0; round < 20; round++ {
		n := len(t.vals) + len(t.fields)
		for len(t.todo) > 0 {
			v := t.todo[len(t.todo)-1]
			t.todo = t.todo[:len(t.todo)-1]
			t.flow(v)
		}
		// whole values that hold the secret, turned into an interface
		for _, f := range t.p.funcs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok && t.carries(m.X.Type()) {
						t.add(m)
					}
				}
			}
		}
		if len(t.todo) == 0 && n == len(t.vals)+len(t.fields) {
			break
		}
	}
	var ks []string
	for k := range t.uses {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []taintUse
	for _, k := range ks {
		out = append(out, t.uses[k])
	}
	return out
}

func (t *taint) flow(v ssa.Value) {
	refs := v.Referrers()
	if g, ok := v.(*ssa.Global); ok {
		for _, f := range t.p.funcs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						t.add(u)
					}
				}
			}
		}
		return
	}
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				t.addField(a.X.Type(), a.Field)
			case *ssa.IndexAddr:
				t.add(a.X)
				t.back(a.X)
			default:
				t.add(x.Addr)
				t.back(x.Addr)
			}
		case *ssa.UnOp, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.Slice, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.IndexAddr, *ssa.Index, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
			t.add(x.(ssa.Value))
		case *ssa.Extract:
			if typeStr(x.Type()) != "error" { // of an external call that got the secret
				t.add(x)
			}
		case *ssa.Lookup:
			if x.X == v {
				t.add(x)
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				t.add(x)
			}
		case *ssa.MapUpdate:
			t.add(x.Map)
			t.back(x.Map)
		case *ssa.Send:
			t.use(x.Parent(), "send", 0, nil, x.Pos())
		case *ssa.Panic:
			t.use(x.Parent(), "panic", 0, nil, x.Pos())
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					if i < len(fn.FreeVars) {
						t.add(fn.FreeVars[i])
					}
				}
			}
		case *ssa.Return:
			for i, res := range x.Results {
				if res == v {
					t.ret(x.Parent(), i)
				}
			}
		case ssa.CallInstruction:
			t.call(x, v)
		}
	}
}

// back follows a container that received the secret to where it came from.
func (t *taint) back(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			t.addField(fa.X.Type(), fa.Field)
		} else {
			t.add(x.X)
		}
	case *ssa.FieldAddr:
		t.addField(x.X.Type(), x.Field)
	case *ssa.Slice:
		t.add(x.X)
		t.back(x.X)
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv == x && fn.Parent() != nil {
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							t.add(mc.Bindings[i])
							t.back(mc.Bindings[i])
						}
					}
				}
			}
		}
	}
}

func (t *taint) ret(f *ssa.Function, i int) {
	m := t.rets[f]
	if m == nil {
		m = map[int]bool{}
		t.rets[f] = m
	}
	if m[i] {
		return
	}
	m[i] = true
	for _, e := range t.p.graph().in[f] {
		ci, ok := e.instr.(*ssa.Call)
		if !ok || e.kind != "call" {
			continue
		}
		if f.Signature.Results().Len() == 1 {
			t.add(ci)
			continue
		}
		for _, r := range *ci.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == i {
				t.add(x)
			}
		}
	}
}

func (t *taint) call(ci ssa.CallInstruction, v ssa.Value) {
	com := ci.Common()
	in := ci.Parent()
	var args []ssa.Value
	name := ""
	var fns []*ssa.Function
	if com.IsInvoke() {
		name = ifaceName(com.Value.Type()) + "." + com.Method.Name()
		args = append([]ssa.Value{com.Value}, com.Args...)
	} else if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			t.add(ci.(ssa.Value))
		case "copy":
			if len(com.Args) == 2 && com.Args[1] == v {
				t.add(com.Args[0])
				t.back(com.Args[0])
			}
		case "print", "println":
			t.use(in, b.Name(), 0, ci, ci.Pos())
		}
		return
	} else {
		args = com.Args
		if f := com.StaticCallee(); f != nil {
			name = shortName(f)
		} else {
			name = "dyn"
		}
	}
	for _, e := range t.p.graph().out[in] {
		if e.instr == ci.(ssa.Instruction) && (e.kind == "call" || e.kind == "go" || e.kind == "defer") {
			fns = append(fns, e.to)
		}
	}
	hit := -1
	for i, a := range args {
		if a == v {
			hit = i
			if t.stops != nil && t.stops(name) {
				continue
			}
			for _, f := range fns {
				if i < len(f.Params) {
					t.add(f.Params[i])
				}
			}
		}
	}
	if hit < 0 || t.stops != nil && t.stops(name) {
		return
	}
	if len(fns) == 0 {
		t.use(in, name, hit, ci, ci.Pos())
		if t.passes == nil || t.passes(name) {
			if val, ok := ci.(*ssa.Call); ok && (typeStr(val.Type()) != "error" || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.")) {
				t.add(val)
			}
		}
	}
}
