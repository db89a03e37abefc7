package main

// The call graph over the repository's own functions: static calls, interface calls resolved to
// every implementation in the module, and function literals.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	from, to *ssa.Function
	instr    ssa.Instruction
	kind     string // call, go, defer, closure, value
}

type graph struct {
	out, in map[*ssa.Function][]edge
}

var graphCache *graph

func (p *Prog) graph() *graph {
	if graphCache != nil {
		return graphCache
	}
	g := &graph{map[*ssa.Function][]edge{}, map[*ssa.Function][]edge{}}
	// implementations of module interfaces
	var named []*types.Named
	for _, q := range p.All {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if t, ok := tn.Type().(*types.Named); ok && !types.IsInterface(t) {
					named = append(named, t)
				}
			}
		}
	}
	add := func(e edge) {
		if e.to == nil || !p.inRepo(e.to) {
			return
		}
		g.out[e.from] = append(g.out[e.from], e)
		g.in[e.to] = append(g.in[e.to], e)
	}
	for _, f := range p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				kind := ""
				var com *ssa.CallCommon
				switch x := in.(type) {
				case *ssa.Call:
					kind, com = "call", &x.Call
				case *ssa.Go:
					kind, com = "go", &x.Call
				case *ssa.Defer:
					kind, com = "defer", &x.Call
				}
				skip := map[ssa.Value]bool{}
				if com != nil {
					if com.IsInvoke() {
						for _, t := range named {
							var rt types.Type = t
							if t.TypeParams().Len() > 0 {
								// match by method name for generic implementations
								for i := 0; i < t.NumMethods(); i++ {
									if t.Method(i).Name() == com.Method.Name() && hasAllMethods(t, com.Value.Type()) {
										add(edge{f, p.SSA.FuncValue(t.Method(i)), in, kind})
									}
								}
								continue
							}
							it, ok := com.Value.Type().Underlying().(*types.Interface)
							if !ok {
								continue
							}
							pt := types.NewPointer(rt)
							if types.Implements(rt, it) || types.Implements(pt, it) {
								if o, _, _ := types.LookupFieldOrMethod(pt, true, nil, com.Method.Name()); o != nil {
									if fo, ok := o.(*types.Func); ok {
										add(edge{f, p.SSA.FuncValue(fo), in, kind})
									}
								}
							}
						}
					} else if c := com.StaticCallee(); c != nil {
						skip[com.Value] = true
						add(edge{f, c, in, kind})
						if c.Origin() != nil {
							add(edge{f, c.Origin(), in, kind})
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || skip[*op] {
						continue
					}
					if h, ok := (*op).(*ssa.Function); ok {
						k := "value"
						if _, isC := in.(*ssa.MakeClosure); isC {
							k = "closure"
							for _, r := range *in.(*ssa.MakeClosure).Referrers() {
								switch y := r.(type) {
								case *ssa.Go:
									if y.Call.Value == in.(*ssa.MakeClosure) {
										k = "go"
									}
								}
							}
						} else if _, isG := in.(*ssa.Go); isG && com != nil && com.Value == h {
							k = "go"
						}
						add(edge{f, h, in, k})
					}
				}
			}
		}
	}
	graphCache = g
	return g
}

func hasAllMethods(t *types.Named, it types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		found := false
		for m := 0; m < t.NumMethods(); m++ {
			if t.Method(m).Name() == i.Method(k).Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// reach gives the functions reachable from the roots, following the edge kinds accepted.
func (g *graph) reach(roots []*ssa.Function, follow func(e edge) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range g.out[f] {
			if follow == nil || follow(e) {
				push(e.to)
			}
		}
	}
	return seen
}

// entries gives the exported functions of a package from which a function is reached by calls
// inside the package (or the function itself).
func (p *Prog) entries(f *ssa.Function) []*ssa.Function {
	g := p.graph()
	seen := map[*ssa.Function]bool{}
	res := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() == nil && (token.IsExported(f.Name()) || f.Name() == "main") {
			res[f] = true
			return
		}
		n := 0
		for _, e := range g.in[f] {
			n++
			up(e.from)
		}
		if n == 0 {
			res[f] = true
		}
	}
	up(f)
	var out []*ssa.Function
	for f := range res {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}
