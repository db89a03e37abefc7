package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/levilutz/basiccoin"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path relative to the module
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	All   []*packages.Package
	fns   map[*ssa.Function]bool
	globs map[string]*Term
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			if strings.HasPrefix(q.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	p.Fset = prog.Fset
	for _, q := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")
		p.Pkgs[rel] = q
		sp := prog.Package(q.Types)
		if sp == nil {
			return nil, fmt.Errorf("no ssa package for %s", q.PkgPath)
		}
		sp.Build()
		p.SPkgs[rel] = sp
		p.All = append(p.All, q)
	}
	sort.Slice(p.All, func(i, j int) bool { return p.All[i].PkgPath < p.All[j].PkgPath })
	p.collect()
	return p, nil
}

// collect gathers every repo function (including methods, closures and instantiations).
func (p *Prog) collect() {
	p.fns = map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || p.fns[f] || !p.inRepo(f) {
			return
		}
		p.fns[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if n.TypeParams().Len() > 0 {
					for i := 0; i < n.NumMethods(); i++ {
						add(p.SSA.FuncValue(n.Method(i)))
					}
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(p.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	g := f
	if g.Origin() != nil {
		g = g.Origin()
	}
	for g.Parent() != nil {
		g = g.Parent()
		if g.Origin() != nil {
			g = g.Origin()
		}
	}
	if g.Pkg != nil {
		return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	}
	if g.Object() != nil && g.Object().Pkg() != nil {
		return strings.HasPrefix(g.Object().Pkg().Path(), modPath)
	}
	return false
}

func (p *Prog) funcs() []*ssa.Function {
	var out []*ssa.Function
	for f := range p.fns {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

// fn looks up "pkg/core.Verifier.VerifyTx" or "pkg/core.DHashBytes"; nil if absent.
func (p *Prog) fn(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".") + i + 1
	sp := p.SPkgs[name[:j]]
	if sp == nil {
		return nil
	}
	parts := strings.Split(name[j+1:], ".")
	if len(parts) == 1 {
		return sp.Func(parts[0])
	}
	t := sp.Type(parts[0])
	if t == nil {
		return nil
	}
	n, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for k := 0; k < n.NumMethods(); k++ {
		if n.Method(k).Name() == parts[1] {
			return p.SSA.FuncValue(n.Method(k))
		}
	}
	return nil
}

func (p *Prog) typ(name string) *types.Named {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".") + i + 1
	q := p.Pkgs[name[:j]]
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name[j+1:])
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// shortName is the canonical callee name used in terms: Type.Method or pkg.Func.
func shortName(f *ssa.Function) string {
	g := f
	if g.Origin() != nil {
		g = g.Origin()
	}
	if r := g.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return pk + n.Obj().Name() + "." + g.Name()
		}
		return g.Name()
	}
	if g.Object() != nil && g.Object().Pkg() != nil {
		return g.Object().Pkg().Name() + "." + g.Name()
	}
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return "iface"
}

// boundTarget gives the method behind a method value.
func (p *Prog) boundTarget(f *ssa.Function) *ssa.Function {
	if o, ok := f.Object().(*types.Func); ok {
		return p.SSA.FuncValue(o)
	}
	return nil
}

// methodOf gives the declared method of a type.
func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			if f := p.SSA.FuncValue(m); f != nil && f.Blocks != nil {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) typePos(t types.Type) token.Pos {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pos()
	}
	return token.NoPos
}
