package main

// The obligation layer: what a property demands, stated over the facts the dataflow derives.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule      string
	Construct string // function, call site or path: never a line number
	OK        bool
	Pos       string
	Detail    string
	Known     string
}

type Ctx struct {
	p       *Prog
	id      string
	obs     []Ob
	seen    map[string]int
	assume  []string
	roots   map[string]bool
	stats   map[string]int
	explain string
}

type runRes struct {
	in   *Interp
	outs []Outcome
	fn   *ssa.Function
	args []*Term
	cur  Outcome // the return a contract is looking at
}

var runCache = map[string]*runRes{}

func (c *Ctx) ob(rule, construct string, ok bool, pos token.Pos, detail string, args ...any) bool {
	if len(args) > 0 {
		detail = fmt.Sprintf(detail, args...)
	}
	c.obs = append(c.obs, Ob{Rule: rule, Construct: construct, OK: ok, Pos: c.p.pos(pos), Detail: detail})
	return ok
}

// need fails the check when a construct the property is anchored on is missing.
func (c *Ctx) need(what string, ok bool) bool {
	if !ok {
		c.ob("anchor", what, false, token.NoPos, "the construct this property is anchored on was not found")
	}
	return ok
}

// atLeast fails the check when fewer instances than confirmed by reading were found.
func (c *Ctx) atLeast(rule string, n int) {
	k := 0
	for _, o := range c.obs {
		if o.Rule == rule {
			k++
		}
	}
	if k < n {
		c.ob("coverage", rule, false, token.NoPos, "rule %s met %d instances, expected at least %d", rule, k, n)
	}
}

type runOpt struct {
	args   []*Term
	opaque []string // extra primitives
	inline []string // primitives analysed in context
	setup  func(in *Interp, st *State)
	key    string
	over   map[string]primFn // with a key: runs are cached
	states int               // with a key: how many states are kept apart
	exact  bool              // with a key: failing paths keep what they know
}

// run analyses a function from an arbitrary state. Parameters are named by opt.args or p0, p1...
func (c *Ctx) run(name string, opt runOpt) *runRes {
	f := c.p.fn(name)
	if !c.need(name, f != nil && f.Blocks != nil) {
		return nil
	}
	return c.runFn(f, opt)
}

func (c *Ctx) runFn(f *ssa.Function, opt runOpt) *runRes {
	var ks []string
	ks = append(ks, f.String(), opt.key)
	for _, a := range opt.args {
		ks = append(ks, fmt.Sprint(a.ID))
	}
	ks = append(ks, strings.Join(opt.opaque, ","), strings.Join(opt.inline, ","))
	k := strings.Join(ks, "|")
	c.roots[shortName(f)] = true
	if r, ok := runCache[k]; ok {
		return r
	}
	in := newInterp(c.p)
	for _, n := range opt.opaque {
		in.noInline[n] = true
	}
	for _, n := range opt.inline {
		in.doInline[n] = true
	}
	in.over = opt.over
	in.exact = opt.exact
	if opt.states > 0 {
		in.maxState = opt.states
	}
	st := newState()
	args := append([]*Term(nil), opt.args...)
	for i := len(args); i < len(f.Params); i++ {
		args = append(args, mkSym(fmt.Sprintf("p%d", i)))
	}
	if opt.setup != nil {
		opt.setup(in, st)
	}
	outs := in.exec(f, args, nil, st, "r")
	c.stats["contexts"] += in.execs
	c.stats["instructions"] += in.steps
	c.stats["calls_and_effects"] += len(in.sinks)
	r := &runRes{in, outs, f, args, Outcome{}}
	runCache[k] = r
	return r
}

// K is what is known at a program point.
type K struct {
	in *Interp
	st *State
}

func know(in *Interp, facts map[*Term]bool, mem map[*Term]*Term) K {
	return K{in, &State{facts, mem}}
}

func (r *runRes) k(o Outcome) K { return K{r.in, o.st} }

func (s Sink) k(in *Interp) K { return K{in, &State{s.facts, s.mem}} }

func (k K) with(fs ...*Term) (K, bool) {
	st := &State{make(map[*Term]bool, len(k.st.facts)+len(fs)), k.st.mem}
	for f := range k.st.facts {
		st.facts[f] = true
	}
	n := K{k.in, st}
	for _, f := range fs {
		if !n.in.addFact(st, f) {
			return n, false
		}
	}
	return n, true
}

func conjuncts(t *Term) []*Term {
	if t.Op == "conj" || t.Op == "and" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// has tells whether the fact certainly holds here.
func (k K) has(t *Term) bool { return k.hasD(t, 0) }

func (k K) hasD(t *Term, d int) bool {
	switch t.Op {
	case "bool":
		return t == tTrue
	case "conj", "and":
		for _, a := range t.Args {
			if !k.hasD(a, d) {
				return false
			}
		}
		return true
	case "or":
		for _, a := range t.Args {
			if k.hasD(a, d) {
				return true
			}
		}
	}
	if t.Op == "not" {
		switch n := t.Args[0]; n.Op {
		case "or":
			for _, a := range n.Args {
				if !k.hasD(mkNot(a), d) {
					return false
				}
			}
			return true
		case "conj", "and":
			for _, a := range n.Args {
				if k.hasD(mkNot(a), d) {
					return true
				}
			}
		}
	}
	if k.in.evalCond(k.st, t) == tTrue {
		return true
	}
	if k.arith(t) {
		return true
	}
	if d < 2 {
		for f := range k.st.facts {
			if f.Op == "alts" || f.Op == "or" {
				all := true
				for _, a := range f.Args {
					n, ok := k.with(conjuncts(a)...)
					if ok && !n.hasD(t, d+1) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// arith: simple consequences of one or two comparison facts.
func (k K) arith(t *Term) bool {
	neg := false
	p := t
	if p.Op == "not" {
		p, neg = p.Args[0], true
	}
	if p.Op == "lt" && p.Aux == "" || p.Op == "eq" {
		// t as "0 <= g" or "0 != g"
		for f := range k.st.facts {
			if impliesLin(f, p, neg) {
				return true
			}
		}
	}
	return false
}

// asLe gives g with fact <=> g <= 0 (integers), when the fact is a linear comparison.
func asLe(f *Term) (lin, bool) {
	neg := false
	if f.Op == "not" {
		f, neg = f.Args[0], true
	}
	if f.Op != "lt" || f.Aux != "" {
		return lin{}, false
	}
	l := lin{coef: map[*Term]int64{}}
	if neg { // a >= b: b-a <= 0
		l.add(f.Args[1], 1)
		l.add(f.Args[0], -1)
	} else { // a < b: a-b+1 <= 0
		l.add(f.Args[0], 1)
		l.add(f.Args[1], -1)
		l.c++
	}
	return l, true
}

func impliesLin(f, p *Term, neg bool) bool {
	q := p
	if neg {
		q = mkNot(p)
	}
	if p.Op == "eq" && neg {
		// f: a < b (or > with constants) implies a != b
		if g, ok := asLe(f); ok {
			l := lin{coef: map[*Term]int64{}}
			l.add(p.Args[0], 1)
			l.add(p.Args[1], -1)
			for _, s := range []int64{1, -1} {
				// g <= 0 where g = s*l + c, c>0  => s*l < 0
				if sameCoef(g, l, s) && g.c-s*l.c > 0 {
					return true
				}
			}
		}
		return false
	}
	w, ok := asLe(q)
	if !ok {
		return false
	}
	if g, ok := asLe(f); ok {
		return sameCoef(g, w, 1) && w.c <= g.c
	}
	if f.Op == "eq" && (isInty(f.Args[0]) || isInty(f.Args[1])) {
		l := lin{coef: map[*Term]int64{}}
		l.add(f.Args[0], 1)
		l.add(f.Args[1], -1)
		for _, s := range []int64{1, -1} {
			if sameCoef(w, l, s) && w.c-s*l.c <= 0 {
				return true
			}
		}
	}
	return false
}

func isInty(t *Term) bool { return t.Op == "int" || t.Op == "lin" || t.Op == "len" }

func sameCoef(a, b lin, s int64) bool {
	if len(a.coef) != len(b.coef) {
		return false
	}
	for t, c := range a.coef {
		if b.coef[t]*s != c {
			return false
		}
	}
	return true
}

var specIdx int

// forall tells whether body holds for every index 0 <= i < dom.
func (k K) forall(dom *Term, body func(k K, i *Term) bool) bool {
	if n, ok := isInt(dom); ok && n <= 8 {
		for i := int64(0); i < n; i++ {
			if !body(k, mkInt(i)) {
				return false
			}
		}
		return true
	}
	if k.has(mkEq(dom, mkInt(0))) {
		return true
	}
	// dom is known to be a small constant
	for n := int64(1); n <= 3; n++ {
		if k.has(mkEq(dom, mkInt(n))) {
			ok := true
			for i := int64(0); i < n && ok; i++ {
				ok = body(k, mkInt(i))
			}
			if ok {
				return true
			}
		}
	}
	specIdx++
	i := mk("idx", fmt.Sprintf("spec%d", specIdx))
	var alls [][][]*Term // fact -> alternatives -> conjuncts
	for f := range k.st.facts {
		if f.Op != "all" || !k.sameDom(f.Args[0], dom) {
			continue
		}
		v := binderVar(f)
		var alts [][]*Term
		for _, a := range f.Args[1:] {
			alts = append(alts, conjuncts(subst(a, v, i)))
		}
		alls = append(alls, alts)
	}
	sort.Slice(alls, func(a, b int) bool { return len(alls[a]) < len(alls[b]) })
	inDom := mkLt(i, dom, true)
	// facts with a single alternative always apply
	base, _ := k.with(inDom)
	var multi [][][]*Term
	for _, a := range alls {
		if len(a) == 1 {
			base, _ = base.with(a[0]...)
		} else {
			multi = append(multi, a)
		}
	}
	if body(base, i) {
		return true
	}
	try := func(ms [][][]*Term) bool {
		cur := []K{base}
		for _, m := range ms {
			var next []K
			for _, b := range cur {
				for _, a := range m {
					if n, ok := b.with(a...); ok {
						next = append(next, n)
					}
				}
			}
			cur = next
			if len(cur) > 128 {
				return false
			}
		}
		for _, b := range cur {
			if !body(b, i) {
				return false
			}
		}
		return true
	}
	for _, m := range multi {
		if try([][][]*Term{m}) {
			return true
		}
	}
	return len(multi) > 1 && try(multi)
}

// sameDom: a fact over domain d covers domain want.
func (k K) sameDom(d, want *Term) bool {
	return d == want || k.has(mkEq(d, want))
}

// each tells whether body holds for every element of a sequence, including when the code treats
// the first elements apart.
func (k K) each(list *Term, body func(k K, i, e *Term) bool) bool {
	n := mkLen(list)
	if k.forall(n, func(k K, i *Term) bool { return body(k, i, mkElem(list, i)) }) {
		return true
	}
	// reversed traversal
	if k.forall(n, func(k K, i *Term) bool {
		j := mkAdd(n, mkSub(mkInt(-1), i, false))
		return body(k, j, mkElem(list, j))
	}) {
		return true
	}
	d := mkSub(n, mkInt(1), false)
	ok := k.forall(d, func(k K, i *Term) bool {
		j := mkAdd(i, mkInt(1))
		return body(k, j, mkElem(list, j))
	})
	return ok && body(k, mkInt(0), mkElem(list, mkInt(0)))
}

// F selects nested fields.
func F(t *Term, names ...string) *Term {
	for _, n := range names {
		t = mkField(t, n)
	}
	return t
}

func inv(name string, args ...*Term) *Term { return callTerm("inv.Inv."+name, args...) }

// succeeds: the outcome returns without an error (its last result may be nil).
func (r *runRes) succeeds(o Outcome) bool {
	if o.kind != "ret" {
		return false
	}
	if len(o.vals) == 0 {
		return true
	}
	v := r.in.resolve(o.st, o.vals[len(o.vals)-1])
	if v.Op == "nonnil" {
		return false
	}
	if v == tNil || v == tZero {
		return true
	}
	return r.k(o).in.evalCond(o.st, mkEq(v, tNil)) != tFalse
}

// onSuccess requires cond on every outcome that returns without error.
func (c *Ctx) onSuccess(r *runRes, rule, what string, cond func(k K) bool) {
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.outs {
		if !r.succeeds(o) {
			continue
		}
		n++
		ok := cond(r.k(o))
		d := "on every path that accepts"
		if !ok {
			d = "a path that accepts does not establish: " + what + r.describe(o)
		}
		c.ob(rule, shortName(r.fn)+": "+what, ok, o.pos, "%s", d)
	}
	if n == 0 {
		c.ob("coverage", rule+" in "+shortName(r.fn), false, r.fn.Pos(), "no accepting path found")
	}
}

// describe prints the facts known at an outcome (for a report).
func (r *runRes) describe(o Outcome) string {
	return describeFacts(o.st.facts)
}

func describeFacts(facts map[*Term]bool) string {
	var ts []*Term
	for f := range facts {
		ts = append(ts, f)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	if len(ts) > 60 {
		ts = ts[:60]
	}
	ss, defs := shared(ts)
	var sb strings.Builder
	sb.WriteString("\n  known there:")
	for _, d := range defs {
		sb.WriteString("\n    let " + clip(d, 400))
	}
	for _, s := range ss {
		sb.WriteString("\n    " + clip(s, 800))
	}
	return sb.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// site names a sink by the function chain that reaches it.
func (s Sink) site() string {
	name := s.name
	if len(s.stack) > 0 {
		return strings.Join(s.stack, " > ") + " > " + name
	}
	return name
}

func mkList(xs ...*Term) *Term { return mk("list", "", xs...) }

func (s Sink) has(name string) bool { return s.name == name }
