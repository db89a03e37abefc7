package main

// Available-facts dataflow over SSA.
//
// A state is a set of facts that must hold (branch outcomes, effects that must have happened,
// facts that hold for every element of a loop's domain) plus an abstract store from canonical
// locations to canonical terms. States meet at join points; states whose live values agree are
// merged, others are kept apart up to a bound and then widened. Repo callees are analysed in
// context, so splitting or joining functions does not change what is derived.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	facts map[*Term]bool
	mem   map[*Term]*Term
}

func newState() *State { return &State{map[*Term]bool{}, map[*Term]*Term{}} }
func (s *State) clone() *State {
	n := &State{make(map[*Term]bool, len(s.facts)+8), make(map[*Term]*Term, len(s.mem)+8)}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

type PS struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []deferred
	next   map[*ssa.Phi]*Term // values of the loop header's phis along a back edge
}

func (p *PS) clone() *PS {
	n := &PS{env: make(map[ssa.Value]*Term, len(p.env)+8), st: p.st.clone(), defers: append([]deferred(nil), p.defers...)}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type Outcome struct {
	kind string // "ret" or "panic"
	vals []*Term
	st   *State
	pos  token.Pos
	fn   *ssa.Function
}

type Sink struct {
	kind  string // call, go, send, panic, store
	name  string
	args  []*Term
	res   *Term
	facts map[*Term]bool
	mem   map[*Term]*Term
	stack []string // function names, outermost first
	fns   []*ssa.Function
	pos   token.Pos
	loops []*Term
}

type frame struct {
	fn  *ssa.Function
	key string
	out []Outcome
	// info
	fi *fnInfo
}

type Interp struct {
	goIn     func(st *State, f *Term, args []*Term, pos token.Pos) // looks into a function literal run in a goroutine
	choose   func(ch *Term) bool                                   // the cases of a select that are of interest; nil is the default case
	callees  map[string]map[*ssa.Function]int
	p        *Prog
	sinks    []Sink
	quiet    int // >0: do not record sinks
	stack    []*frame
	loops    []*Term
	maxState int
	exact    bool // paths that fail keep what they know
	execs    int
	steps    int
	warn     map[string]bool
	noInline map[string]bool      // extra primitives, by short name
	doInline map[string]bool      // primitives to analyse in context anyway
	dynType  map[*Term]types.Type // the type a value had when made an interface; nil if it had several
	over     map[string]primFn    // what to take a call for in this run
	storeLog bool
	fatal    func(st *State, loc, v *Term) bool // stores that end a path of no interest
	plans    map[string]*loopPlan
	recs     []loopRec
	loopDom  map[*Term]*Term
	overflow map[string]bool
}

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, callees: map[string]map[*ssa.Function]int{}, maxState: 96, warn: map[string]bool{}, noInline: map[string]bool{}, doInline: map[string]bool{}, overflow: map[string]bool{}, plans: map[string]*loopPlan{}, loopDom: map[*Term]*Term{}, dynType: map[*Term]types.Type{}}
}

func (in *Interp) top() *frame { return in.stack[len(in.stack)-1] }

// ---- static per-function info ----

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	rpoN   map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*loopT // innermost
	head   map[*ssa.BasicBlock]*loopT
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	site   map[ssa.Instruction]string
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi := fnInfos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{rpoN: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loopT{}, head: map[*ssa.BasicBlock]*loopT{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, site: map[ssa.Instruction]string{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoN[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.head[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.head[s] = l
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*loopT
	for _, l := range fi.head {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls {
		l.parent = fi.loopOf[l.header]
		for b := range l.blocks {
			fi.loopOf[b] = l
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for i, instr := range b.Instrs {
			fi.site[instr] = fmt.Sprintf("%d.%d", b.Index, i)
			if phi, ok := instr.(*ssa.Phi); ok {
				d[phi] = true
				continue
			}
			for _, op := range instr.Operands(nil) {
				if *op != nil && !d[*op] {
					u[*op] = true
				}
			}
			if v, ok := instr.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			l := fi.live[b]
			n := len(l)
			for v := range use[b] {
				l[v] = true
			}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range fi.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !def[b][v] {
						l[v] = true
					}
				}
				for _, instr := range s.Instrs {
					ph, ok := instr.(*ssa.Phi)
					if !ok {
						break
					}
					if !def[b][ph.Edges[pi]] {
						l[ph.Edges[pi]] = true
					}
				}
			}
			// phis defined in b that are used in b (or later) are live-in for merging purposes
			if len(l) != n {
				ch = true
			}
		}
	}
	for _, b := range fi.rpo {
		for _, instr := range b.Instrs {
			ph, ok := instr.(*ssa.Phi)
			if !ok {
				break
			}
			if refs := ph.Referrers(); refs != nil && len(*refs) > 0 {
				fi.live[b][ph] = true
			}
		}
	}
	return fi
}

// ---- facts ----

func (in *Interp) evalCond(st *State, c *Term) *Term {
	if c.Op == "bool" {
		return c
	}
	if st.facts[c] {
		return tTrue
	}
	if st.facts[mkNot(c)] {
		return tFalse
	}
	pos, neg := c, false
	if c.Op == "not" {
		pos, neg = c.Args[0], true
	}
	if pos.Op == "eq" {
		x, k := pos.Args[0], pos.Args[1]
		if isConst(x) {
			x, k = k, x
		}
		if isConst(k) {
			for f := range st.facts {
				if k.Op == "str" {
					h := f
					if f.Op == "not" {
						h = f.Args[0]
					}
					if isCall(h, "strings.HasPrefix") && h.Args[0] == x && h.Args[1].Op == "str" && strings.HasPrefix(unq(k), unq(h.Args[1])) == (f.Op == "not") {
						return mkBool(neg)
					}
				}
				if f.Op == "eq" {
					y, m := f.Args[0], f.Args[1]
					if isConst(y) {
						y, m = m, y
					}
					if y == x && isConst(m) && m != k && mkEq(m, k) == tFalse {
						return mkBool(neg)
					}
				}
			}
		}
	}
	if pos.Op == "lt" && pos.Aux == "h" || pos.Op == "eq" {
		// one of less, equal and greater
		a, b := pos.Args[0], pos.Args[1]
		lt, gt, eq := mkHashLt(a, b), mkHashLt(b, a), mkEq(a, b)
		all := []*Term{lt, gt, eq}
		no := 0
		for _, t := range all {
			if t == pos {
				continue
			}
			if st.facts[t] && (t.Op == "lt" || pos.Op == "lt") {
				return mkBool(neg)
			}
			if st.facts[mkNot(t)] {
				no++
			}
		}
		if no == 2 {
			return mkBool(!neg)
		}
	}
	if isCall(pos, "strings.HasPrefix") && pos.Args[1].Op == "str" {
		for f := range st.facts {
			if f.Op == "eq" && (f.Args[0] == pos.Args[0] && f.Args[1].Op == "str" || f.Args[1] == pos.Args[0] && f.Args[0].Op == "str") {
				k := f.Args[0]
				if k == pos.Args[0] {
					k = f.Args[1]
				}
				return mkBool(strings.HasPrefix(unq(k), unq(pos.Args[1])) != neg)
			}
		}
	}
	return nil
}

func isConst(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "nil" || t.Op == "bool" || t.Op == "nonnil"
}

// addFact returns false if the state becomes contradictory.
func (in *Interp) addFact(st *State, c *Term) bool {
	if e := in.evalCond(st, c); e != nil {
		return e == tTrue
	}
	if c.Op == "and" {
		for _, a := range c.Args {
			if !in.addFact(st, a) {
				return false
			}
		}
		return true
	}
	if c.Op == "not" && c.Args[0].Op == "or" {
		for _, a := range c.Args[0].Args {
			if !in.addFact(st, mkNot(a)) {
				return false
			}
		}
		return true
	}
	st.facts[c] = true
	return true
}

// ---- memory ----

func locOf(ptr *Term) *Term {
	if ptr.Op == "addr" {
		return ptr.Args[0]
	}
	return ptr
}

func mkAddr(loc *Term) *Term { return mk("addr", "", loc) }
func contOf(ref *Term) *Term { return mk("cont", "", ref) }

var objTypes = map[*Term]types.Type{}

func rootObj(t *Term) *Term {
	for {
		switch t.Op {
		case "fld", "elem", "addr", "cont":
			t = t.Args[0]
		case "obj":
			return t
		default:
			return nil
		}
	}
}

// loadShallow reads loc without overlaying stores to parts of it.
func (in *Interp) loadShallow(st *State, loc *Term) *Term {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	switch loc.Op {
	case "fld":
		return mkField(in.loadShallow(st, loc.Args[0]), loc.Aux)
	case "elem":
		base := loc.Args[0]
		c := in.content(st, base)
		if c.Op == "obj" {
			c = in.loadShallow(st, c)
		} else if v, ok := st.mem[base]; ok && c == base {
			c = v
		} else if c == base && (base.Op == "fld" || base.Op == "elem") && rootObj(base) != nil {
			c = in.loadShallow(st, base)
		}
		return in.elemAt(st, c, loc.Args[1])
	case "obj":
		return tZero
	}
	return loc
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// load reads a value of type typ at loc.
func (in *Interp) load(st *State, loc *Term, typ types.Type) *Term {
	v := in.loadShallow(st, loc)
	if typ == nil || !isAgg(typ) {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		sub := false
		for k := range st.mem {
			if k != loc && isUnder(k, loc) {
				sub = true
				break
			}
		}
		if !sub {
			return v
		}
		var names []string
		var vals []*Term
		for i := 0; i < s.NumFields(); i++ {
			n := in.p.fieldName(typ, i)
			names = append(names, n)
			vals = append(vals, in.load(st, mk("fld", n, loc), s.Field(i).Type()))
		}
		return in.mkStructOf(typ, names, vals)
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 16 {
		sub := false
		for k := range st.mem {
			if k != loc && isUnder(k, loc) {
				sub = true
				break
			}
		}
		if sub {
			var l []*Term
			for i := int64(0); i < a.Len(); i++ {
				l = append(l, in.load(st, mk("elem", "", loc, mkInt(i)), a.Elem()))
			}
			return mk("list", "", l...)
		}
	}
	return v
}

func isUnder(k, loc *Term) bool {
	for {
		if k == loc {
			return true
		}
		switch k.Op {
		case "fld", "elem":
			k = k.Args[0]
		default:
			return false
		}
	}
}

func typeLabel(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// mkStructOf builds a struct value; all the fields of one value give that value back.
func (in *Interp) mkStructOf(typ types.Type, names []string, vals []*Term) *Term {
	if len(names) > 0 && vals[0].Op == "fld" && vals[0].Aux == names[0] {
		b := vals[0].Args[0]
		same := true
		for i := range names {
			if vals[i].Op != "fld" || vals[i].Aux != names[i] || vals[i].Args[0] != b {
				same = false
			}
		}
		if same {
			return b
		}
	}
	// mostly the fields of one base: keep as an update of the base
	if len(names) > 2 {
		cnt := map[*Term]int{}
		for i := range names {
			if vals[i].Op == "fld" && vals[i].Aux == names[i] {
				cnt[vals[i].Args[0]]++
			}
		}
		for b, n := range cnt {
			if n*2 > len(names) {
				var ns []string
				var vs []*Term
				idx := make([]int, 0)
				for i := range names {
					if !(vals[i].Op == "fld" && vals[i].Aux == names[i] && vals[i].Args[0] == b) {
						idx = append(idx, i)
					}
				}
				sort.Slice(idx, func(a, c int) bool { return names[idx[a]] < names[idx[c]] })
				for _, i := range idx {
					ns = append(ns, names[i])
					vs = append(vs, vals[i])
				}
				return mk("with", typeLabel(typ)+":"+strings.Join(ns, ","), append(vs, b)...)
			}
		}
	}
	return mkStruct(typeLabel(typ), names, vals)
}

func (in *Interp) store(st *State, loc, val *Term) {
	// element of a slice: update the slice's content
	if e, path := elemRoot(loc); e != nil && !isArrayLoc(e) {
		ref := e.Args[0]
		c := in.content(st, ref)
		cur := mkElem(c, e.Args[1])
		nv := val
		if len(path) > 0 {
			nv = withPath(cur, path, val)
		}
		if c.Op == "upd" && c.Args[1] == e.Args[1] {
			c = c.Args[0]
		}
		st.mem[contOf(ref)] = mkUpd(c, e.Args[1], nv)
		return
	}
	for k := range st.mem {
		if k != loc && isUnder(k, loc) {
			delete(st.mem, k)
		}
	}
	st.mem[loc] = val
}

func withPath(base *Term, path []string, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	v := withPath(mkField(base, path[0]), path[1:], val)
	if base.Op == "struct" || base.Op == "with" {
		ns, vs := structParts(base)
		done := false
		for i := range ns {
			if ns[i] == path[0] {
				vs[i] = v
				done = true
			}
		}
		if !done {
			ns = append(ns, path[0])
			vs = append(vs, v)
		}
		idx := make([]int, len(ns))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return ns[idx[a]] < ns[idx[b]] })
		var n2 []string
		var v2 []*Term
		for _, i := range idx {
			n2 = append(n2, ns[i])
			v2 = append(v2, vs[i])
		}
		lbl := strings.SplitN(base.Aux, ":", 2)[0]
		if base.Op == "struct" {
			return mkStruct(lbl, n2, v2)
		}
		return mk("with", lbl+":"+strings.Join(n2, ","), append(v2, base.Args[len(base.Args)-1])...)
	}
	if base.Op == "zero" {
		return mkStruct("", []string{path[0]}, []*Term{v})
	}
	return mk("with", ":"+path[0], v, base)
}

func structParts(t *Term) ([]string, []*Term) {
	n := len(t.Args)
	if t.Op == "with" {
		n--
	}
	var ns []string
	var vs []*Term
	for i := 0; i < n; i++ {
		ns = append(ns, structField(t, i))
		vs = append(vs, t.Args[i])
	}
	return ns, vs
}

func mkUpd(c, i, v *Term) *Term {
	if n, ok := isInt(i); ok && c.Op == "concat" && c.Args[0].Op == "list" && n >= 0 && int(n) < len(c.Args[0].Args) {
		l := append([]*Term(nil), c.Args[0].Args...)
		l[n] = v
		return mkConcat(append([]*Term{mk("list", "", l...)}, c.Args[1:]...)...)
	}
	if n, ok := isInt(i); ok && c.Op == "list" && n >= 0 && int(n) < len(c.Args) {
		l := append([]*Term(nil), c.Args...)
		l[n] = v
		return mk("list", "", l...)
	}
	if n, ok := isInt(i); ok && c.Op == "make" {
		if k, ok2 := isInt(c.Args[0]); ok2 && k <= 32 && n >= 0 && n < k {
			l := make([]*Term, k)
			for j := range l {
				l[j] = tZero
			}
			l[n] = v
			return mk("list", "", l...)
		}
	}
	return mk("upd", "", c, i, v)
}

// elemRoot finds the slice element a location lies in.
func elemRoot(loc *Term) (*Term, []string) {
	var path []string
	for l := loc; ; {
		switch l.Op {
		case "fld":
			path = append([]string{l.Aux}, path...)
			l = l.Args[0]
		case "elem":
			return l, path
		default:
			return nil, nil
		}
	}
}

var arrayLocs = map[*Term]bool{}

func isArrayLoc(e *Term) bool { return arrayLocs[e] }

// content gives the current content of a slice, map or set reference.
func (in *Interp) content(st *State, ref *Term) *Term {
	for i := 0; i < 8; i++ {
		v, ok := st.mem[contOf(ref)]
		if !ok {
			break
		}
		if v == ref {
			return v
		}
		return v
	}
	if ref.Op == "aslice" {
		return in.loadShallow(st, ref.Args[0])
	}
	if ref.Op == "slice" {
		if c := in.content(st, ref.Args[0]); c != ref.Args[0] {
			return mkSlice(c, ref.Args[1], ref.Args[2])
		}
	}
	return ref
}

// resolve replaces references to local objects by their present content, deeply.
func (in *Interp) resolve(st *State, t *Term) *Term {
	return in.resolveD(st, t, 0)
}

func (in *Interp) resolveD(st *State, t *Term, d int) *Term {
	if d > 8 {
		return t
	}
	switch t.Op {
	case "int", "str", "bool", "nil", "zero", "sym", "var", "idx", "func", "nonnil":
		if t.Op != "sym" {
			return t
		}
	}
	if v, ok := st.mem[contOf(t)]; ok && v != t {
		if occursIn(v, t) {
			return v
		}
		return in.resolveD(st, v, d+1)
	}
	if t.Op == "aslice" {
		return in.resolveD(st, in.content(st, t), d+1)
	}
	if t.Op == "obj" {
		typ := objTypes[t]
		if typ != nil && isAgg(typ) {
			v := in.load(st, t, typ)
			if v != t && v.Op != "zero" {
				return in.resolveD(st, v, d+1)
			}
			if v.Op == "zero" {
				return v
			}
		}
		return t
	}
	if t.Op == "addr" {
		l := t.Args[0]
		if v, ok := st.mem[l]; ok {
			return in.resolveD(st, v, d+1)
		}
		if r := rootObj(l); r != nil {
			return in.resolveD(st, in.loadShallow(st, l), d+1)
		}
		return t
	}
	if len(t.Args) == 0 || t.Op == "cont" || t.Op == "closure" || t.Op == "call" || t.Op == "lv" || t.Op == "keys" { // a call saw what was there at the time; a variable is named after a place
		return t
	}
	for _, a := range t.Args {
		if len(a.Args) > 0 && a.Op != "obj" && st.mem[contOf(a)] == t {
			return t // already the current content of a
		}
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = in.resolveD(st, a, d+1)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

func mkSlice(s, lo, hi *Term) *Term {
	if n, ok := isInt(lo); ok && n == 0 {
		lo = tNil
	}
	if hi.Op != "nil" && mkLen(s) == hi {
		hi = tNil
	}
	if lo.Op == "nil" && hi.Op == "nil" {
		return s
	}
	if s.Op == "list" {
		a, ok1 := int64(0), true
		if lo.Op != "nil" {
			a, ok1 = isInt(lo)
		}
		b, ok2 := int64(len(s.Args)), true
		if hi.Op != "nil" {
			b, ok2 = isInt(hi)
		}
		if ok1 && ok2 && a >= 0 && b >= a && int(b) <= len(s.Args) {
			return mk("list", "", s.Args[a:b]...)
		}
	}
	if s.Op == "str" {
		a, ok1 := int64(0), true
		if lo.Op != "nil" {
			a, ok1 = isInt(lo)
		}
		b, ok2 := int64(len(unq(s))), true
		if hi.Op != "nil" {
			b, ok2 = isInt(hi)
		}
		if ok1 && ok2 && a >= 0 && b >= a && int(b) <= len(unq(s)) {
			return mkStr(unq(s)[a:b])
		}
		return mk("slice", "", s, lo, hi)
	}
	if s.Op == "cat" && lo.Op != "nil" && hi.Op == "nil" {
		n := mkInt(0)
		for i, p := range s.Args {
			if n == lo {
				return mkCat(s.Args[i:]...)
			}
			n = mkAdd(n, mkLen(p))
		}
	}
	if s.Op == "cat" && lo.Op == "nil" && hi.Op != "nil" {
		n := mkInt(0)
		for i, p := range s.Args {
			if n == hi {
				return mkCat(s.Args[:i]...)
			}
			n = mkAdd(n, mkLen(p))
		}
	}
	if s.Op == "concat" && lo.Op != "nil" && hi.Op == "nil" && s.Args[0].Op == "list" {
		if a, ok := isInt(lo); ok && int(a) <= len(s.Args[0].Args) && a >= 0 {
			return mkConcat(append([]*Term{mk("list", "", s.Args[0].Args[a:]...)}, s.Args[1:]...)...)
		}
	}
	if s.Op == "concat" && (lo.Op == "nil" || hi.Op == "nil") {
		n := mkInt(0)
		for i, p := range s.Args {
			if n == lo && hi.Op == "nil" {
				return mkConcat(s.Args[i:]...)
			}
			if n == hi && lo.Op == "nil" {
				return mkConcat(s.Args[:i]...)
			}
			n = mkAdd(n, mkLen(p))
		}
	}
	if s.Op == "slice" && lo.Op == "nil" && s.Args[2].Op == "nil" && s.Args[1].Op == "nil" {
		return mkSlice(s.Args[0], lo, hi)
	}
	return mk("slice", "", s, lo, hi)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch p.Op {
		case "nil", "zero":
			continue
		case "concat":
			out = append(out, p.Args...)
			continue
		case "make":
			if n, ok := isInt(p.Args[0]); ok && n == 0 {
				continue
			}
		}
		out = append(out, p)
	}
	var m []*Term
	for _, p := range out {
		if p.Op == "list" {
			if len(p.Args) == 0 {
				continue
			}
			if len(m) > 0 && m[len(m)-1].Op == "list" {
				m[len(m)-1] = mk("list", "", append(append([]*Term(nil), m[len(m)-1].Args...), p.Args...)...)
				continue
			}
		}
		m = append(m, p)
	}
	// the image of 0..n-1 followed by that of n is the image of 0..n
	for i := 0; i+1 < len(m); {
		a, l := m[i], m[i+1]
		if a.Op != "map" || l.Op != "list" || a.Args[0].idx || a.Args[0].Op == "rng" || a.Args[0].Op == "keys" {
			i++
			continue
		}
		v := binderVar(a)
		if a.Args[0].hgt > 0 || subst(a.Args[1], v, a.Args[0]) != l.Args[0] {
			i++
			continue
		}
		m[i] = mkBinder("map", v, mkAdd(a.Args[0], mkInt(1)), a.Args[1])
		if len(l.Args) > 1 {
			m[i+1] = mk("list", "", l.Args[1:]...)
		} else {
			m = append(m[:i+1], m[i+2:]...)
		}
	}
	if len(m) == 0 {
		return mk("list", "")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mk("concat", "", m...)
}

func mkCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.Op == "cat" {
			out = append(out, p.Args...)
			continue
		}
		if p.Op == "str" && p.Aux == `""` {
			continue
		}
		out = append(out, p)
	}
	var m []*Term
	for _, p := range out {
		if p.Op == "str" && len(m) > 0 && m[len(m)-1].Op == "str" {
			m[len(m)-1] = mkStr(unq(m[len(m)-1]) + unq(p))
			continue
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return mkStr("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mk("cat", "", m...)
}

// ---- running functions ----

var debugTrace = os.Getenv("BC_TRACE") != ""

// call analyses fn in the present context.
func (in *Interp) exec(fn *ssa.Function, args []*Term, bind []*Term, st *State, site string) []Outcome {
	if fn.Blocks == nil {
		panic("no body: " + fn.String())
	}
	in.execs++
	key := site
	if len(in.stack) > 0 {
		key = in.top().key + "/" + site
	}
	fr := &frame{fn: fn, key: key, fi: infoOf(fn)}
	in.stack = append(in.stack, fr)
	saveLoops := in.loops
	ps := &PS{env: map[ssa.Value]*Term{}, st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			ps.env[p] = args[i]
		} else {
			ps.env[p] = mkSym(p.Name())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			ps.env[fv] = bind[i]
		} else {
			ps.env[fv] = mkSym(fv.Name())
		}
	}
	exits, _ := in.runBlocks(fr, nil, fn.Blocks[0], []*PS{ps})
	if len(exits) > 0 {
		panic("exits from function region")
	}
	in.loops = saveLoops
	in.stack = in.stack[:len(in.stack)-1]
	return in.mergeOutcomes(fr)
}

func outcomeKey(o Outcome) string {
	var sb strings.Builder
	sb.WriteString(o.kind)
	for _, v := range o.vals {
		fmt.Fprintf(&sb, ",%d", v.ID)
	}
	sb.WriteString("|")
	memKey(&sb, o.st.mem)
	return sb.String()
}

func memKey(sb *strings.Builder, m map[*Term]*Term) {
	var ids []int
	for k, v := range m {
		ids = append(ids, k.ID<<32|v.ID)
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(sb, "%x;", i)
	}
}

func isErrTerm(t *Term) bool { return t.Op == "nonnil" }

func (in *Interp) mergeOutcomes(fr *frame) []Outcome {
	// drop memory of objects that cannot be reached any more
	for i := range fr.out {
		o := &fr.out[i]
		in.pruneMem(o.st, o.vals, fr.key)
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range fr.out {
		k := outcomeKey(o)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		lossy := g[0].kind == "panic"
		for _, v := range g[0].vals {
			if isErrTerm(v) {
				lossy = true
			}
		}
		if len(in.stack) == 0 || in.exact && g[0].kind == "ret" {
			lossy = false
		}
		sts := make([]*State, len(g))
		for i := range g {
			sts[i] = g[i].st
		}
		for _, f := range mergeFacts(sts, lossy, max(48, in.maxState/2)) {
			o := g[f.from]
			o.st = f.st
			res = append(res, o)
		}
	}
	return res
}

type mergedState struct {
	st   *State
	from int
}

// mergeFacts reduces states with equal memory: subsumption, c/not c resolution, and a bound.
func mergeFacts(sts []*State, lossy bool, bound int) []mergedState {
	var cur []mergedState
	for i, s := range sts {
		cur = append(cur, mergedState{s, i})
	}
	if lossy && len(cur) > 1 {
		return []mergedState{{intersect(cur), 0}}
	}
	for changed := true; changed && len(cur) > 1; {
		changed = false
		for i := 0; i < len(cur); i++ {
			for j := i + 1; j < len(cur); j++ {
				a, b := cur[i].st.facts, cur[j].st.facts
				var da, db []*Term
				for f := range a {
					if !b[f] {
						da = append(da, f)
						if len(da) > 1 {
							break
						}
					}
				}
				for f := range b {
					if !a[f] {
						db = append(db, f)
						if len(db) > 1 {
							break
						}
					}
				}
				switch {
				case len(da) == 0: // a weaker: covers b
					cur = append(cur[:j:j], cur[j+1:]...)
					changed = true
					j--
				case len(db) == 0:
					cur = append(cur[:i:i], cur[i+1:]...)
					changed = true
					j = i
				case len(da) == 1 && len(db) == 1 && mkNot(da[0]) == db[0]:
					n := cur[i].st.clone()
					delete(n.facts, da[0])
					cur[i].st = n
					cur = append(cur[:j:j], cur[j+1:]...)
					changed = true
					j--
				}
			}
		}
	}
	if len(cur) > bound {
		return []mergedState{{intersect(cur), 0}}
	}
	return cur
}

func intersect(cur []mergedState) *State {
	n := cur[0].st.clone()
	for f := range n.facts {
		for _, o := range cur[1:] {
			if !o.st.facts[f] {
				delete(n.facts, f)
				break
			}
		}
	}
	return n
}

func (in *Interp) pruneMem(st *State, vals []*Term, key string) {
	local := func(o *Term) bool {
		return o != nil && strings.HasPrefix(o.Args[0].Aux, key)
	}
	if len(in.stack) == 0 {
		return
	}
	reach := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	byRoot := map[*Term][]*Term{}
	for k := range st.mem {
		if r := rootObj(k); local(r) {
			byRoot[r] = append(byRoot[r], k)
		}
	}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "obj" && local(t) && !reach[t] {
			reach[t] = true
			for _, k := range byRoot[t] {
				visit(st.mem[k])
				visit(k)
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, v := range vals {
		visit(v)
	}
	for k, v := range st.mem {
		if !local(rootObj(k)) {
			visit(v)
			visit(k)
		}
	}
	for k := range st.mem {
		if r := rootObj(k); local(r) && !reach[r] {
			delete(st.mem, k)
		}
	}
	// contents of non-object local references (e.g. appended slices) die with the frame unless reachable
	for k := range st.mem {
		if k.Op == "cont" && rootObj(k) == nil && !seen[k.Args[0]] {
			if k.Args[0].Op == "list" || k.Args[0].Op == "concat" || k.Args[0].Op == "upd" {
				delete(st.mem, k)
			}
		}
	}
}

type rawExit struct {
	from, to *ssa.BasicBlock
	ps       *PS
}

func (in *Interp) assignPhis(from, to *ssa.BasicBlock, ps *PS) map[*ssa.Phi]*Term {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	out := map[*ssa.Phi]*Term{}
	for _, instr := range to.Instrs {
		ph, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		out[ph] = in.val(ps, ph.Edges[pi])
	}
	return out
}

// runBlocks propagates states through the blocks of a region (a loop body, or the function).
func (in *Interp) runBlocks(fr *frame, region *loopT, entry *ssa.BasicBlock, init []*PS) (exits []rawExit, backs []*PS) {
	fi := fr.fi
	work := map[*ssa.BasicBlock][]*PS{entry: init}
	first := true
	deliver := func(e rawExit) {
		if region != nil && e.to == region.header {
			e.ps.next = in.assignPhis(e.from, e.to, e.ps)
			backs = append(backs, e.ps)
			return
		}
		if region != nil && !region.blocks[e.to] {
			exits = append(exits, e)
			return
		}
		for ph, v := range in.assignPhis(e.from, e.to, e.ps) {
			e.ps.env[ph] = v
		}
		work[e.to] = append(work[e.to], e.ps)
	}
	for _, b := range fi.rpo {
		if region != nil && !region.blocks[b] {
			continue
		}
		l := fi.loopOf[b]
		if l != region {
			// only headers of direct child loops are handled here
			if !(fi.head[b] == l && l != nil && l.parent == region) {
				continue
			}
		}
		states := work[b]
		if len(states) == 0 {
			continue
		}
		delete(work, b)
		if !(first && b == entry) || len(states) > 1 {
			states = in.mergePS(fr, b, states)
		}
		first = false
		if l != region {
			for _, s := range states {
				for _, e := range in.runLoop(fr, l, s) {
					deliver(e)
				}
			}
			continue
		}
		for _, s := range states {
			for _, e := range in.runBlock(fr, b, s) {
				deliver(e)
			}
		}
	}
	return
}

// mergePS merges the states meeting at block b.
func (in *Interp) mergePS(fr *frame, b *ssa.BasicBlock, states []*PS) []*PS {
	live := fr.fi.live[b]
	// drop dead values
	for _, s := range states {
		for v := range s.env {
			if !live[v] {
				switch v.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
				default:
					delete(s.env, v)
				}
			}
		}
	}
	if len(states) == 1 {
		return states
	}
	var lv []ssa.Value
	for v := range live {
		lv = append(lv, v)
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i].Name() < lv[j].Name() })
	groups := map[string][]*PS{}
	var order []string
	for _, s := range states {
		var sb strings.Builder
		for _, v := range lv {
			if t := s.env[v]; t != nil {
				fmt.Fprintf(&sb, "%d,", t.ID)
			} else {
				sb.WriteString("-,")
			}
		}
		fmt.Fprintf(&sb, "|%d|", len(s.defers))
		in.dropDeadObjs(s)
		memKey(&sb, s.st.mem)
		k := sb.String()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	bound := in.maxState
	if len(order) > 1 {
		bound = in.maxState / 2
	}
	var out []*PS
	for _, k := range order {
		g := groups[k]
		var sts []*State
		for _, s := range g {
			sts = append(sts, s.st)
		}
		for _, m := range mergeFacts(sts, false, bound) {
			ps := g[m.from]
			ps.st = m.st
			out = append(out, ps)
		}
	}
	if len(out) > in.maxState {
		in.overflow[fr.fn.String()] = true
		// widen: join everything into one state
		j := out[0]
		for _, o := range out[1:] {
			for _, v := range lv {
				if j.env[v] != o.env[v] && j.env[v] != nil {
					j.env[v] = mk("join", v.Name(), mkSym(fr.key+"."+fmt.Sprint(b.Index)))
				}
			}
			for k, v := range o.st.mem {
				if j.st.mem[k] != v {
					j.st.mem[k] = mk("join", "m", k, mkSym(fr.key+"."+fmt.Sprint(b.Index)))
				}
			}
			for k := range j.st.mem {
				if _, ok := o.st.mem[k]; !ok {
					j.st.mem[k] = mk("join", "m", k, mkSym(fr.key+"."+fmt.Sprint(b.Index)))
				}
			}
		}
		var ms []mergedState
		for i, o := range out {
			ms = append(ms, mergedState{o.st, i})
		}
		f := intersect(ms)
		j.st = &State{f.facts, j.st.mem}
		return []*PS{j}
	}
	return out
}

// dropDeadObjs removes memory of objects unreachable from the frame's values.
// Objects of caller frames are kept.
func (in *Interp) dropDeadObjs(s *PS) {
	key := in.top().key
	var vals []*Term
	for _, t := range s.env {
		vals = append(vals, t)
	}
	for _, d := range s.defers {
		vals = append(vals, d.args...)
		if d.fn != nil {
			vals = append(vals, d.fn)
		}
	}
	in.pruneMem(s.st, vals, key)
}

// runBlock runs the instructions of b on one state.
func (in *Interp) runBlock(fr *frame, b *ssa.BasicBlock, s *PS) []rawExit {
	states := []*PS{s}
	var out []rawExit
	for _, instr := range b.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		var next []*PS
		for _, ps := range states {
			in.steps++
			switch x := instr.(type) {
			case *ssa.If:
				c := in.val(ps, x.Cond)
				e := in.evalCond(ps.st, c)
				if e == nil || e == tTrue {
					t := ps
					if e == nil {
						t = ps.clone()
					}
					if in.addFact(t.st, c) {
						out = append(out, rawExit{b, b.Succs[0], t})
					}
				}
				if e == nil || e == tFalse {
					if in.addFact(ps.st, mkNot(c)) {
						out = append(out, rawExit{b, b.Succs[1], ps})
					}
				}
			case *ssa.Jump:
				out = append(out, rawExit{b, b.Succs[0], ps})
			case *ssa.Return:
				var vals []*Term
				for _, r := range x.Results {
					vals = append(vals, in.val(ps, r))
				}
				fr.out = append(fr.out, Outcome{kind: "ret", vals: vals, st: ps.st, pos: x.Pos(), fn: fr.fn})
			case *ssa.Panic:
				v := in.val(ps, x.X)
				in.sink(ps.st, "panic", "panic", []*Term{v}, nil, x.Pos())
				in.panicOut(fr, ps, x.Pos())
			default:
				next = append(next, in.step(fr, instr, ps)...)
			}
		}
		states = next
		if len(states) > 1 {
			states = in.quickMerge(fr, b, states)
		}
	}
	return out
}

// quickMerge merges states inside a block whose environments are identical.
func (in *Interp) quickMerge(fr *frame, b *ssa.BasicBlock, states []*PS) []*PS {
	if len(states) > in.maxState {
		in.overflow[fr.fn.String()] = true
	}
	return states
}

// panicOut runs the deferred calls of a panicking frame.
func (in *Interp) panicOut(fr *frame, ps *PS, pos token.Pos) {
	if len(ps.defers) == 0 {
		fr.out = append(fr.out, Outcome{kind: "panic", st: ps.st, pos: pos, fn: fr.fn})
		return
	}
	recov := false
	for _, d := range ps.defers {
		recov = recov || d.recovers()
	}
	ps.st.mem[mkSym("recovering")] = tTrue
	for _, p := range in.runDefers(fr, ps) {
		delete(p.st.mem, mkSym("recovering"))
		did := p.st.mem[mkSym("recovered")] == tTrue
		delete(p.st.mem, mkSym("recovered"))
		if recov && did {
			var vals []*Term
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, mk("recovered", fmt.Sprint(i), mkSym(fr.key)))
			}
			fr.out = append(fr.out, Outcome{kind: "ret", vals: vals, st: p.st, pos: pos, fn: fr.fn})
		} else {
			fr.out = append(fr.out, Outcome{kind: "panic", st: p.st, pos: pos, fn: fr.fn})
		}
	}
}

// recovers: the function deferred calls recover itself.
func (d *deferred) recovers() bool {
	f := d.call.Call.StaticCallee()
	if d.fn != nil && d.fn.Op == "closure" {
		f = closureFn[d.fn.Aux]
	}
	return f != nil && callsRecover(f)
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) runDefers(fr *frame, ps *PS) []*PS {
	states := []*PS{ps}
	for i := len(ps.defers) - 1; i >= 0; i-- {
		d := ps.defers[i]
		var next []*PS
		for _, s := range states {
			for _, r := range in.doCall(fr, s, &d.call.Call, d.call, d.fn, d.args, d.call.Pos()) {
				next = append(next, r.ps)
			}
		}
		states = next
	}
	for _, s := range states {
		s.defers = nil
		if g := s.st.mem[guardP]; g != nil && g.Aux == fr.key {
			s.st.mem[guardP] = g.Args[0]
		}
	}
	return states
}

// ---- values ----

var closureFn = map[string]*ssa.Function{}

func (in *Interp) val(ps *PS, v ssa.Value) *Term {
	if t, ok := ps.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		closureFn[x.String()] = x
		return mk("func", x.String())
	case *ssa.Global:
		return mkAddr(mk("glob", globName(x)))
	case *ssa.Builtin:
		return mkSym("builtin:" + x.Name())
	case *ssa.FreeVar:
		return mkSym(x.Name())
	}
	// a value defined on a path not taken (dead here)
	return mk("undef", v.Name()+"@"+in.top().fn.String())
}

func globName(g *ssa.Global) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return tZero
		}
		return tNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("flt", c.Value.ExactString())
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return mkInt(n)
		}
		return mk("int", c.Value.ExactString())
	}
	return mk("flt", c.Value.ExactString())
}

func unq(t *Term) string {
	s, _ := strconvUnquote(t.Aux)
	return s
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// counts: an unsigned counter above zero goes down by one, which does not wrap.
func (in *Interp) counts(st *State, a, b *Term) bool {
	if b != mkInt(1) || !st.facts[mkNot(mkEq(a, mkInt(0)))] {
		return false
	}
	if a.Op == "lv" {
		return true
	}
	if a.Op != "lin" {
		return false
	}
	for x, k := range toLin(a).coef {
		if x.Op == "idx" && k < 0 {
			return true
		}
	}
	return false
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	a, b = in.resolve(st, a), in.resolve(st, b)
	uns := isUnsigned(t)
	if isFloat(t) {
		switch op {
		case token.EQL:
			return mkEq(a, b)
		case token.NEQ:
			return mkNot(mkEq(a, b))
		case token.LSS:
			return mk("lt", "f", a, b)
		case token.GTR:
			return mk("lt", "f", b, a)
		case token.LEQ:
			return mkNot(mk("lt", "f", b, a))
		case token.GEQ:
			return mkNot(mk("lt", "f", a, b))
		}
		if (op == token.ADD || op == token.MUL) && termLess(b, a) {
			a, b = b, a
		}
		return mk("bin", op.String(), a, b)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.EQL:
			return strEq(a, b)
		case token.NEQ:
			return mkNot(strEq(a, b))
		}
		return mk("bin", op.String(), a, b)
	}
	if r := cmpCanon(op, a, b); r != nil {
		return r
	}
	switch op {
	case token.ADD:
		return mkAdd(a, b)
	case token.SUB:
		return mkSub(a, b, uns && !in.counts(st, a, b))
	case token.MUL:
		return mkMul(a, b)
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return ltCanon(a, b, uns)
	case token.GTR:
		return ltCanon(b, a, uns)
	case token.LEQ:
		return mkNot(ltCanon(b, a, uns))
	case token.GEQ:
		return mkNot(ltCanon(a, b, uns))
	case token.SHL:
		if n, ok := isInt(b); ok && n < 62 {
			return mkMul(a, mkInt(1<<uint(n)))
		}
	case token.SHR:
		if n, ok := isInt(b); ok && n < 62 && uns {
			return in.binop(st, token.QUO, a, mkInt(1<<uint(n)), t)
		}
	case token.QUO:
		if n, ok := isInt(b); ok && n == 1 {
			return a
		}
		if x, ok := isInt(a); ok {
			if y, ok2 := isInt(b); ok2 && y != 0 {
				return mkInt(x / y)
			}
		}
	case token.REM:
		if x, ok := isInt(a); ok {
			if y, ok2 := isInt(b); ok2 && y != 0 {
				return mkInt(x % y)
			}
		}
	case token.AND, token.OR, token.XOR:
		if termLess(b, a) {
			a, b = b, a
		}
	}
	return mk("bin", op.String(), a, b)
}

// ltCanon normalises overflow tests of unsigned sums: a+b < a, b > MAX-a.
func ltCanon(a, b *Term, uns bool) *Term {
	if uns {
		la := toLin(a)
		if a.Op == "lin" && len(la.coef) >= 1 {
			d := toLin(a)
			d.add(b, -1)
			allPos := true
			for _, k := range d.coef {
				if k < 0 {
					allPos = false
				}
			}
			if allPos && d.c >= 0 && (len(d.coef) > 0 || d.c > 0) && d.term() != a {
				return mk("ovf", "", a)
			}
		}
		if a.Op == "usub" && a.Args[0].Op == "int" && a.Args[0].Aux == "18446744073709551615" {
			return mk("ovf", "", mkAdd(a.Args[1], b))
		}
	}
	return mkLt(a, b, uns)
}

func cmpCanon(op token.Token, a, b *Term) *Term {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if b.Op == "cmp" && a.Op != "cmp" {
		f, ok := flip[op]
		if !ok {
			return nil
		}
		return cmpCanon(f, b, a)
	}
	if a.Op != "cmp" {
		return nil
	}
	n, ok := isInt(b)
	if !ok {
		return nil
	}
	x, y := a.Args[0], a.Args[1]
	lt, gt, eq := mkLt(x, y, false), mkLt(y, x, false), mkEq(x, y)
	switch {
	case op == token.EQL && n == 1, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return gt
	case op == token.EQL && n == -1, op == token.LSS && n == 0, op == token.LEQ && n == -1:
		return lt
	case op == token.EQL && n == 0:
		return eq
	case op == token.NEQ && n == 1, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		return mkNot(gt)
	case op == token.NEQ && n == -1, op == token.GEQ && n == 0, op == token.GTR && n == -1:
		return mkNot(lt)
	case op == token.NEQ && n == 0:
		return mkNot(eq)
	}
	return nil
}

// strEq compares strings; an equation between concatenations with constant ends is simplified.
func strEq(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "cat" {
		a, b = b, a
	}
	if a.Op == "cat" && b.Op == "str" {
		s := unq(b)
		f := a.Args[0]
		if f.Op == "str" {
			if !strings.HasPrefix(s, unq(f)) {
				return tFalse
			}
			return strEq(mkCat(a.Args[1:]...), mkStr(s[len(unq(f)):]))
		}
	}
	if a.Op == "cat" && b.Op == "cat" && a.Args[0].Op == "str" && a.Args[0] == b.Args[0] {
		return strEq(mkCat(a.Args[1:]...), mkCat(b.Args[1:]...))
	}
	// x[k:] == "c"  with x having a known prefix is handled through facts
	return mkEq(a, b)
}
