package main

// Loops. The header's state is a widening of the entry state in which everything the body changes
// is a function of the iteration number idx: a linear function, a running sum, a list built
// element by element, ... or an opaque value. Leaving the loop turns what every iteration
// established into one fact: all(N; alternatives).

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lvKind int

const (
	kOpaque lvKind = iota
	kInv
	kStep
	kSum
	kApp
	kFill
	kMapof
	kLatch
)

type lvPlan struct {
	kind lvKind
	a, b *Term // step: a; sum: a; app: a; fill: a=index b=value; mapof: a=key b=value; latch: a
}

// lvar is a variable changed by the loop: a header phi or a memory location.
type lvar struct {
	phi  *ssa.Phi
	loc  *Term
	lv   *Term
	init *Term
	plan lvPlan
}

type loopPlan struct {
	vars   []lvar
	killed map[*Term]bool
}

// loopRec is what the analysis learnt about one loop in one context.
type loopRec struct {
	fn    *ssa.Function
	stack []string
	depth int // how many loops it is in, with itself
	key   string
	idx   *Term
	dom   *Term // nil if not counted
	alts  [][]*Term
	bound []*Term
	lvs   []lvRec
	backs []*State // what holds each time round
}

// lvRec is how an opaque loop variable changes from one iteration to the next.
type lvRec struct {
	lv, init *Term
	steps    []lvStep
}

type lvStep struct {
	facts map[*Term]bool
	mem   map[*Term]*Term
	next  *Term
}

func (in *Interp) entryVal(st *State, k *Term) *Term {
	if v, ok := st.mem[k]; ok {
		return v
	}
	if k.Op == "cont" {
		return in.content(st, k.Args[0])
	}
	return in.loadShallow(st, k)
}

func (v *lvar) value(idx *Term) *Term {
	switch v.plan.kind {
	case kInv:
		return v.init
	case kStep:
		return mkAdd(v.init, mkMul(v.plan.a, idx))
	case kSum:
		return mkAdd(v.init, mkBinder("sum", idx, idx, v.plan.a))
	case kApp:
		return mkConcat(v.init, mkFlat(idx, idx, v.plan.a))
	case kFill:
		return mkFill(idx, idx, v.plan.a, v.plan.b, v.init)
	case kMapof:
		return mkBinder("mapof", idx, idx, v.plan.a, v.plan.b, v.init)
	}
	return v.lv
}

func (in *Interp) runLoop(fr *frame, l *loopT, s *PS) []rawExit {
	key := fmt.Sprintf("%s@%d", fr.key, l.header.Index)
	idx := mk("idx", fmt.Sprintf("%d.%s", len(in.loops), key), in.loops...)
	in.loops = append(in.loops, idx)
	defer func() { in.loops = in.loops[:len(in.loops)-1] }()

	var phis []*ssa.Phi
	for _, instr := range l.header.Instrs {
		ph, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if exits, ok := in.unroll(fr, l, s, phis); ok {
		return exits
	}
	plan := in.plans[key]
	if plan != nil && len(plan.vars) < len(phis) {
		plan = nil
	}
	run := func(vars []lvar, killed map[*Term]bool, record bool) ([]rawExit, []*PS) {
		ps := s.clone()
		for f := range killed {
			delete(ps.st.facts, f)
		}
		for i := range vars {
			v := &vars[i]
			if v.phi != nil {
				ps.env[v.phi] = v.value(idx)
			} else {
				ps.st.mem[v.loc] = v.value(idx)
			}
		}
		nOut := len(fr.out)
		if !record {
			in.quiet++
		}
		exits, backs := in.runBlocks(fr, l, l.header, []*PS{ps})
		if !record {
			in.quiet--
			fr.out = fr.out[:nOut]
		}
		return exits, backs
	}
	mkvar := func(ph *ssa.Phi, loc *Term) lvar {
		v := lvar{phi: ph, loc: loc}
		if ph != nil {
			v.init = s.env[ph]
			v.lv = mk("lv", key+"."+ph.Name(), idx)
		} else {
			v.init = in.entryVal(s.st, loc)
			v.lv = mk("lv", key+".m", idx, loc)
		}
		return v
	}
	next := func(v *lvar, b *PS) *Term {
		if v.phi != nil {
			return in.settled(b.st, b.next[v.phi], idx)
		}
		return in.settled(b.st, in.entryVal(b.st, v.loc), idx)
	}
	refresh := func(vars []lvar) []lvar {
		out := make([]lvar, len(vars))
		for i, o := range vars {
			out[i] = mkvar(o.phi, o.loc)
			out[i].plan = o.plan
		}
		return out
	}
	verify := func(vars []lvar, backs []*PS, killed map[*Term]bool) bool {
		known := map[*Term]bool{}
		for i := range vars {
			if vars[i].loc != nil {
				known[vars[i].loc] = true
			}
		}
		for _, b := range backs {
			for k, nv := range b.st.mem {
				if known[k] || in.ignoreLoc(k, idx, s.st) {
					continue
				}
				if nv != in.entryVal(s.st, k) {
					return false
				}
			}
			for f := range s.st.facts {
				if !b.st.facts[f] && !killed[f] {
					return false
				}
			}
		}
		for i := range vars {
			v := &vars[i]
			if v.plan.kind == kOpaque {
				continue
			}
			cur := v.value(idx)
			for _, b := range backs {
				n := next(v, b)
				switch v.plan.kind {
				case kLatch:
					if n != v.lv && n != v.plan.a {
						return false
					}
					continue
				case kInv:
					if n != cur {
						return false
					}
					continue
				}
				p := in.classify(v, n, cur, idx)
				if p.kind != v.plan.kind || p.a != v.plan.a || p.b != v.plan.b {
					return false
				}
			}
		}
		return true
	}
	// reuse what was found for this loop before, if it still fits
	if plan != nil {
		vars := refresh(plan.vars)
		mark, fmark := len(in.sinks), len(fr.out)
		rmark := len(in.recs)
		exits, backs := run(vars, plan.killed, true)
		if verify(vars, backs, plan.killed) {
			return in.leaveLoop(fr, l, s, key, idx, vars, plan.killed, exits, backs, next, fmark)
		}
		in.sinks, fr.out, in.recs = in.sinks[:mark], fr.out[:fmark], in.recs[:rmark]
	}
	// discovery
	var vars []lvar
	for _, ph := range phis {
		vars = append(vars, mkvar(ph, nil))
	}
	killed := map[*Term]bool{}
	known := map[*Term]bool{}
	for round := 0; round < 10; round++ {
		_, backs := run(vars, killed, false)
		changed := false
		for _, b := range backs {
			for k, nv := range b.st.mem {
				if known[k] || in.ignoreLoc(k, idx, s.st) {
					continue
				}
				if nv != in.entryVal(s.st, k) {
					known[k] = true
					vars = append(vars, mkvar(nil, k))
					changed = true
				}
			}
			for f := range s.st.facts {
				if !b.st.facts[f] && !killed[f] {
					killed[f] = true
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		if len(backs) == 0 {
			break
		}
		for i := range vars {
			v := &vars[i]
			if v.plan.kind != kOpaque {
				continue
			}
			v.plan = in.infer(v, backs, next, idx)
			if v.plan.kind != kOpaque {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	sort.SliceStable(vars, func(i, j int) bool { return vars[i].phi != nil && vars[j].phi == nil })
	for try := 0; ; try++ {
		mark, fmark, rmark := len(in.sinks), len(fr.out), len(in.recs)
		exits, backs := run(vars, killed, true)
		if try >= 3 || verify(vars, backs, killed) {
			in.plans[key] = &loopPlan{vars, killed}
			return in.leaveLoop(fr, l, s, key, idx, vars, killed, exits, backs, next, fmark)
		}
		in.sinks, fr.out, in.recs = in.sinks[:mark], fr.out[:fmark], in.recs[:rmark]
		for i := range vars {
			v := &vars[i]
			k := v.plan.kind
			if try == 0 && (k == kApp || k == kFill) && len(backs) > 0 {
				// what is collected may look different now that more is known about the others
				p := in.classify(v, next(v, backs[0]), v.value(idx), idx)
				for _, b := range backs[1:] {
					if q := in.classify(v, next(v, b), v.value(idx), idx); q != p {
						p = lvPlan{}
					}
				}
				if p.kind == k {
					v.plan = p
					continue
				}
			}
			if try <= 1 && (k == kStep || k == kInv) {
				continue
			}
			v.plan = lvPlan{}
		}
	}
}

// unroll runs a loop whose trip count is a small constant step by step.
func (in *Interp) unroll(fr *frame, l *loopT, s *PS, phis []*ssa.Phi) (out []rawExit, ok bool) {
	h := l.header
	br, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return nil, false
	}
	if _, isNext := br.Cond.(*ssa.Extract); isNext {
		return nil, false
	}
	mark, fmark, rmark := len(in.sinks), len(fr.out), len(in.recs)
	k0 := fr.key
	defer func() {
		fr.key = k0
		if !ok {
			in.sinks, fr.out, in.recs = in.sinks[:mark], fr.out[:fmark], in.recs[:rmark]
			out = nil
		}
	}()
	cur := []*PS{s.clone()}
	for n := 0; len(cur) > 0; n++ {
		if n > 6 || len(cur) > 4 {
			return nil, false
		}
		fr.key = fmt.Sprintf("%s~%d.%d", k0, h.Index, n)
		var next []*PS
		for _, c := range cur {
			exits, backs := in.runBlocks(fr, l, h, []*PS{c})
			atHead := false
			for _, e := range exits {
				atHead = atHead || e.from == h
			}
			if atHead && len(exits)+len(backs) > 1 {
				return nil, false // the header's condition is not a constant
			}
			if n == 0 && !atHead && len(backs) > 0 {
				// a constant bound shows in the header's phis and condition only
				if t := c.env[br.Cond]; t != nil && t.Op != "bool" {
					return nil, false
				}
			}
			out = append(out, exits...)
			for _, b := range backs {
				for _, ph := range phis {
					b.env[ph] = b.next[ph]
				}
				next = append(next, b)
			}
		}
		cur = next
	}
	return out, true
}

// settled replaces the slices made in a round by what they hold at its end.
func (in *Interp) settled(st *State, t, idx *Term) *Term {
	if t == nil || isSlice(t) || !occursIn(t, idx) || !anyTermMemo(t, func(x *Term) bool { return isSlice(x) && occursIn(x, idx) }) {
		return t
	}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if d > 8 || !occursIn(t, idx) {
			return t
		}
		if isSlice(t) {
			if v, ok := st.mem[contOf(t)]; ok && v != t {
				return rec(v, d+1)
			}
			return t
		}
		switch t.Op {
		case "call", "lv", "cont", "closure", "addr", "obj":
			return t
		}
		args, ch := make([]*Term, len(t.Args)), false
		for i, a := range t.Args {
			args[i] = rec(a, d+1)
			ch = ch || args[i] != a
		}
		if !ch {
			return t
		}
		return rebuild(t, args)
	}
	return rec(t, 0)
}

func isSlice(t *Term) bool { return t.Op == "obj" && strings.HasPrefix(t.Aux, "slice") }

// ignoreLoc: memory that belongs to one iteration only.
func (in *Interp) ignoreLoc(k, idx *Term, st *State) bool {
	return occursIn(k, idx)
}

// infer classifies a variable from its values along all the back edges.
func (in *Interp) infer(v *lvar, backs []*PS, next func(*lvar, *PS) *Term, idx *Term) lvPlan {
	var ps []lvPlan
	allSelf := true
	for _, b := range backs {
		n := next(v, b)
		if n == nil {
			return lvPlan{}
		}
		if n != v.lv {
			allSelf = false
		}
		ps = append(ps, in.classify(v, n, v.lv, idx))
	}
	if allSelf {
		return lvPlan{kind: kInv}
	}
	same := true
	for _, p := range ps[1:] {
		if p != ps[0] {
			same = false
		}
	}
	if same && ps[0].kind != kOpaque {
		p := ps[0]
		if p.kind != kInv && (hasLoopLV(p.a, idx) || p.b != nil && hasLoopLV(p.b, idx)) {
			return lvPlan{}
		}
		return p
	}
	// latch: either unchanged or set to one constant
	if v.phi != nil && isConst(v.init) {
		var c *Term
		ok := true
		for _, b := range backs {
			n := next(v, b)
			switch {
			case n == v.lv:
			case isConst(n) && n != v.init && (c == nil || c == n):
				c = n
			case n == v.init:
				ok = false
			default:
				ok = false
			}
		}
		if ok && c != nil {
			return lvPlan{kind: kLatch, a: c}
		}
	}
	return lvPlan{}
}

// hasLoopLV: mentions an opaque variable of this loop.
func hasLoopLV(t, idx *Term) bool {
	return anyTermMemo(t, func(x *Term) bool { return x.Op == "lv" && x.Args[0] == idx })
}

// classify relates the next value to the current one.
func (in *Interp) classify(v *lvar, n, cur, idx *Term) lvPlan {
	if n == nil {
		return lvPlan{}
	}
	if n == cur {
		return lvPlan{kind: kInv}
	}
	// appended
	if n.Op == "concat" || n.Op == "list" {
		rest := n.Args
		if n.Op == "list" {
			if cur.Op == "list" && len(cur.Args) == 0 && len(n.Args) > 0 {
				return lvPlan{kind: kApp, a: n}
			}
			rest = nil
		}
		pre := []*Term{cur}
		if cur.Op == "concat" {
			pre = cur.Args
		}
		if cur.Op == "list" && len(cur.Args) == 0 {
			pre = nil
		}
		if len(rest) >= len(pre) {
			ok := true
			for i := range pre {
				if i == len(pre)-1 && pre[i].Op == "list" && rest[i].Op == "list" && rest[i] != pre[i] && len(rest[i].Args) > len(pre[i].Args) {
					ok = false // merged literal tails: not handled
				}
				if rest[i] != pre[i] {
					ok = false
				}
			}
			if ok && len(rest) > len(pre) {
				return lvPlan{kind: kApp, a: mkConcat(rest[len(pre):]...)}
			}
		}
		return lvPlan{}
	}
	if n.Op == "upd" && n.Args[0] == cur {
		b := n.Args[2]
		if n.Args[1] == idx && cur == v.lv && v.init != nil {
			// each position is reached once, so it still holds what it held before the loop
			b = subst(b, mkElem(cur, idx), mkElem(v.init, idx))
		}
		return lvPlan{kind: kFill, a: n.Args[1], b: b}
	}
	if n.Op == "mapput" && n.Args[0] == cur {
		return lvPlan{kind: kMapof, a: n.Args[1], b: n.Args[2]}
	}
	// arithmetic
	if isStringish(n) || isStringish(cur) || isStringish(v.init) {
		return lvPlan{}
	}
	ln := toLin(n)
	ln.add(cur, -1)
	d := ln.term()
	if occursIn(d, cur) || (cur != v.lv && occursIn(d, v.lv)) {
		return lvPlan{}
	}
	if n.Op != "lin" && cur.Op != "lin" && !isLinNum(n) && !isLinNum(cur) && cur.Op != "sum" && n.Op != "sum" {
		// the next value is unrelated to the current one
		return lvPlan{}
	}
	if !occursIn(n, v.lv) && cur == v.lv {
		return lvPlan{}
	}
	if _, ok := isInt(d); ok {
		return lvPlan{kind: kStep, a: d}
	}
	if !occursIn(d, idx) && !hasOp(d, "lv") {
		return lvPlan{kind: kStep, a: d}
	}
	return lvPlan{kind: kSum, a: d}
}

func isStringish(t *Term) bool { return t.Op == "str" || t.Op == "cat" }

// substPS rewrites idx in a whole state.
func (in *Interp) substPS(ps *PS, from, to *Term, entry map[*Term]bool) {
	for k, v := range ps.env {
		if v.idx || from.Op == "lv" {
			ps.env[k] = subst(v, from, to)
		}
	}
	in.substState(ps.st, from, to, entry)
	for i := range ps.defers {
		for j := range ps.defers[i].args {
			ps.defers[i].args[j] = subst(ps.defers[i].args[j], from, to)
		}
	}
}

func (in *Interp) substState(st *State, from, to *Term, entry map[*Term]bool) {
	nm := make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		if k.idx || v.idx || from.Op == "lv" {
			k, v = subst(k, from, to), subst(v, from, to)
		}
		nm[k] = v
	}
	st.mem = nm
	nf := make(map[*Term]bool, len(st.facts))
	for f := range st.facts {
		if entry[f] || !(f.idx || from.Op == "lv") {
			nf[f] = true
			continue
		}
		g := subst(f, from, to)
		if g.Op != "bool" {
			nf[g] = true
		}
	}
	st.facts = nf
}

// solveIdx solves "the loop leaves at idx" for a fact of the form idx >= N or idx == N.
func solveIdx(f, idx *Term) *Term {
	neg := false
	if f.Op == "not" {
		neg = true
		f = f.Args[0]
	}
	if len(f.Args) != 2 {
		return nil
	}
	var l lin
	switch f.Op {
	case "lt":
		if f.Aux == "f" || f.Aux == "h" {
			return nil
		}
		l = toLin(f.Args[1])
		l.add(f.Args[0], -1) // not(a < b): leaves when b - a <= 0
		if !neg {
			// a < b holds at exit: leaves when a - b + 1 <= 0
			l = toLin(f.Args[0])
			l.add(f.Args[1], -1)
			l.c++
		}
		// want coefficient of idx == -1: N - idx <= 0
		if l.coef[idx] != -1 {
			return nil
		}
		delete(l.coef, idx)
	case "eq":
		if neg {
			return nil
		}
		l = toLin(f.Args[0])
		l.add(f.Args[1], -1)
		switch l.coef[idx] {
		case -1:
			delete(l.coef, idx)
		case 1:
			delete(l.coef, idx)
			n := lin{c: -l.c, coef: map[*Term]int64{}}
			for t, k := range l.coef {
				n.coef[t] = -k
			}
			l = n
		default:
			return nil
		}
	default:
		return nil
	}
	n := l.term()
	if occursIn(n, idx) {
		return nil
	}
	return n
}

func (in *Interp) leaveLoop(fr *frame, l *loopT, s *PS, key string, idx *Term, vars []lvar, killed map[*Term]bool, exits []rawExit, backs []*PS, next func(*lvar, *PS) *Term, fmark int) []rawExit {
	entry := map[*Term]bool{}
	for f := range s.st.facts {
		if !killed[f] {
			entry[f] = true
		}
	}
	newFacts := func(st *State) []*Term {
		var out []*Term
		for f := range st.facts {
			if !entry[f] {
				out = append(out, f)
			}
		}
		sort.Slice(out, func(i, j int) bool { return termLess(out[i], out[j]) })
		return out
	}
	// a counted exit
	counted := func(e *PS) *Term {
		for _, f := range newFacts(e.st) {
			n := solveIdx(f, idx)
			if n == nil || hasLoopLV(n, idx) {
				continue
			}
			ok := true
			for _, b := range backs {
				if !b.st.facts[mkNot(f)] {
					ok = false
					break
				}
			}
			if ok {
				return n
			}
		}
		return nil
	}
	type altKey struct {
		first *(*PS)
		n     int
		dom   *Term
	}
	seen := map[altKey][]*Term{}
	alts := func(bs []*PS, dom *Term) (res []*Term) {
		if len(bs) == 0 {
			return nil
		}
		key := altKey{&bs[0], len(bs), dom}
		if r, ok := seen[key]; ok {
			return append([]*Term(nil), r...)
		}
		defer func() { seen[key] = append([]*Term(nil), res...) }()
		var sts []*State
		for _, b := range bs {
			st := &State{facts: map[*Term]bool{}}
			for _, f := range newFacts(b.st) {
				if n := solveIdx(mkNot(f), idx); n != nil && n == dom {
					continue
				}
				st.facts[f] = true
			}
			sts = append(sts, st)
		}
		var out []*Term
		for _, m := range mergeFacts(sts, false, max(40, in.maxState/2)) {
			var fs []*Term
			for f := range m.st.facts {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return termLess(fs[i], fs[j]) })
			out = append(out, mk("conj", "", fs...))
		}
		sort.Slice(out, func(i, j int) bool { return termLess(out[i], out[j]) })
		return out
	}
	// latches split the exits
	type pick struct {
		ps    *PS
		e     rawExit
		backs []*PS
	}
	var picks []pick
	for _, e := range exits {
		picks = append(picks, pick{e.ps, e, backs})
	}
	for i := range vars {
		v := &vars[i]
		if v.plan.kind != kLatch {
			continue
		}
		var np []pick
		for _, p := range picks {
			used := hasLV(p.ps, v.lv)
			if !used {
				np = append(np, p)
				continue
			}
			var same []*PS
			for _, b := range p.backs {
				if next(v, b) == v.lv {
					same = append(same, b)
				}
			}
			can := func(x *Term) bool {
				for f := range p.ps.st.facts {
					if subst(f, v.lv, x) == tFalse {
						return false
					}
				}
				return true
			}
			a := p.ps.clone()
			in.substPS(a, v.lv, v.init, nil)
			c := p.ps.clone()
			in.substPS(c, v.lv, v.plan.a, nil)
			if can(v.init) && consistent(a.st) {
				var sb []*PS
				for _, b := range same {
					b2 := b.clone()
					in.substPS(b2, v.lv, v.init, nil)
					sb = append(sb, b2)
				}
				np = append(np, pick{a, p.e, sb})
			}
			if can(v.plan.a) && consistent(c.st) {
				c.st.facts[mk("latched", "", mkSym(key), v.plan.a)] = true
				// the iteration that set it did what every one that sets it does
				var set []*PS
				for _, b := range p.backs {
					if next(v, b) != v.lv {
						set = append(set, b)
					}
				}
				for _, f := range allHave(set) {
					if f.Op == "did" && !occursIn(f, idx) {
						c.st.facts[f] = true
					}
				}
				np = append(np, pick{c, p.e, p.backs})
			}
		}
		picks = np
	}
	sk := mk("sk", key, in.loops[:len(in.loops)-1]...)
	trip := mk("trip", key, in.loops[:len(in.loops)-1]...)
	var out []rawExit
	var recDom *Term
	for _, p := range picks {
		ps := p.ps
		to := sk
		n := counted(ps)
		if n != nil {
			to = n
			recDom = n
		} else if p.e.from == l.header {
			to = trip
		}
		as := alts(p.backs, to)
		in.substPS(ps, idx, to, entry)
		if n != nil {
			for i := range vars {
				if f := filtered(&vars[i], p.backs, next, idx, n, entry); f != nil {
					in.substPS(ps, subst(vars[i].lv, idx, to), f, nil)
				}
			}
		}
		if n != nil && len(as) > 0 && ps.st.facts[mkNot(mkEq(n, mkInt(0)))] {
			// the last time around must have been possible
			last := mkAdd(n, mkInt(-1))
			never := true
			for _, a := range as {
				dead := false
				for _, g := range a.Args {
					dead = dead || subst(g, idx, last) == tFalse
				}
				never = never && dead
			}
			if never {
				continue
			}
		}
		if len(as) > 0 && !(len(as) == 1 && len(as[0].Args) == 0) {
			f := mkBinder("all", idx, append([]*Term{to}, as...)...)
			if k, ok := isInt(to); ok && k <= 8 && len(as) == 1 {
				for j := int64(0); j < k; j++ {
					for _, g := range as[0].Args {
						h := subst(g, idx, mkInt(j))
						if h.Op != "bool" {
							ps.st.facts[h] = true
						}
					}
				}
			}
			if f.Op == "all" {
				ps.st.facts[f] = true
			}
		}
		if in.quiet == 0 && debugTrace {
			fmt.Printf("loop %s exit to=%s\n", key, to)
		}
		out = append(out, rawExit{p.e.from, p.e.to, ps})
	}
	for i := fmark; i < len(fr.out); i++ {
		o := &fr.out[i]
		in.substState(o.st, idx, sk, entry)
		for j, v := range o.vals {
			o.vals[j] = subst(v, idx, sk)
		}
	}
	if in.quiet == 0 {
		r := loopRec{fn: fr.fn, depth: len(in.loops), key: key, idx: idx, dom: recDom}
		for _, f := range in.stack {
			r.stack = append(r.stack, shortName(f.fn))
		}
		for _, b := range backs {
			r.backs = append(r.backs, b.st)
		}
		for _, a := range alts(backs, recDom) {
			r.alts = append(r.alts, a.Args)
		}
		if recDom != nil {
			in.loopDom[idx] = recDom
		}
		for i := range vars {
			v := &vars[i]
			rec := lvRec{lv: v.value(idx), init: v.init}
			for _, b := range backs {
				rec.steps = append(rec.steps, lvStep{b.st.facts, b.st.mem, next(v, b)})
			}
			r.lvs = append(r.lvs, rec)
		}
		in.recs = append(in.recs, r)
	}
	return out
}

// filtered: a list that starts empty and takes each element of a list in turn, or leaves it out,
// is that list with the elements for which the conditions of taking one hold.
func filtered(v *lvar, backs []*PS, next func(*lvar, *PS) *Term, idx, n *Term, entry map[*Term]bool) *Term {
	if v.plan.kind != kOpaque {
		return nil
	}
	pre, ok := listElems(v.init)
	if !ok || n.Op != "len" || occursIn(n.Args[0], idx) {
		return nil
	}
	over := n.Args[0]
	if overKeys := mkKeys(over); overKeys.Op == "keys" {
		for _, b := range backs {
			if nv := next(v, b); nv != nil && occursIn(nv, mkElem(overKeys, idx)) {
				over = overKeys
			}
		}
	}
	var each *Term
	var conds map[*Term]bool
	left := false
	for _, b := range backs {
		nv := next(v, b)
		if nv == v.lv {
			left = true
			continue
		}
		if nv == nil || nv.Op != "concat" || len(nv.Args) != 2 || nv.Args[0] != v.lv || nv.Args[1].Op != "list" || len(nv.Args[1].Args) != 1 {
			return nil
		}
		e := nv.Args[1].Args[0]
		if each != nil && each != e || hasLoopLV(e, idx) {
			return nil
		}
		each = e
		fs := map[*Term]bool{}
		for f := range b.st.facts {
			if entry[f] || !occursIn(f, idx) || f.Op == "did" || conds != nil && !conds[f] {
				continue
			}
			if x := solveIdx(mkNot(f), idx); x != nil && x == n {
				continue
			}
			if hasLoopLV(f, idx) {
				return nil
			}
			fs[f] = true
		}
		conds = fs
	}
	if each == nil || !left || len(conds) == 0 {
		return nil
	}
	for _, b := range backs {
		if next(v, b) != v.lv {
			continue
		}
		out := false // left out for a condition not met
		for f := range conds {
			out = out || b.st.facts[mkNot(f)]
		}
		if !out {
			return nil
		}
	}
	var cs []*Term
	for f := range conds {
		cs = append(cs, f)
	}
	sort.Slice(cs, func(i, j int) bool { return termLess(cs[i], cs[j]) })
	t := mkBinder("filt", idx, over, mk("conj", "", cs...))
	if hasOp(t, "lv") && occursIn(t, idx) {
		return nil
	}
	if each != mkElem(over, idx) {
		// made of what is kept
		j := mk("idx", "kept", idx)
		e := subst(each, mkElem(over, idx), mkElem(t, j))
		if occurs(e, idx) && occurs(subst(e, j, tFalse), idx) {
			return nil
		}
		t = mkBinder("map", j, mkLen(t), e)
	}
	if len(pre) > 0 {
		return mkConcat(mkList(pre...), t)
	}
	return t
}

func consistent(st *State) bool {
	for f := range st.facts {
		if f == tFalse || st.facts[mkNot(f)] {
			return false
		}
	}
	return true
}

func hasLV(ps *PS, lv *Term) bool {
	for _, v := range ps.env {
		if occursIn(v, lv) {
			return true
		}
	}
	for k, v := range ps.st.mem {
		if occursIn(k, lv) || occursIn(v, lv) {
			return true
		}
	}
	for f := range ps.st.facts {
		if occursIn(f, lv) {
			return true
		}
	}
	return false
}

// allHave gives the facts every one of the states has.
func allHave(ps []*PS) []*Term {
	var out []*Term
	if len(ps) == 0 {
		return nil
	}
	for f := range ps[0].st.facts {
		all := true
		for _, p := range ps[1:] {
			all = all && p.st.facts[f]
		}
		if all {
			out = append(out, f)
		}
	}
	return out
}
