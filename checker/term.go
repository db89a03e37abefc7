package main

// Canonical terms. Two SSA values that denote the same function of the entry
// parameters get (as far as the normaliser can tell) the same *Term.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op   string
	Aux  string
	Args []*Term
	ID   int
	hgt  int // 1 + highest bound-variable index occurring in the term (0: none)
	idx  bool
	str  string
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(op, aux string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Aux: aux, Args: append([]*Term(nil), args...), ID: termSeq}
	if op == "var" {
		n, _ := strconv.Atoi(aux)
		t.hgt = n + 1
	}
	if op == "idx" {
		t.idx = true
	}
	for _, a := range args {
		if a.hgt > t.hgt {
			t.hgt = a.hgt
		}
		if a.idx {
			t.idx = true
		}
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("bool", "true")
	tFalse = mk("bool", "false")
	tNil   = mk("nil", "")
	tZero  = mk("zero", "")
	tErr   = mk("nonnil", "err")
)

func mkInt(n int64) *Term  { return mk("int", strconv.FormatInt(n, 10)) }
func mkStr(s string) *Term { return mk("str", strconv.Quote(s)) }
func mkBool(b bool) *Term  { return map[bool]*Term{true: tTrue, false: tFalse}[b] }
func mkVar(n int) *Term    { return mk("var", strconv.Itoa(n)) }
func mkSym(s string) *Term { return mk("sym", s) }
func (t *Term) String() string {
	if t.str == "" {
		t.str = printTerm(t)
	}
	return t.str
}

func isInt(t *Term) (int64, bool) {
	if t.Op == "int" {
		n, err := strconv.ParseInt(t.Aux, 10, 64)
		return n, err == nil
	}
	if t.Op == "zero" {
		return 0, true
	}
	return 0, false
}

// ---- linear arithmetic ----

type lin struct {
	c     int64
	coef  map[*Term]int64
	order []*Term
}

func toLin(t *Term) lin {
	l := lin{coef: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, k int64) {
	if n, ok := isInt(t); ok {
		l.c += k * n
		return
	}
	if t.Op == "lin" {
		n, _ := strconv.ParseInt(t.Aux, 10, 64)
		l.c += k * n
		for i := 0; i+1 < len(t.Args); i += 2 {
			cf, _ := isInt(t.Args[i])
			l.atom(t.Args[i+1], k*cf)
		}
		return
	}
	l.atom(t, k)
}

func (l *lin) atom(t *Term, k int64) {
	l.coef[t] += k
	if l.coef[t] == 0 {
		delete(l.coef, t)
	}
}

func (l lin) atoms() []*Term {
	var out []*Term
	for t := range l.coef {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return termLess(out[i], out[j]) })
	return out
}

func termLess(a, b *Term) bool {
	if a == b {
		return false
	}
	sa, sb := a.String(), b.String()
	if sa != sb {
		return sa < sb
	}
	return a.ID < b.ID
}

func (l lin) term() *Term {
	if len(l.coef) == 0 {
		return mkInt(l.c)
	}
	at := l.atoms()
	if len(at) == 1 && l.c == 0 && l.coef[at[0]] == 1 {
		return at[0]
	}
	var args []*Term
	for _, a := range at {
		args = append(args, mkInt(l.coef[a]), a)
	}
	return mk("lin", strconv.FormatInt(l.c, 10), args...)
}

func mkAdd(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, 1)
	return l.term()
}

// mkSub: for unsigned operands the difference can wrap, so it stays opaque unless it cancels to
// something obviously non-negative.
func mkSub(a, b *Term, unsigned bool) *Term {
	l := toLin(a)
	l.add(b, -1)
	if !unsigned {
		return l.term()
	}
	neg := l.c < 0
	for _, k := range l.coef {
		if k < 0 {
			neg = true
		}
	}
	if !neg {
		return l.term()
	}
	if b.Op == "usub" && b.Args[0] == a {
		return b.Args[1] // exact, also when it wraps
	}
	return mk("usub", "", a, b)
}

// sameRing: the same sum when each subtraction is taken to wrap, as unsigned ones do. Two such sums
// are equal whatever the values, in whichever order the subtraction is done.
func sameRing(a, b *Term) bool {
	wraps := false
	var add func(l *lin, t *Term, k int64)
	add = func(l *lin, t *Term, k int64) {
		switch {
		case t.Op == "usub":
			wraps = true
			add(l, t.Args[0], k)
			add(l, t.Args[1], -k)
		case t.Op == "lin":
			n, _ := strconv.ParseInt(t.Aux, 10, 64)
			l.c += k * n
			for i := 0; i+1 < len(t.Args); i += 2 {
				cf, _ := isInt(t.Args[i])
				add(l, t.Args[i+1], k*cf)
			}
		default:
			l.add(t, k)
		}
	}
	l := lin{coef: map[*Term]int64{}}
	add(&l, a, 1)
	add(&l, b, -1)
	return wraps && len(l.coef) == 0 && l.c == 0
}

func mkMul(a, b *Term) *Term {
	if n, ok := isInt(a); ok {
		l := lin{coef: map[*Term]int64{}}
		l.add(b, n)
		return l.term()
	}
	if n, ok := isInt(b); ok {
		l := lin{coef: map[*Term]int64{}}
		l.add(a, n)
		return l.term()
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mk("mul", "", a, b)
}

func mkNot(t *Term) *Term {
	switch t.Op {
	case "bool":
		return mkBool(t.Aux != "true")
	case "not":
		return t.Args[0]
	}
	return mk("not", "", t)
}

func nonneg(t *Term) bool {
	switch t.Op {
	case "len", "idx", "var":
		return true
	}
	return false
}

func mkLt(a, b *Term, unsigned bool) *Term {
	if a == b {
		return tFalse
	}
	na, oka := isInt(a)
	nb, okb := isInt(b)
	if oka && okb {
		return mkBool(na < nb)
	}
	if unsigned {
		if okb && nb == 0 {
			return tFalse
		}
		if oka && na == 0 {
			return mkNot(mkEq(b, mkInt(0)))
		}
		if okb && nb == 1 {
			return mkEq(a, mkInt(0))
		}
		lb := toLin(b)
		la := toLin(a)
		if len(lb.coef) > 0 && lb.c >= 1 {
			if la.c > 0 && len(la.coef) > 0 {
				m := la.c
				if lb.c < m {
					m = lb.c
				}
				la.c -= m
				lb.c -= m
			}
			if lb.c >= 1 {
				lb.c--
				return mkNot(mkLt(lb.term(), la.term(), true))
			}
		}
		return mk("lt", "u", la.term(), lb.term())
	}
	l := toLin(a)
	l.add(b, -1)
	return lt0(l)
}

// lt0 canonicalises l < 0 over the integers.
func lt0(l lin) *Term {
	at := l.atoms()
	if len(at) == 0 {
		return mkBool(l.c < 0)
	}
	up, down := l.c >= 0, l.c < 0
	for _, t := range at {
		up = up && l.coef[t] > 0 && nonneg(t)
		down = down && l.coef[t] < 0 && nonneg(t)
	}
	if up {
		return tFalse
	}
	if down {
		return tTrue
	}
	if l.coef[at[0]] < 0 {
		// l<0  <=>  !( -l <= 0 )  <=>  !( -l-1 < 0 )
		n := lin{c: -l.c - 1, coef: map[*Term]int64{}}
		for t, k := range l.coef {
			n.coef[t] = -k
		}
		return mkNot(lt0(n))
	}
	if len(at) == 1 && l.coef[at[0]] == 1 && nonneg(at[0]) {
		if l.c >= 0 {
			return tFalse
		}
		if l.c == -1 {
			return mkEq(at[0], mkInt(0))
		}
	}
	pos := lin{coef: map[*Term]int64{}}
	neg := lin{coef: map[*Term]int64{}}
	for t, k := range l.coef {
		if k > 0 {
			pos.coef[t] = k
		} else {
			neg.coef[t] = -k
		}
	}
	if l.c > 0 {
		pos.c = l.c
	} else {
		neg.c = -l.c
	}
	return mk("lt", "", pos.term(), neg.term())
}

func isLinNum(t *Term) bool {
	switch t.Op {
	case "lin", "int", "len", "idx", "var":
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "bool" {
		a, b = b, a
	}
	if b.Op == "bool" {
		if a.Op == "bool" {
			return mkBool(a.Aux == b.Aux)
		}
		if b.Aux == "true" {
			return a
		}
		return mkNot(a)
	}
	if a.Op == "str" && b.Op == "str" {
		return tFalse
	}
	if a.Op == "str" || b.Op == "str" {
		s, o := a, b
		if b.Op == "str" {
			s, o = b, a
		}
		if v := boolText(o); v != nil {
			switch unq(s) {
			case "true":
				return v
			case "false":
				return mkNot(v)
			}
			return tFalse
		}
	}
	na, oka := isInt(a)
	nb, okb := isInt(b)
	if oka && okb && a.Op == "int" && b.Op == "int" {
		return mkBool(na == nb)
	}
	if (a.Op == "zero" && b.Op == "int" && nb == 0) || (b.Op == "zero" && a.Op == "int" && na == 0) {
		return tTrue
	}
	if sameRing(a, b) {
		return tTrue
	}
	if isLinNum(a) || isLinNum(b) {
		l := toLin(a)
		l.add(b, -1)
		at := l.atoms()
		away := l.c != 0
		for t, c := range l.coef {
			// numbers of things are not negative
			away = away && (c > 0) == (l.c > 0) && (t.Op == "idx" || t.Op == "sk" || t.Op == "trip" || t.Op == "len")
		}
		if away {
			return tFalse
		}
		if len(at) == 0 {
			return mkBool(l.c == 0)
		}
		s := int64(1)
		if l.coef[at[0]] < 0 {
			s = -1
		}
		pos := lin{coef: map[*Term]int64{}}
		neg := lin{coef: map[*Term]int64{}}
		for t, k := range l.coef {
			if k*s > 0 {
				pos.coef[t] = k * s
			} else {
				neg.coef[t] = -k * s
			}
		}
		if l.c*s > 0 {
			pos.c = l.c * s
		} else {
			neg.c = -l.c * s
		}
		x, y := pos.term(), neg.term()
		// x - 1 where x nonneg etc. cannot be decided here
		return mk("eq", "", x, y)
	}
	isNonnil := func(t *Term) bool {
		return t.Op == "nonnil" || t.Op == "obj" || t.Op == "closure" || t.Op == "addr" || t.Op == "func" || t.Op == "list" || t.Op == "struct"
	}
	if (a.Op == "nil" && isNonnil(b)) || (b.Op == "nil" && isNonnil(a)) {
		return tFalse
	}
	if (a.Op == "nil" && b.Op == "zero") || (a.Op == "zero" && b.Op == "nil") {
		return tTrue
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// ---- structure ----

func mkField(t *Term, name string) *Term {
	switch t.Op {
	case "zero":
		return tZero
	case "struct":
		for i := 0; i < len(t.Args); i++ {
			if structField(t, i) == name {
				return t.Args[i]
			}
		}
		return tZero
	case "with": // base struct with field overrides
		for i := 0; i < len(t.Args)-1; i++ {
			if structField(t, i) == name {
				return t.Args[i]
			}
		}
		return mkField(t.Args[len(t.Args)-1], name)
	}
	return mk("fld", name, t)
}

func structField(t *Term, i int) string {
	p := strings.SplitN(t.Aux, ":", 2)
	return strings.Split(p[1], ",")[i]
}

func mkStruct(typ string, names []string, vals []*Term) *Term {
	type nv struct {
		n string
		v *Term
	}
	var l []nv
	for i := range names {
		if vals[i].Op == "zero" {
			continue
		}
		l = append(l, nv{names[i], vals[i]})
	}
	if len(l) == 0 {
		return tZero
	}
	// a struct rebuilt from all the fields of one value is that value: handled by caller
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	var ns []string
	var vs []*Term
	for _, x := range l {
		ns = append(ns, x.n)
		vs = append(vs, x.v)
	}
	return mk("struct", typ+":"+strings.Join(ns, ","), vs...)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case "nil", "zero":
		return mkInt(0)
	case "list":
		return mkInt(int64(len(t.Args)))
	case "str":
		s, _ := strconv.Unquote(t.Aux)
		return mkInt(int64(len(s)))
	case "map":
		return domLen(t.Args[0])
	case "concat", "cat":
		l := mkInt(0)
		for _, a := range t.Args {
			l = mkAdd(l, mkLen(a))
		}
		return l
	case "reverse", "sorted":
		return mkLen(t.Args[0])
	case "keys":
		if distinctKeys(t.Args[0]) {
			return domLen(t.Args[0].Args[0])
		}
		return mk("len", "", t.Args[0])
	case "make":
		return t.Args[0]
	case "upd":
		return mkLen(t.Args[0])
	case "fill":
		return mkLen(t.Args[3])
	case "emptymap":
		return mkInt(0)
	case "slice":
		lo, hi := t.Args[1], t.Args[2]
		if hi.Op == "nil" {
			hi = mkLen(t.Args[0])
		}
		if lo.Op == "nil" {
			return hi
		}
		return mkSub(hi, lo, false)
	case "bytes": // conversion string<->[]byte
		return mkLen(t.Args[0])
	case "call":
		switch t.Aux {
		case "be64":
			return mkInt(8)
		case "be16":
			return mkInt(2)
		}
		if h := hexArg(t); h != nil && h.Op == "fld" && h.Aux == "data" {
			return mkInt(64) // core.HashT.data is 32 bytes (checked with hash-text)
		}
	case "flat":
		if b := t.Args[1]; b.Op == "list" {
			return mkMul(mkInt(int64(len(b.Args))), domLen(t.Args[0]))
		}
	}
	return mk("len", "", t)
}

// domLen gives the number of iterations of a loop domain.
func domLen(d *Term) *Term {
	switch d.Op {
	case "rng":
		return mkSub(d.Args[1], d.Args[0], false)
	case "keys":
		return mk("len", "", d.Args[0])
	}
	return d
}

func mkElem(t, i *Term) *Term {
	switch t.Op {
	case "list":
		if n, ok := isInt(i); ok && n >= 0 && int(n) < len(t.Args) {
			return t.Args[n]
		}
	case "map":
		if t.Args[0].Op == "rng" {
			return subst(t.Args[1], binderVar(t), mkAdd(i, t.Args[0].Args[0]))
		}
		if t.Args[0].Op != "keys" {
			return subst(t.Args[1], binderVar(t), i)
		}
	case "concat":
		if n, ok := isInt(i); ok {
			for _, a := range t.Args {
				if a.Op != "list" {
					break
				}
				if int(n) < len(a.Args) {
					return a.Args[n]
				}
				n -= int64(len(a.Args))
			}
		}
		// past a first list of known length
		if l := t.Args[0]; l.Op == "list" && (i.Op == "lin" || i.Op == "len") {
			if x := toLin(i); x.c >= int64(len(l.Args)) {
				past := true
				for a, c := range x.coef {
					past = past && c > 0 && (a.Op == "idx" || a.Op == "sk" || a.Op == "trip" || a.Op == "len")
				}
				if past {
					return mkElem(mkConcat(t.Args[1:]...), mkAdd(i, mkInt(-int64(len(l.Args)))))
				}
			}
		}
		// past everything but a final list of known length
		if l := t.Args[len(t.Args)-1]; l.Op == "list" {
			d := mkSub(mkSub(mkLen(t), mkInt(1), false), i, false)
			if n, ok := isInt(d); ok && n >= 0 && int(n) < len(l.Args) {
				return l.Args[len(l.Args)-1-int(n)]
			}
		}
	case "cat":
		if l := t.Args[len(t.Args)-1]; l.Op == "str" && len(unq(l)) == 1 && i == mkSub(mkLen(t), mkInt(1), false) {
			return mkInt(int64(unq(l)[0]))
		}
	case "reverse":
		return mkElem(t.Args[0], mkSub(mkAdd(mkLen(t.Args[0]), mkInt(-1)), i, false))
	case "slice":
		if t.Args[1].Op == "nil" {
			return mkElem(t.Args[0], i)
		}
		return mkElem(t.Args[0], mkAdd(i, t.Args[1]))
	case "make":
		return tZero
	case "keys":
		// a map filled with one entry per element: its keys are those entries', in some order
		if m := t.Args[0]; distinctKeys(m) && i.Op != "perm" {
			return subst(m.Args[1], binderVar(m), mk("perm", "", m, i))
		}
	case "upd":
		if t.Args[1] == i {
			return t.Args[2]
		}
		if distinct(t.Args[1], i) {
			return mkElem(t.Args[0], i)
		}
	case "fill":
		// positions c..c+dom-1 hold their bodies
		v := binderVar(t)
		if c, ok := isInt(mkSub(t.Args[1], v, false)); ok && t.Args[0].Op != "keys" {
			if n, ok := isInt(i); ok && n < c {
				return mkElem(t.Args[3], i)
			}
			if n, ok := isInt(mkSub(i, mkAdd(domLen(t.Args[0]), mkInt(c)), false)); ok {
				if n < 0 && c == 0 {
					return subst(t.Args[2], v, i)
				}
				if n >= 0 {
					return mkElem(t.Args[3], i)
				}
			}
		}
	}
	return mk("elem", "", t, i)
}

// distinctKeys: a map filled from empty with an entry under a key of its own for each element.
func distinctKeys(m *Term) bool {
	if m.Op != "mapof" || len(m.Args) != 4 || m.Args[3].Op != "emptymap" {
		return false
	}
	v := binderVar(m)
	k := m.Args[1]
	for isCall(k, "core.HashT.String") && len(k.Args) == 1 {
		k = k.Args[0]
	}
	return k.Op == "elem" && k.Args[1] == v && k.Args[0].Op == "keys" && !occurs(k.Args[0], v) && m.Args[0] == mkLen(k.Args[0])
}

// binders: map(dom, body), sum(dom, body), all(dom, dir, ...) use var(k) with k = Aux
func binderVar(t *Term) *Term {
	n, _ := strconv.Atoi(t.Aux)
	return mkVar(n)
}

func subst(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x == from {
			return to
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		if from.idx && !x.idx || from.Op == "var" && x.hgt == 0 {
			return x
		}
		if isBinder(x) {
			r := substBinder(x, from, to, rec)
			memo[x] = r
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func isBinder(t *Term) bool {
	switch t.Op {
	case "map", "sum", "all", "filt", "mapof", "flat", "fill", "ex":
		return true
	}
	return false
}

var tmpSeq int

// substBinder substitutes under a binder without capturing.
func substBinder(x, from, to *Term, rec func(*Term) *Term) *Term {
	v := binderVar(x)
	args := make([]*Term, len(x.Args))
	args[0] = rec(x.Args[0])
	ch := args[0] != x.Args[0]
	if v == from {
		copy(args[1:], x.Args[1:])
		if !ch {
			return x
		}
		return rebuild(x, args)
	}
	if to.hgt == 0 || !occurs(to, v) {
		for i, a := range x.Args[1:] {
			args[i+1] = rec(a)
			if args[i+1] != a {
				ch = true
			}
		}
		if !ch {
			return x
		}
		return rebuild(x, args)
	}
	tmpSeq++
	tv := mk("tmpvar", strconv.Itoa(tmpSeq))
	for i, a := range x.Args[1:] {
		args[i+1] = rec(subst(a, v, tv))
	}
	if x.Op == "fill" {
		return mkFill(tv, args[0], args[1], args[2], args[3])
	}
	return mkBinder(x.Op, tv, args...)
}

// rebuild re-applies the smart constructor.
func rebuild(x *Term, args []*Term) *Term {
	switch x.Op {
	case "fld":
		return mkField(args[0], x.Aux)
	case "elem":
		r := mkElem(args[0], args[1])
		if arrayLocs[x] && r.Op == "elem" {
			arrayLocs[r] = true
		}
		return r
	case "len":
		return mkLen(args[0])
	case "not":
		return mkNot(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		if x.Aux == "h" {
			return mkHashLt(args[0], args[1])
		}
		if x.Aux == "f" {
			return mk("lt", "f", args...)
		}
		return mkLt(args[0], args[1], x.Aux == "u")
	case "lin":
		l := lin{coef: map[*Term]int64{}}
		n, _ := strconv.ParseInt(x.Aux, 10, 64)
		l.c = n
		for i := 0; i+1 < len(args); i += 2 {
			k, _ := isInt(args[i])
			l.add(args[i+1], k)
		}
		return l.term()
	case "usub":
		return mkSub(args[0], args[1], true)
	case "mul":
		return mkMul(args[0], args[1])
	case "map", "sum", "all", "filt", "mapof", "flat", "ex":
		return rebind(x, args)
	case "fill":
		if args[0] != x.Args[0] || args[3] != x.Args[3] {
			return mkFill(binderVar(x), args[0], args[1], args[2], args[3])
		}
		return rebind(x, args)
	case "concat":
		return mkConcat(args...)
	case "cat":
		return mkCat(args...)
	case "slice":
		return mkSlice(args[0], args[1], args[2])
	case "reverse":
		return mkReverse(args[0])
	case "upd":
		return mkUpd(args[0], args[1], args[2])
	case "lookup":
		return mkLookup(args[0], args[1])
	case "has":
		return mkHas(args[0], args[1])
	case "in":
		return mkIn(args[0], args[1])
	case "inter":
		return mkInter(args[0], args[1])
	case "keys":
		return mkKeys(args[0])
	case "obj":
		t := mk(x.Op, x.Aux, args...)
		if objTypes[t] == nil {
			objTypes[t] = objTypes[x]
		}
		return t
	case "with":
		if b := args[len(args)-1]; b != x.Args[len(args)-1] && (b.Op == "struct" || b.Op == "with") {
			for i, v := range args[:len(args)-1] {
				b = withPath(b, []string{structField(x, i)}, v)
			}
			return b
		}
	case "call":
		return callTerm(x.Aux, args...)
	case "cmp":
		return mk(x.Op, x.Aux, args...)
	}
	return mk(x.Op, x.Aux, args...)
}

// rebind rebuilds a binder whose dom/bodies were rewritten. The rewritten parts may mention
// other variables of the same name only if the caller substituted an outer bound variable in;
// the inner one is renamed away first by mkBinder.
func rebind(x *Term, args []*Term) *Term {
	return mkBinder(x.Op, binderVar(x), args...)
}

// mkBinder(op, v, dom, body...) closes v (an idx or var) over body with a canonical bound variable.
var binderDepth int

func mkBinder(op string, v *Term, args ...*Term) *Term {
	h := 0
	body := args[1:]
	binderDepth++
	tmp := mk("tmpvar", "b"+strconv.Itoa(binderDepth)) // distinct from that of any binder being rebuilt meanwhile
	defer func() { binderDepth-- }()
	nb := make([]*Term, len(body))
	for i, b := range body {
		nb[i] = subst(b, v, tmp)
		if nb[i].hgt > h {
			h = nb[i].hgt
		}
	}
	bv := mkVar(h)
	out := []*Term{args[0]}
	for i := range nb {
		out = append(out, subst(nb[i], tmp, bv))
	}
	if op == "mapof" {
		// filled in the order of another map's keys: any order fills the same
		var p *Term
		for _, b := range out[1:] {
			anyTerm(b, func(x *Term) bool {
				if x.Op == "perm" && x.Args[1] == bv && mkLen(mkKeys(x.Args[0])) == out[0] {
					p = x
				}
				return p != nil
			})
		}
		if p != nil {
			tv := mk("tmpvar", "p"+strconv.Itoa(binderDepth))
			ok := !occurs(p.Args[0], bv)
			nb := []*Term{out[0]}
			for _, b := range out[1:] {
				b = subst(b, p, tv)
				ok = ok && !occurs(b, bv)
				nb = append(nb, b)
			}
			if ok {
				return mkBinder(op, tv, nb...)
			}
		}
	}
	if op == "mapof" && len(out) == 4 && out[3].Op == "emptymap" && out[1].Op == "elem" && out[1].Args[0].Op == "keys" {
		// every entry of another map
		if m := out[1].Args[0].Args[0]; !occurs(m, bv) && out[1].Args[1] == bv && out[2] == mkLookup(m, out[1]) && out[0] == mkLen(out[1].Args[0]) {
			return m
		}
	}
	if op == "map" {
		// identity map over a whole sequence is the sequence
		e := out[1]
		if e.Op == "elem" && e.Args[1] == bv && mkLen(e.Args[0]) == out[0] && !occurs(e.Args[0], bv) {
			return e.Args[0]
		}
	}
	if n, ok := isInt(out[0]); ok && n >= 0 && n <= 8 && (op == "map" || op == "sum") {
		var l []*Term
		sum := mkInt(0)
		for i := int64(0); i < n; i++ {
			e := subst(out[1], bv, mkInt(i))
			l = append(l, e)
			sum = mkAdd(sum, e)
		}
		if op == "sum" {
			return sum
		}
		return mk("list", "", l...)
	}
	if op == "sum" {
		if back := mkSub(mkAdd(domLen(out[0]), mkInt(-1)), bv, false); occurs(out[1], back) && out[0].Op != "keys" {
			// added up from the last to the first
			tv := mk("tmpvar", "r"+strconv.Itoa(binderDepth))
			if b := subst(out[1], back, tv); !occurs(b, bv) {
				return mkBinder(op, tv, out[0], b)
			}
		}
		if out[1].Op == "int" && out[0].Op != "keys" {
			k, _ := isInt(out[1])
			return mkMul(mkInt(k), domLen(out[0]))
		}
		// split off the last one: sum over n+1 = sum over n + the one at n
		if !out[0].idx && out[0].hgt == 0 && out[0].Op == "lin" && anyTermMemo(out[0], func(x *Term) bool { return x.Op == "sk" }) {
			if d := toLin(out[0]); d.c > 0 && d.c <= 4 {
				n := mkAdd(out[0], mkInt(-1))
				return mkAdd(mkBinder(op, bv, n, out[1]), subst(out[1], bv, n))
			}
		}
		// split sums: sum(a+b) = sum a + sum b
		l := toLin(out[1])
		if len(l.coef) > 1 || (len(l.coef) == 1 && (l.c != 0 || l.coef[l.atoms()[0]] != 1)) {
			r := lin{coef: map[*Term]int64{}}
			for _, a := range l.atoms() {
				r.add(mkBinder("sum", bv, out[0], a), l.coef[a])
			}
			if l.c != 0 {
				r.add(domLen(out[0]), l.c)
			}
			return r.term()
		}
	}
	return mk(op, strconv.Itoa(h), out...)
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if anyTerm(a, f) {
			return true
		}
	}
	return false
}

// ---- printing ----

func printTerm(t *Term) string {
	arg := func(i int) string { return t.Args[i].String() }
	list := func(from int) string {
		var s []string
		for _, a := range t.Args[from:] {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "bool", "int", "str":
		return t.Aux
	case "sym":
		return t.Aux
	case "nil":
		return "nil"
	case "zero":
		return "0"
	case "nonnil":
		return t.Aux
	case "var":
		return "$" + t.Aux
	case "idx":
		return "#" + strings.SplitN(t.Aux, ".", 2)[0]
	case "fld":
		return arg(0) + "." + t.Aux
	case "elem":
		return arg(0) + "[" + arg(1) + "]"
	case "lookup":
		return arg(0) + "[" + arg(1) + "]"
	case "len":
		return "len(" + arg(0) + ")"
	case "not":
		a := t.Args[0]
		if a.Op == "eq" {
			return "(" + a.Args[0].String() + " != " + a.Args[1].String() + ")"
		}
		if a.Op == "lt" {
			return "(" + a.Args[0].String() + " >= " + a.Args[1].String() + ")"
		}
		return "!" + arg(0)
	case "eq":
		return "(" + arg(0) + " == " + arg(1) + ")"
	case "lt":
		return "(" + arg(0) + " < " + arg(1) + ")"
	case "lin":
		var s []string
		for i := 0; i+1 < len(t.Args); i += 2 {
			k := t.Args[i].Aux
			if k == "1" {
				s = append(s, t.Args[i+1].String())
			} else {
				s = append(s, k+"*"+t.Args[i+1].String())
			}
		}
		if t.Aux != "0" {
			s = append(s, t.Aux)
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "usub":
		return "(" + arg(0) + " - " + arg(1) + ")"
	case "mul":
		return "(" + arg(0) + " * " + arg(1) + ")"
	case "bin":
		return "(" + arg(0) + " " + t.Aux + " " + arg(1) + ")"
	case "list":
		return "[" + list(0) + "]"
	case "struct":
		var s []string
		for i := range t.Args {
			s = append(s, structField(t, i)+": "+arg(i))
		}
		return strings.SplitN(t.Aux, ":", 2)[0] + "{" + strings.Join(s, ", ") + "}"
	case "with":
		var s []string
		for i := 0; i < len(t.Args)-1; i++ {
			s = append(s, structField(t, i)+": "+arg(i))
		}
		return arg(len(t.Args)-1) + "{" + strings.Join(s, ", ") + "}"
	case "map", "sum", "psum":
		return t.Op + "(" + arg(0) + "; " + list(1) + ")"
	case "all":
		return "all" + "(" + list(0) + ")"
	case "call":
		return t.Aux + "(" + list(0) + ")"
	case "ext":
		return arg(0) + "." + t.Aux
	case "occ":
		return arg(0) + "@" + t.Aux
	case "addr":
		return "&" + arg(0)
	case "obj":
		return t.Aux
	case "did":
		return "did " + t.Aux + "(" + list(0) + ")"
	case "slice":
		f := func(x *Term) string {
			if x.Op == "nil" {
				return ""
			}
			return x.String()
		}
		return arg(0) + "[" + f(t.Args[1]) + ":" + f(t.Args[2]) + "]"
	case "alts":
		var s []string
		for _, a := range t.Args {
			s = append(s, "{"+a.String()+"}")
		}
		return strings.Join(s, " or ")
	case "conj":
		var s []string
		for _, a := range t.Args {
			s = append(s, a.String())
		}
		return strings.Join(s, " & ")
	}
	if t.Aux != "" {
		return fmt.Sprintf("%s:%s(%s)", t.Op, t.Aux, list(0))
	}
	return fmt.Sprintf("%s(%s)", t.Op, list(0))
}
