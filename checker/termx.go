package main

import (
	"strings"
)

// ---- maps ----

func mkLookup(c, k *Term) *Term {
	switch c.Op {
	case "emptymap", "nil", "zero":
		return tZero
	case "mapput":
		if c.Args[1] == k {
			return c.Args[2]
		}
		if distinct(c.Args[1], k) {
			return mkLookup(c.Args[0], k)
		}
	case "mapdel":
		if c.Args[1] == k {
			return tZero
		}
		if distinct(c.Args[1], k) {
			return mkLookup(c.Args[0], k)
		}
	case "mapof":
		if c.Args[3].Op == "emptymap" && len(c.Args) == 4 {
			key, kk, v := c.Args[1], k, binderVar(c)
			for isCall(key, "core.HashT.String") && isCall(kk, "core.HashT.String") {
				key, kk = key.Args[0], kk.Args[0]
			}
			// keyed by the very element: k = key(j) for a domain element j
			if j := solveElem(key, v, kk); j != nil {
				return subst(c.Args[2], v, j)
			}
			// keyed by the elements of a list, looked up with an element of a rearrangement of it
			if key.Op == "elem" && key.Args[1] == v && kk.Op == "elem" && permOf(kk.Args[0], key.Args[0]) && c.Args[0] == mkLen(key.Args[0]) {
				if b := subst(c.Args[2], key, kk); !occurs(b, v) {
					return b
				}
			}
		}
	}
	return mk("lookup", "", c, k)
}

// solveElem finds j with key(j) == k when key is elem(X, var).
func solveElem(key, v, k *Term) *Term {
	if key.Op == "elem" && key.Args[1] == v && !occurs(key.Args[0], v) && k.Op == "elem" && k.Args[0] == key.Args[0] {
		return k.Args[1]
	}
	return nil
}

func mkHas(c, k *Term) *Term {
	switch c.Op {
	case "emptymap", "nil", "zero":
		return tFalse
	case "mapput":
		if c.Args[1] == k {
			return tTrue
		}
		if distinct(c.Args[1], k) {
			return mkHas(c.Args[0], k)
		}
	case "mapdel":
		if c.Args[1] == k {
			return tFalse
		}
		if distinct(c.Args[1], k) {
			return mkHas(c.Args[0], k)
		}
	}
	if k.Op == "elem" && k.Args[0] == mkKeys(c) {
		return tTrue
	}
	return mk("has", "", c, k)
}

func distinct(a, b *Term) bool { return mkEq(a, b) == tFalse }

func mkKeys(m *Term) *Term {
	switch m.Op {
	case "emptymap", "nil", "zero":
		return mk("list", "")
	}
	return mk("keys", "", m)
}

// ---- sets (a set's content is the list of what was put into it) ----

func mkIn(x, c *Term) *Term {
	switch c.Op {
	case "list":
		maybe := false
		for _, a := range c.Args {
			if a == x {
				return tTrue
			}
			if !distinct(a, x) {
				maybe = true
			}
		}
		if !maybe {
			return tFalse
		}
		if len(c.Args) == 1 {
			return mkEq(c.Args[0], x)
		}
	case "nil", "zero", "emptymap":
		return tFalse
	case "concat":
		for _, p := range c.Args {
			if p.Op == "list" {
				for _, a := range p.Args {
					if a == x {
						return tTrue
					}
				}
			}
		}
	case "srm":
		if c.Args[1] == x {
			return tFalse
		}
	case "keys":
		return mkHas(c.Args[0], x)
	case "slice":
		// nothing
	}
	if x.Op == "elem" && x.Args[0] == c {
		return tTrue
	}
	return mk("in", "", x, c)
}

func mkInter(a, b *Term) *Term {
	if a.Op == "list" && len(a.Args) == 0 || b.Op == "list" && len(b.Args) == 0 {
		return tFalse
	}
	if a.Op == "list" && len(a.Args) == 1 {
		return mkIn(a.Args[0], b)
	}
	if b.Op == "list" && len(b.Args) == 1 {
		return mkIn(b.Args[0], a)
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mk("inter", "", a, b)
}

// ---- lists built by loops ----

// mkFill: a sequence whose positions ix(0..dom-1) were assigned body, starting from init.
func mkFill(v, dom, ix, body, init *Term) *Term {
	if dom.Op == "int" && dom.Aux == "0" {
		return init
	}
	n := mkLen(init)
	if n == domLen(dom) && !occurs(dom, v) {
		if ix == v {
			return mkBinder("map", v, dom, body)
		}
		if ix == mkSub(mkAdd(n, mkInt(-1)), v, false) {
			// position n-1-j holds body(j): position j holds body(n-1-j)
			return mkReverse(mkBinder("map", v, dom, body))
		}
	}
	return mkBinder("fill", v, dom, ix, body, init)
}

func mkReverse(t *Term) *Term {
	switch t.Op {
	case "reverse":
		return t.Args[0]
	case "list":
		n := len(t.Args)
		l := make([]*Term, n)
		for i, a := range t.Args {
			l[n-1-i] = a
		}
		return mk("list", "", l...)
	case "nil", "zero":
		return t
	case "map":
		// elementwise image of a reversed sequence
		n := domLen(t.Args[0])
		v := binderVar(t)
		r := subst(t.Args[1], v, mkSub(mkAdd(n, mkInt(-1)), v, false))
		if r.String() < t.Args[1].String() && (t.Args[0].Op != "keys") {
			return mkBinder("map", v, t.Args[0], r)
		}
		if r == t.Args[1] {
			return t
		}
	}
	return mk("reverse", "", t)
}

func mkFlat(v, dom, body *Term) *Term {
	if body.Op == "list" && len(body.Args) == 1 {
		return mkBinder("map", v, dom, body.Args[0])
	}
	// flattening a sequence of sequences
	return mkBinder("flat", v, dom, body)
}

func hasOp(t *Term, op string) bool {
	return anyTermMemo(t, func(x *Term) bool { return x.Op == op })
}

func anyTermMemo(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func occursIn(t, x *Term) bool {
	if x.idx && !t.idx {
		return false
	}
	return anyTermMemo(t, func(y *Term) bool { return y == x })
}

func isCall(t *Term, name string) bool { return t.Op == "call" && t.Aux == name }

// ids in the inventory are the hashes of what they name (checked at every store by C08)
var idOf = map[string]string{"core.Tx.Hash": "inv.Inv.GetTx", "core.MerkleNode.Hash": "inv.Inv.GetMerkle"}

func callTerm(name string, args ...*Term) *Term {
	if g := idOf[name]; g != "" && len(args) == 1 && isCall(args[0], g) && len(args[0].Args) == 1 {
		return args[0].Args[0]
	}
	return mk("call", name, args...)
}

func shortOp(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// permOf: a is l in another order.
func permOf(a, l *Term) bool {
	for a != l {
		if a.Op != "sorted" && a.Op != "reverse" || len(a.Args) == 0 {
			return false
		}
		a = a.Args[0]
	}
	return true
}
