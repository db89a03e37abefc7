package main

import (
	"encoding/hex"
	"strings"
)

// Pairs of functions that undo each other, so that reading back what was written is decided by
// rewriting: parse(print(x)) = x. Only facts about the standard library are built in; the repo's own
// pairs (HashT.String and NewHashTFromString) are analysed in the same way where a rule needs them.

// elemAt is the element of a sequence at an index, using what is known about the index to find the
// part of a concatenation it falls in.
func (in *Interp) elemAt(st *State, c, i *Term) *Term {
	switch c.Op {
	case "slice":
		lo := c.Args[1]
		if lo.Op == "nil" {
			lo = mkInt(0)
		}
		if r := in.elemAt(st, c.Args[0], mkAdd(lo, i)); r.Op != "elem" || r.Args[0] == c.Args[0] {
			return r
		}
	case "flat":
		if r := in.flatElem(st, c, i); r != nil {
			return r
		}
	case "concat":
		off := i
		for _, p := range c.Args {
			n := mkLen(p)
			if in.evalCond(st, mkLt(off, n, false)) == tTrue || in.within(st, p, off) {
				if r := in.elemAt(st, p, off); r.Op != "elem" || r.Args[0] == p {
					return r
				}
				break
			}
			rest := toLin(mkSub(off, n, false))
			if rest.c < 0 || !allNonneg(rest) {
				break
			}
			off = rest.term()
		}
	}
	return mkElem(c, i)
}

func allNonneg(l lin) bool {
	for t, k := range l.coef {
		if k < 0 || !nonneg(t) {
			return false
		}
	}
	return l.c >= 0
}

// flatElem: the index w*j+k, with 0 <= k < w and j in the domain, of w items per iteration.
func (in *Interp) flatElem(st *State, c, i *Term) *Term {
	body := c.Args[1]
	if body.Op != "list" || len(body.Args) == 0 {
		return nil
	}
	w := int64(len(body.Args))
	l := toLin(i)
	j := lin{coef: map[*Term]int64{}}
	for t, k := range l.coef {
		if k%w != 0 || !nonneg(t) || k < 0 {
			return nil
		}
		j.coef[t] = k / w
	}
	if l.c < 0 {
		return nil
	}
	j.c = l.c / w
	jt := j.term()
	if n := domLen(c.Args[0]); in.evalCond(st, mkLt(jt, n, false)) != tTrue && in.evalCond(st, mkLt(jt, n, true)) != tTrue {
		return nil
	}
	return subst(body.Args[l.c%w], binderVar(c), jt)
}

func (in *Interp) within(st *State, p, i *Term) bool {
	return p.Op == "flat" && in.flatElem(st, p, i) != nil
}

// plainRow: text that is never empty and holds no line break.
func plainRow(t *Term) bool {
	if t.Op == "str" {
		return unq(t) != "" && !strings.Contains(unq(t), "\n")
	}
	if t.Op != "call" {
		return false
	}
	switch t.Aux {
	case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa", "strconv.FormatBool", "core.HashT.String":
		return true
	case "fmt.Sprintf":
		return len(t.Args) == 2 && t.Args[0].Op == "str" && (unq(t.Args[0]) == "%t" || unq(t.Args[0]) == "%d" || unq(t.Args[0]) == "%x")
	case "base64.Encoding.EncodeToString", "hex.EncodeToString":
		return true // of signatures and keys, which are not empty in anything stored (C01)
	}
	return false
}

// rowsOf gives the rows of a text joined from plain rows by line breaks.
func rowsOf(t *Term) *Term {
	if !isCall(t, "strings.Join") || t.Args[1] != mkStr("\n") {
		return nil
	}
	var ok func(l *Term) bool
	ok = func(l *Term) bool {
		switch l.Op {
		case "list":
			for _, a := range l.Args {
				if !plainRow(a) {
					return false
				}
			}
			return true
		case "concat":
			for _, a := range l.Args {
				if !ok(a) {
					return false
				}
			}
			return true
		case "flat":
			return ok(l.Args[1])
		case "map":
			return plainRow(l.Args[1])
		}
		return false
	}
	l := t.Args[0]
	first := l
	if l.Op == "concat" {
		first = l.Args[0]
	}
	if !ok(l) || first.Op != "list" || len(first.Args) == 0 {
		return nil
	}
	return l
}

func okPair(c *callCtx, v *Term) []callRes { return c.ret(mk("tuple", "", v, tNil)) }

func boolText(t *Term) *Term {
	if isCall(t, "strconv.FormatBool") {
		return t.Args[0]
	}
	if isCall(t, "fmt.Sprintf") && len(t.Args) == 2 && t.Args[0] == mkStr("%t") && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
		return t.Args[1].Args[0]
	}
	return nil
}

func init() {
	over := func(n string, f func(c *callCtx) *Term, pair bool) {
		old := prims[n]
		prims[n] = func(c *callCtx) []callRes {
			if v := f(c); v != nil {
				if pair {
					return okPair(c, v)
				}
				return c.ret(v)
			}
			if old != nil {
				return old(c)
			}
			return c.pure()
		}
	}
	str := func(t *Term) *Term { // string([]byte(s)) is s
		for t.Op == "bytes" {
			t = t.Args[0]
		}
		return t
	}
	trim := func(c *callCtx) *Term {
		if s := str(c.val(0)); len(c.args) == 1 || c.val(1) == mkStr("\n") {
			if rowsOf(s) != nil || plainRow(s) {
				return s
			}
		}
		return nil
	}
	for _, n := range []string{"strings.Trim", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimSpace"} {
		over(n, trim, false)
	}
	for n, f := range map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper} {
		over(n, func(c *callCtx) *Term {
			if s := str(c.val(0)); s.Op == "str" {
				return mkStr(f(unq(s)))
			}
			return nil
		}, false)
	}
	over("strings.EqualFold", func(c *callCtx) *Term {
		a, b := str(c.val(0)), str(c.val(1))
		if a.Op == "str" {
			a, b = b, a
		}
		if b.Op != "str" {
			return nil
		}
		for _, r := range unq(b) {
			if r > 127 || r == 'k' || r == 's' || r == 'K' || r == 'S' {
				return nil // others fold to these
			}
		}
		if a.Op == "str" {
			return mkBool(strings.EqualFold(unq(a), unq(b)))
		}
		return mkEq(callTerm("strings.ToLower", a), mkStr(strings.ToLower(unq(b))))
	}, false)
	over("strings.Split", func(c *callCtx) *Term {
		if c.val(1) == mkStr("\n") {
			return rowsOf(str(c.val(0)))
		}
		return nil
	}, false)
	over("strconv.ParseUint", func(c *callCtx) *Term {
		if s := str(c.val(0)); isCall(s, "strconv.FormatUint") && s.Args[1] == c.val(1) && c.val(2) == mkInt(64) {
			return s.Args[0]
		}
		return nil
	}, true)
	over("strconv.Atoi", func(c *callCtx) *Term {
		if s := str(c.val(0)); isCall(s, "strconv.Itoa") {
			return s.Args[0]
		}
		return nil
	}, true)
	over("strconv.ParseBool", func(c *callCtx) *Term { return boolText(str(c.val(0))) }, true)
	over("core.NewHashTFromString", func(c *callCtx) *Term {
		if s := str(c.val(0)); isCall(s, "core.HashT.String") {
			return s.Args[0]
		}
		return nil
	}, true)
	over("base64.Encoding.DecodeString", func(c *callCtx) *Term {
		if s := str(c.val(1)); isCall(s, "base64.Encoding.EncodeToString") && s.Args[0] == c.val(0) {
			return s.Args[1]
		}
		return nil
	}, true)
	over("hex.DecodeString", func(c *callCtx) *Term {
		s := str(c.val(0))
		if s.Op == "str" {
			if b, err := hex.DecodeString(unq(s)); err == nil {
				return mk("bytes", "", mkStr(string(b)))
			}
		}
		return hexArg(s)
	}, true)
}

// hexArg gives the bytes a text is the hex of.
func hexArg(s *Term) *Term {
	if isCall(s, "hex.EncodeToString") {
		return stripBytes(s.Args[0])
	}
	if isCall(s, "fmt.Sprintf") && len(s.Args) == 2 && s.Args[0] == mkStr("%x") && s.Args[1].Op == "list" && len(s.Args[1].Args) == 1 {
		return stripBytes(s.Args[1].Args[0])
	}
	return nil
}
