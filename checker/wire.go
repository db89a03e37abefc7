package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values sent as JSON. Encoding a value of type T gives the term json:T(v); decoding that term into
// a T gives v back. This is only right for types whose encoding loses nothing, so every type met is
// then an obligation of its own (faithful): default-encoded structs by their fields and tags, types
// with their own encoding by composing it with their own decoding.

type wire struct {
	c    *Ctx
	used map[string]types.Type
	more map[string]primFn
}

func newWire(c *Ctx) *wire { return &wire{c, map[string]types.Type{}, map[string]primFn{}} }

// argType is the type a value had before it was passed as an interface.
func argType(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return nil
		}
	}
}

// varargTypes lists the types of the values passed in a variadic interface slice.
func varargTypes(v ssa.Value) []types.Type {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
				for int64(len(out)) <= k.Int64() {
					out = append(out, nil)
				}
				out[k.Int64()] = argType(st.Val)
			}
		}
	}
	return out
}

func callArg(c *callCtx, i int) ssa.Value {
	ci, ok := c.instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	args := ci.Common().Args
	if ci.Common().IsInvoke() {
		i--
	}
	if i < 0 || i >= len(args) {
		return nil
	}
	return args[i]
}

func (w *wire) encode(c *callCtx, i int) *Term {
	a := callArg(c, i)
	if a == nil {
		return nil
	}
	t := argType(a)
	if t == nil || types.IsInterface(t) {
		t = c.in.dynType[c.args[i]]
	}
	if t == nil {
		return nil
	}
	v := c.args[i]
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		v = c.in.load(c.ps.st, locOf(v), t)
	}
	if types.IsInterface(t) {
		return nil
	}
	w.used[typeStr(t)] = t
	return mk("json", typeStr(t), c.in.resolve(c.ps.st, v))
}

// decode stores what a JSON text holds; false when the text is not one written from the same type.
func (w *wire) decode(c *callCtx, text *Term, i int) bool {
	for text.Op == "bytes" {
		text = text.Args[0]
	}
	a := callArg(c, i)
	if text.Op != "json" || a == nil {
		return false
	}
	t := argType(a)
	if t == nil || types.IsInterface(t) {
		t = c.in.dynType[c.args[i]]
	}
	if t == nil {
		return false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	w.used[typeStr(pt.Elem())] = pt.Elem()
	v, ok := convertWire(text.Args[0], w.used[text.Aux], pt.Elem(), 0)
	if !ok {
		return false
	}
	c.in.store(c.ps.st, locOf(c.args[i]), v)
	return true
}

// jsonFields lists the fields of a default-encoded struct by their name in the text.
func jsonFields(s *types.Struct) (map[string]int, string) {
	out := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			return nil, "the embedded field " + f.Name() + " is not decided by this check"
		}
		if !f.Exported() {
			return nil, "the field " + f.Name() + " is not exported, so it is not written"
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			return nil, "the field " + f.Name() + " is left out of the text"
		}
		n := strings.Split(tag, ",")[0]
		if n == "" {
			n = f.Name()
		}
		for o := range out {
			if strings.EqualFold(o, n) {
				return nil, "two fields are written as " + n
			}
		}
		out[n] = i
	}
	return out, ""
}

func hasMethod(t types.Type, name string) bool {
	s := types.NewMethodSet(t)
	for i := 0; i < s.Len(); i++ {
		if s.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func ownCodec(t types.Type) bool {
	p := types.NewPointer(t)
	return hasMethod(p, "MarshalJSON") || hasMethod(p, "UnmarshalJSON") || hasMethod(p, "MarshalText") || hasMethod(p, "UnmarshalText")
}

// convertWire gives the value read into one type from the text of a value of another.
func convertWire(v *Term, from, to types.Type, d int) (*Term, bool) {
	if from == nil || d > 4 {
		return nil, false
	}
	if types.Identical(from, to) {
		return v, true
	}
	fs, ok1 := from.Underlying().(*types.Struct)
	ts, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 || ownCodec(from) || ownCodec(to) {
		return nil, false
	}
	ff, why1 := jsonFields(fs)
	tf, why2 := jsonFields(ts)
	if why1 != "" || why2 != "" {
		return nil, false
	}
	var names []string
	var vals []*Term
	for n, i := range tf {
		j, ok := ff[n]
		if !ok {
			return nil, false
		}
		x, ok := convertWire(mkField(v, fs.Field(j).Name()), fs.Field(j).Type(), ts.Field(i).Type(), d+1)
		if !ok {
			return nil, false
		}
		names = append(names, ts.Field(i).Name())
		vals = append(vals, x)
	}
	return mkStruct(typeStr(to), names, vals), true
}

// over are the call rules for analysing code that writes and reads JSON.
func (w *wire) over() map[string]primFn {
	marshal := func(c *callCtx) []callRes {
		if t := w.encode(c, 0); t != nil {
			return okPair(c, t)
		}
		return c.external()
	}
	out := map[string]primFn{
		"json.Marshal":       marshal,
		"json.MarshalIndent": marshal,
		"json.Unmarshal": func(c *callCtx) []callRes {
			if w.decode(c, c.val(0), 1) {
				return c.ret(tNil)
			}
			return prims["json.Unmarshal"](c)
		},
		"json.Encoder.Encode": func(c *callCtx) []callRes {
			t := w.encode(c, 1)
			if t == nil {
				return c.external()
			}
			args := []*Term{c.val(0), t}
			c.in.sink(c.ps.st, "call", c.name, args, tNil, c.pos)
			c.in.did(c.ps.st, c.name, args...)
			return c.ret(tNil)
		},
		"fmt.Sprintf": func(c *callCtx) []callRes {
			if t := plainFormat(c, 0); t != nil {
				return c.ret(t)
			}
			return c.pure()
		},
		"fmt.Sprint": func(c *callCtx) []callRes {
			ts := varargTypes(callArg(c, 0))
			if l, ok := listElems(c.val(0)); ok && len(l) == 1 && len(ts) == 1 {
				if t := textOf(c, l[0], ts[0]); t != nil {
					return c.ret(t)
				}
			}
			return c.pure()
		},
		"url.QueryEscape": func(c *callCtx) []callRes {
			if t := c.val(0); urlSafe(t) {
				return c.ret(t)
			}
			return c.pure()
		},
	}
	for n, f := range w.more {
		out[n] = f
	}
	return out
}

// textOf is how %s, %d or %v shows a value.
func textOf(c *callCtx, v *Term, t types.Type) *Term {
	if t == nil {
		return nil
	}
	if m := c.in.p.methodOf(t, "String"); m != nil {
		return callTerm(shortName(m), v)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return v
		case b.Info()&types.IsBoolean != 0:
			return callTerm("strconv.FormatBool", v)
		case b.Info()&types.IsUnsigned != 0:
			return callTerm("strconv.FormatUint", v, mkInt(10))
		case b.Info()&types.IsInteger != 0:
			return callTerm("strconv.Itoa", v)
		}
	}
	return nil
}

// plainFormat expands a format made of plain verbs.
func plainFormat(c *callCtx, at int) *Term {
	f, ok := str(c.val(at))
	if !ok {
		return nil
	}
	l, ok := listElems(c.val(at + 1))
	ts := varargTypes(callArg(c, at+1))
	if !ok || len(ts) != len(l) {
		return nil
	}
	return formatted(f, l, func(i int) *Term { return textOf(c, l[i], ts[i]) })
}

// joined is what a format gives that only puts strings together.
func joined(c *callCtx) *Term {
	f, ok := str(c.val(0))
	if !ok {
		return nil
	}
	l, ok := listElems(c.val(1))
	ts := varargTypes(callArg(c, 1))
	if !ok || len(ts) != len(l) {
		return nil
	}
	return formatted(f, l, func(i int) *Term {
		if _, ok := ts[i].(*types.TypeParam); ok && c.in.p.methodOf(ts[i], "String") == nil {
			if m, _, _ := types.LookupFieldOrMethod(ts[i], true, nil, "String"); m != nil {
				return callTerm("iface.String", l[i])
			}
		}
		if t, ok := ts[i].(*types.Basic); ok && t.Info()&types.IsString != 0 {
			return l[i]
		}
		return nil
	})
}

// writeText records text written as io.WriteString does.
func (c *callCtx) writeText(t *Term) []callRes {
	args := []*Term{c.val(0), t}
	call := callTerm("io.WriteString", append(append([]*Term(nil), args...), c.site())...)
	c.in.sink(c.ps.st, "call", "io.WriteString", args, call, c.pos)
	c.in.did(c.ps.st, "io.WriteString", args...)
	return c.ret(pack(c.sig, call))
}

func formatted(f string, l []*Term, text func(int) *Term) *Term {
	var parts []*Term
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, mkStr(string(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			parts = append(parts, mkStr("%"))
		case 's', 'd', 'v', 't':
			if n >= len(l) {
				return nil
			}
			t := text(n)
			n++
			if t == nil {
				return nil
			}
			parts = append(parts, t)
		default:
			return nil
		}
	}
	if n != len(l) {
		return nil
	}
	return mkCat(parts...)
}

// urlSafe: text that stands for itself in a query.
func urlSafe(t *Term) bool {
	if s, ok := str(t); ok {
		return strings.IndexFunc(s, func(r rune) bool {
			return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' || r == '.')
		}) < 0
	}
	return t.Op == "call" && (t.Aux == "core.HashT.String" || t.Aux == "strconv.FormatUint" || t.Aux == "strconv.Itoa" || t.Aux == "strconv.FormatBool")
}

// faithful: whatever is written of a type is read back from its text.
func (w *wire) faithful(t types.Type, seen map[string]bool) {
	c := w.c
	if seen[typeStr(t)] {
		return
	}
	seen[typeStr(t)] = true
	name := typeStr(t)
	rule := "faithful-json"
	if ownCodec(t) {
		w.ownFaithful(t)
		for n, u := range w.used {
			if !seen[n] {
				w.faithful(u, seen)
			}
		}
		return
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		ok := x.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
		c.ob(rule, name+": is written in full", ok, 0, "the kind %s", x)
	case *types.Slice:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			c.ob(rule, name+": is written in full", true, 0, "bytes, written as base64")
			return
		}
		w.faithful(x.Elem(), seen)
	case *types.Array:
		w.faithful(x.Elem(), seen)
	case *types.Map:
		b, ok := x.Key().Underlying().(*types.Basic)
		ok = ok && b.Info()&(types.IsInteger|types.IsString) != 0
		if !ok && ownCodec(x.Key()) && hasMethod(x.Key(), "MarshalText") {
			ok = true
			w.faithful(x.Key(), seen)
		}
		c.ob(rule, name+": its keys are written", ok, 0, "the key type is %s", typeStr(x.Key()))
		w.faithful(x.Elem(), seen)
	case *types.Struct:
		fs, why := jsonFields(x)
		pos := c.p.typePos(t)
		c.ob(rule, name+": every field is written under a name of its own", why == "", pos, "%s", why)
		for _, i := range fs {
			w.faithful(x.Field(i).Type(), seen)
		}
	case *types.Pointer:
		w.faithful(x.Elem(), seen)
	default:
		c.ob(rule, name+": can be written", false, 0, "values of this type cannot be written as JSON")
	}
}

// ownFaithful composes a type's own encoding with its own decoding.
func (w *wire) ownFaithful(t types.Type) {
	c := w.c
	rule := "faithful-json"
	name := typeStr(t)
	enc, dec := "MarshalJSON", "UnmarshalJSON"
	if !hasMethod(types.NewPointer(t), enc) && !hasMethod(types.NewPointer(t), dec) {
		enc, dec = "MarshalText", "UnmarshalText"
	}
	pos := c.p.typePos(t)
	okm := hasMethod(t, enc) && hasMethod(types.NewPointer(t), dec)
	c.ob(rule, name+": values are written and read by a pair of methods", okm, pos, "%s on the value: %v, %s: %v", enc, hasMethod(t, enc), dec, hasMethod(types.NewPointer(t), dec))
	if !okm {
		return
	}
	em, dm := c.p.methodOf(t, enc), c.p.methodOf(types.NewPointer(t), dec)
	if !c.need(name+"."+enc+" and "+dec, em != nil && dm != nil && em.Blocks != nil && dm.Blocks != nil) {
		return
	}
	x, p := mkSym("x"), mkSym("into")
	er := c.runFn(em, runOpt{args: []*Term{x}, over: w.over(), key: "json"})
	n := 0
	for _, eo := range er.outs {
		if eo.kind != "ret" {
			c.ob(rule, name+": writing never panics", false, eo.pos, "can panic%s", er.describe(eo))
			continue
		}
		if k := er.k(eo); !k.same(er.in.resolve(eo.st, eo.vals[1]), tNil) {
			continue // an error is reported: nothing is written
		}
		text := er.in.resolve(eo.st, eo.vals[0])
		facts := eo.st.facts
		dr := c.runFn(dm, runOpt{args: []*Term{p, text}, over: w.over(), key: fmt.Sprint("json", text.ID), setup: func(in *Interp, st *State) {
			for f := range facts {
				if f.Op != "did" && f.Op != "all" {
					in.addFact(st, f)
				}
			}
		}})
		for _, o := range dr.outs {
			n++
			if o.kind != "ret" {
				c.ob(rule, name+": reading back never fails", false, o.pos, "can panic%s", dr.describe(o))
				continue
			}
			k := dr.k(o)
			e := dr.in.resolve(o.st, o.vals[0])
			ok := k.same(e, tNil)
			c.ob(rule, name+": reading back never fails", ok, o.pos, "written as %s; an error is possible: %s%s", clip(text.String(), 400), clip(e.String(), 200), ifBad(ok, dr.describe(o)))
			if !ok {
				continue
			}
			v := dr.in.resolve(o.st, dr.in.load(o.st, locOf(p), t))
			why := k.eta(t, v, x, 0)
			c.ob(rule, name+": reading back gives every part as it was", why == "", o.pos, "%s", "part "+name+why)
		}
	}
	c.ob("coverage", rule+" "+name, n > 0, pos, "%d ways through writing and reading back", n)
}
