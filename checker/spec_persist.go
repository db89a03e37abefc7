package main

// What a node saves it reads back unchanged (C14), and saving survives a crash (C13).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eta: the two values are the same value of the type, field by field and element by element.
func (k K) eta(typ types.Type, a, b *Term, d int) string {
	a, b = k.in.resolve(k.st, a), k.in.resolve(k.st, b)
	if a == b || k.has(mkEq(a, b)) {
		return ""
	}
	if d > 6 {
		return "too deep"
	}
	switch t := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			n := k.in.p.fieldName(typ, i)
			if w := k.eta(t.Field(i).Type(), mkField(a, n), mkField(b, n), d+1); w != "" {
				return "." + t.Field(i).Name() + w
			}
		}
		return ""
	case *types.Map:
		// filled with every entry of the other
		if a.Op == "mapof" && len(a.Args) == 4 && a.Args[3].Op == "emptymap" && a.Args[0] == mkLen(mkKeys(b)) {
			v := binderVar(a)
			if key := mkElem(mkKeys(b), v); a.Args[1] == key && a.Args[2] == mkLookup(b, key) {
				return ""
			}
		}
	case *types.Slice:
		if !k.same(mkLen(a), mkLen(b)) {
			return fmt.Sprintf(": length %s, was %s", clip(mkLen(a).String(), 200), clip(mkLen(b).String(), 200))
		}
		specIdx++
		i := mk("idx", fmt.Sprintf("eta%d", specIdx))
		n, ok := k.with(mkLt(i, mkLen(b), false))
		if !ok {
			return ""
		}
		if w := n.eta(t.Elem(), n.in.elemAt(n.st, a, i), n.in.elemAt(n.st, b, i), d+1); w != "" {
			return "[i]" + w
		}
		return ""
	}
	return fmt.Sprintf(": read back as %s, was %s", clip(a.String(), 200), clip(b.String(), 200))
}

func resultType(f *ssa.Function, i int) types.Type { return f.Signature.Results().At(i).Type() }

// readsBack: parse(print(x)) gives x, without an error, for every x.
func (c *Ctx) readsBack(what string, print, parse *ssa.Function, pre func(x *Term) []*Term) {
	rule := "reads-back"
	x := mkSym("x")
	pr := c.runFn(print, runOpt{args: []*Term{x}, key: "print"})
	n := 0
	for _, po := range pr.outs {
		if po.kind != "ret" {
			c.ob(rule, what+": writing never fails", false, po.pos, "writing out a value can panic")
			continue
		}
		text := pr.in.resolve(po.st, po.vals[0])
		facts := po.st.facts
		rr := c.runFn(parse, runOpt{args: []*Term{text}, key: "parse", setup: func(in *Interp, st *State) {
			for f := range facts {
				if f.Op != "did" && f.Op != "all" {
					in.addFact(st, f)
				}
			}
		}})
		for _, o := range rr.outs {
			n++
			if o.kind != "ret" {
				c.ob(rule, what+": reading back never fails", false, o.pos, "reading back what was written can panic%s", rr.describe(o))
				continue
			}
			k := rr.k(o)
			e := rr.in.resolve(o.st, o.vals[1])
			if !c.ob(rule, what+": reading back never fails", k.same(e, tNil), o.pos, "what was written: %s\nreading it back: an error is possible here (%s)%s", clip(text.String(), 600), clip(e.String(), 300), ifBad(k.same(e, tNil), rr.describe(o))) {
				continue
			}
			typ := resultType(parse, 0)
			v := o.vals[0]
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				typ = pt.Elem()
				v = rr.in.load(o.st, locOf(v), typ)
			}
			why := k.eta(typ, v, x, 0)
			c.ob(rule, what+": reading back gives every part as it was", why == "", o.pos, "%s", "part "+what+why)
		}
	}
	if n == 0 {
		c.ob("coverage", rule+" "+what, false, parse.Pos(), "no way through writing and reading back was found")
	}
}

func ifBad(ok bool, s string) string {
	if ok {
		return ""
	}
	return s
}

// tuplePrim answers a call with fixed results.
func tuplePrim(vs ...*Term) primFn {
	return func(c *callCtx) []callRes {
		c.in.did(c.ps.st, c.name, c.vals(0)...)
		if c.sig.Results().Len() == 1 {
			return c.ret(vs[0])
		}
		return c.ret(mk("tuple", "", vs...))
	}
}

// diskMap: what is stored under a key is written to that key's file, and a key not in memory is
// read from that very file with the parser given.
func (c *Ctx) diskMap() {
	rule := "disk-map"
	d, key, val := mkSym("d"), mkSym("key"), mkSym("val")
	m := F(d, "m")
	text, parsed := callTerm("iface.String", val), mkSym("parsed")
	r := c.run("pkg/disksyncmap.DiskSyncMap.Store", runOpt{args: []*Term{d, key, val}, inline: []string{"disksyncmap.DiskSyncMap.Store"}})
	if r == nil {
		return
	}
	var path *Term
	c.contractRets(r, rule, "the value is kept in memory and its text written to a file of the key's own", func(k K, v []*Term) bool {
		if !k.has(did("SyncMap.Store", m, key, val)) {
			return false
		}
		for _, x := range dids(k, "util.WriteFileAtomic") {
			if data := stripBytes(x.Args[1]); data == text {
				path = x.Args[0]
				return true
			}
		}
		return false
	})
	if !c.need("the file path DiskSyncMap.Store writes", path != nil) {
		return
	}
	keyText := callTerm("iface.String", key)
	okPath := path.Op == "cat" && path.Args[len(path.Args)-1] == keyText && path.Args[0] == F(d, "basePath") && !mentions(path, val)
	if okPath {
		for _, a := range path.Args[1 : len(path.Args)-1] {
			okPath = okPath && a.Op == "str"
		}
		okPath = okPath && len(path.Args) == 3 && unq(path.Args[1]) == "/"
	}
	c.ob(rule, "DiskSyncMap.Store: the file is named by the key alone, in the map's directory", okPath, r.fn.Pos(), "path: %s", clip(path.String(), 300))
	w := 0
	for _, s := range r.in.sinks {
		if s.name == "SyncMap.Store" || s.name == "util.WriteFileAtomic" {
			w++
			ok := s.name == "SyncMap.Store" && s.args[0] == m && s.args[1] == key && s.args[2] == val || s.name == "util.WriteFileAtomic" && s.args[0] == path && stripBytes(s.args[1]) == text
			c.ob(rule, "DiskSyncMap.Store: nothing else is written", ok, s.pos, "%s %s", s.name, clip(fmt.Sprint(s.args), 300))
		}
	}
	file := mkSym("file")
	for _, have := range []bool{true, false} {
		name := map[bool]string{true: "with the file there", false: "without the file"}[have]
		over := map[string]primFn{
			"os.Stat":  tuplePrim(mkSym("info"), tNil),
			"os.Lstat": tuplePrim(mkSym("info"), tNil),
			"os.ReadFile": func(cc *callCtx) []callRes {
				if have && cc.val(0) == path {
					return cc.ret(mk("tuple", "", file, tNil))
				}
				return cc.ret(mk("tuple", "", tNil, tErr))
			},
			"dyn": func(cc *callCtx) []callRes {
				if cc.val(0) == F(d, "parseFunc") && stripBytes(cc.val(1)) == file {
					return cc.ret(mk("tuple", "", parsed, tNil))
				}
				return cc.ret(mk("tuple", "", mkSym("else"), tErr))
			},
		}
		if !have {
			over["os.Stat"] = tuplePrim(tNil, tErr)
			over["os.Lstat"] = over["os.Stat"]
		}
		inMem := callTerm("SyncMap.Has", m, key)
		loaded := func(k K) bool { return k.has(inMem) || k.has(did("SyncMap.Store", m, key, parsed)) }
		h := c.run("pkg/disksyncmap.DiskSyncMap.Has", runOpt{args: []*Term{d, key}, inline: []string{"disksyncmap.DiskSyncMap.Has"}, over: over, key: name})
		c.contractRets(h, rule, "present exactly when in memory or on disk ("+name+")", func(k K, v []*Term) bool {
			if have {
				return v[0] == tTrue && loaded(k)
			}
			return k.iff(v[0], inMem)
		})
		g := c.run("pkg/disksyncmap.DiskSyncMap.Get", runOpt{args: []*Term{d, key}, inline: []string{"disksyncmap.DiskSyncMap.Get", "disksyncmap.DiskSyncMap.Has"}, over: over, key: name})
		if have {
			c.contractRets(g, rule, "gives what is in memory, read from the key's own file when it was not", func(k K, v []*Term) bool {
				return k.has(inMem) && isCall(v[0], "SyncMap.Get") && v[0].Args[0] == m && v[0].Args[1] == key ||
					k.has(did("SyncMap.Store", m, key, parsed)) && (v[0] == parsed || isCall(v[0], "SyncMap.Get") && v[0].Args[0] == m && v[0].Args[1] == key)
			})
			if g != nil {
				bad := false
				for _, o := range g.outs {
					bad = bad || o.kind != "ret"
				}
				c.ob(rule, "DiskSyncMap.Get: never fails for a key that was stored", !bad, g.fn.Pos(), "Get can panic although the key's file is there and parses")
			}
		}
		for _, rr := range []*runRes{h, g} {
			if rr == nil {
				continue
			}
			for _, s := range rr.in.sinks {
				if s.name == "SyncMap.Store" {
					ok := s.args[0] == m && s.args[1] == key && s.args[2] == parsed
					c.ob(rule, shortName(rr.fn)+": only the key's own file is taken into memory", ok, s.pos, "stored %s", clip(fmt.Sprint(s.args), 300))
				}
				if s.name == "util.WriteFileAtomic" || strings.HasPrefix(s.name, "os.Remove") || strings.HasPrefix(s.name, "os.Write") {
					c.ob(rule, shortName(rr.fn)+": reading changes no file", false, s.pos, "%s", s.name)
				}
			}
		}
	}
	// the constructor keeps what it was given
	r = c.run("pkg/disksyncmap.NewDiskSyncMap", runOpt{args: []*Term{mkSym("base"), mkSym("parse")}})
	c.contractRets(r, rule, "the map uses the directory and parser given", func(k K, v []*Term) bool {
		s := k.in.resolve(k.st, v[0])
		return k.same(F(s, "basePath"), mkSym("base")) && k.same(F(s, "parseFunc"), mkSym("parse"))
	})
}

func stripBytes(t *Term) *Term {
	for t.Op == "bytes" {
		t = t.Args[0]
	}
	return t
}

func mentions(t, x *Term) bool { return anyTermMemo(t, func(y *Term) bool { return y == x }) }

// contractRets requires pred on every normal return of a run.
func (c *Ctx) contractRets(r *runRes, rule, what string, pred func(k K, v []*Term) bool) {
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		n++
		var vs []*Term
		for _, v := range o.vals {
			vs = append(vs, r.in.resolve(o.st, v))
		}
		ok := pred(r.k(o), vs)
		c.ob(rule, shortName(r.fn)+": "+what, ok, o.pos, "%s", "returns "+clip(fmt.Sprint(vs), 300)+ifBad(ok, r.describe(o)))
	}
	c.ob("coverage", rule+" "+shortName(r.fn)+": "+what, n > 0, r.fn.Pos(), "%d returns", n)
}

// diskTables: the three tables are kept in directories of their own with the parser that undoes
// their records' text, whenever there is a save directory.
func (c *Ctx) diskTables() {
	rule := "disk-tables"
	r := c.run("internal/inv.NewInv", runOpt{args: []*Term{mkSym("params"), mkSym("saveDir")}, opaque: []string{"disksyncmap.NewDiskSyncMap", "syncmap.NewSyncMap", "core.NewVerifier"}})
	if r == nil {
		return
	}
	dir := func(base *Term) (string, bool) {
		if base.Op == "cat" && len(base.Args) == 2 && base.Args[1].Op == "str" {
			return unq(base.Args[1]), base.Args[0] == r.in.loadShallow(newState(), locOf(mkSym("saveDir"))) || mentions(base.Args[0], mkSym("saveDir"))
		}
		return "", false
	}
	dirs := map[string]bool{}
	n := 0
	for _, s := range r.in.sinks {
		if s.name != "disksyncmap.NewDiskSyncMap" {
			continue
		}
		n++
		d, ok := dir(s.args[0])
		ok = ok && strings.HasPrefix(d, "/") && len(d) > 1 && strings.Count(d, "/") == 1 && !dirs[d] && d != "/head"
		c.ob(rule, fmt.Sprintf("NewInv: table %d has a directory of its own", n), ok, s.pos, "directory %s", clip(s.args[0].String(), 200))
		dirs[d] = true
		f := closureFn[s.args[1].Aux]
		if !c.need("parser of table "+d, f != nil && f.Blocks != nil) {
			continue
		}
		typ := resultType(f, 0)
		str := c.p.methodOf(typ, "String")
		if c.need("String method of "+typeStr(typ), str != nil) {
			c.readsBack(typeStr(typ), str, f, nil)
		}
	}
	c.ob("coverage", "NewInv keeps three tables on disk", n >= 3, r.fn.Pos(), "%d disk tables", n)
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		k := r.k(o)
		if !k.has(mkNot(mkEq(mkSym("saveDir"), tNil))) {
			c.ob(rule, "NewInv: without a save directory nothing is kept on disk", k.has(mkEq(mkSym("saveDir"), tNil)), o.pos, "a return where it is not known whether there is a save directory")
			continue
		}
		v := r.in.resolve(o.st, o.vals[0])
		seen := map[*Term]bool{}
		for _, t := range []string{"blocks", "merkles", "txs"} {
			x := F(v, t)
			ok := isCall(x, "disksyncmap.NewDiskSyncMap") && !seen[x]
			seen[x] = true
			c.ob(rule, "NewInv: "+t+" are kept on disk", ok, o.pos, "the table is %s", clip(x.String(), 200))
		}
	}
}

// hashText: the text of a hash is 64 hex digits and reading it gives the hash.
func (c *Ctx) hashText() {
	str := c.p.fn("pkg/core.HashT.String")
	parse := c.p.fn("pkg/core.NewHashTFromString")
	if !c.need("HashT.String and NewHashTFromString", str != nil && parse != nil) {
		return
	}
	x := mkSym("x")
	size := int64(0)
	if st, ok := c.p.typ("pkg/core.HashT").Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok {
				size = a.Len()
			}
		}
	}
	c.ob("hash-text", "core.HashT: holds 32 bytes", size == 32, str.Pos(), "%d bytes", size)
	pr := c.runFn(str, runOpt{args: []*Term{x}, inline: []string{"core.HashT.String"}, key: "text"})
	data := F(x, "data")
	c.contractRets(pr, "hash-text", "the text is the hex of all the bytes", func(k K, v []*Term) bool {
		return isHexOf(v[0], data)
	})
	for _, po := range pr.outs {
		if po.kind != "ret" || !isHexOf(pr.in.resolve(po.st, po.vals[0]), data) {
			continue
		}
		text := pr.in.resolve(po.st, po.vals[0])
		rr := c.runFn(parse, runOpt{args: []*Term{text}, inline: []string{"core.NewHashTFromString", "core.NewHashTFromBytes"}, key: "text", setup: func(_ *Interp, st *State) { st.facts[mkEq(mkLen(data), mkInt(size))] = true }})
		for _, o := range rr.outs {
			if o.kind != "ret" {
				c.ob("hash-text", "NewHashTFromString: never fails on a hash's text", false, o.pos, "can panic")
				continue
			}
			k := rr.k(o)
			e := rr.in.resolve(o.st, o.vals[1])
			v := rr.in.resolve(o.st, o.vals[0])
			ok := k.same(e, tNil) && k.same(stripBytes(F(v, "data")), data)
			c.ob("hash-text", "NewHashTFromString: gives the hash back from its text", ok, o.pos, "gives %s, %s", clip(v.String(), 300), clip(e.String(), 100)+ifBad(ok, rr.describe(o)))
		}
	}
}

func isHexOf(t, data *Term) bool { return hexArg(t) == data }

// headFile: the head saved after a switch is the one announced to the chain routine at the next
// start.
func (c *Ctx) headFile() {
	rule := "head-file"
	r, ch := c.runLoop()
	if r == nil {
		return
	}
	var path, data *Term
	n := 0
	for _, s := range r.in.sinks {
		if s.name != "util.WriteFileAtomic" {
			continue
		}
		n++
		path, data = s.args[0], stripBytes(s.args[1])
		ok := isCall(data, "core.HashT.String")
		k := s.k(r.in)
		ok = ok && c.isHeadOf(k, data.Args[0], r.in.resolve(k.st, r.in.loadShallow(k.st, mk("fld", "state", ch))))
		c.ob(rule, "the chain routine saves the head in use", ok, s.pos, "saves %s", clip(data.String(), 300))
	}
	if !c.need("saving the head", n > 0) {
		return
	}
	n = 0
	for _, l := range r.in.recs {
		if l.depth > 1 {
			continue
		}
		for _, b := range l.backs {
			k := K{r.in, b}
			if !k.didMatch("topic.Topic.Pub", func(a []*Term) bool { return a[0].Op == "fld" && a[0].Aux == "ValidatedHead" }) {
				continue
			}
			n++
			ok := k.has(mkEq(F(ch, "saveDir"), tNil)) || k.didMatch("util.WriteFileAtomic", func(a []*Term) bool { return a[0] == path })
			c.ob(rule, "the chain routine saves every head it switches to", ok, l.fn.Pos(), "a switch that does not save the head%s", ifBad(ok, describeFacts(b.facts)))
		}
	}
	c.ob("coverage", "switches of the head", n > 0, r.fn.Pos(), "%d found", n)
	saved := mkSym("savedHead")
	own := subst(path, F(ch, "saveDir"), mkSym("saveDir"))
	for _, have := range []bool{true, false} {
		name := map[bool]string{true: "with a saved head", false: "without"}[have]
		over := map[string]primFn{
			"os.Stat": tuplePrim(mkSym("info"), tNil),
			"os.ReadFile": func(cc *callCtx) []callRes {
				if have && cc.val(0) == own {
					return cc.ret(mk("tuple", "", callTerm("core.HashT.String", saved), tNil))
				}
				return cc.ret(mk("tuple", "", tNil, tErr))
			},
		}
		if !have {
			over["os.Stat"] = tuplePrim(tNil, tErr)
		}
		nc := c.run("internal/chain.NewChain", runOpt{args: []*Term{mkSym("bus"), mkSym("inv"), mkSym("miners"), mkSym("saveDir")}, over: over, key: name, opaque: []string{"chain.NewState"}})
		if nc == nil {
			return
		}
		for _, o := range nc.outs {
			if o.kind != "ret" {
				continue
			}
			k := nc.k(o)
			v := nc.in.resolve(o.st, o.vals[0])
			c.ob(rule, "NewChain: the chain saves where it was told to", k.same(F(v, "saveDir"), mkSym("saveDir")), o.pos, "saveDir is %s", clip(F(v, "saveDir").String(), 200))
			pubs := dids(k, "topic.Topic.Pub")
			if have && !k.has(mkEq(mkSym("saveDir"), tNil)) {
				ok := len(pubs) == 1
				if ok {
					ev := mkElem(pubs[0].Args[1], mkInt(0))
					ok = k.same(pubs[0].Args[0], F(mkSym("bus"), "CandidateHead")) && k.same(F(ev, "Head"), saved)
					for _, l := range []string{"Blocks", "Merkles", "Txs"} {
						ok = ok && k.same(mkLen(F(ev, l)), mkInt(0))
					}
				}
				c.ob(rule, "NewChain: the saved head is offered to the chain routine", ok, o.pos, "offers %s", clip(fmt.Sprint(pubs), 400)+ifBad(ok, nc.describe(o)))
			} else {
				c.ob(rule, "NewChain: nothing is offered when nothing was saved", len(pubs) == 0, o.pos, "offers %s", clip(fmt.Sprint(pubs), 300))
			}
		}
		c.ob("coverage", rule+" NewChain "+name, len(nc.outs) > 0, nc.fn.Pos(), "%d outcomes", len(nc.outs))
	}
	// one directory for both halves
	m := c.run("cmd/bcnode.main", runOpt{opaque: mainOpaque})
	if m == nil {
		return
	}
	for _, s := range m.in.sinks {
		if s.name == "chain.NewChain" {
			ok := isCall(s.args[1], "inv.NewInv") && s.args[1].Args[1] == s.args[3]
			c.ob(rule, "main: the chain and what it refers to are saved in the same place", ok, s.pos, "%s", clip(fmt.Sprint(s.args), 400))
		}
	}
	c.atLeast(rule, 8)
}

func dids(k K, name string) []*Term {
	var out []*Term
	for f := range k.st.facts {
		if f.Op == "did" && f.Aux == name {
			out = append(out, f)
		}
	}
	sortTerms(out)
	return out
}

func init() {
	register("C14", "For each record type, the text written is fed symbolically to the parser registered for that table: every way through must succeed and give back every field. The disk map, the tables' directories and the saved head are decided the same way, by composing the writing with the reading.",
		[]string{"strconv, hex and base64 encoders and decoders of the standard library are inverses", "a file read after an atomic replacement has the content last written", "signatures and public keys in stored transactions are not empty (checked by C01)"}, func(c *Ctx) {
			c.hashText()
			c.diskMap()
			c.diskTables()
			c.headFile()
			c.contractSyncMap()
			c.contractHashEq()
		})
}
