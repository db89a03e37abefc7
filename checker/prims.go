package main

// Calls: builtins, summarised primitives, analysed repo functions, and external functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	ps  *PS
	val *Term
}

type callCtx struct {
	in    *Interp
	fr    *frame
	ps    *PS
	name  string
	instr ssa.Instruction
	args  []*Term // as passed (references unresolved)
	types []types.Type
	sig   *types.Signature
	pos   token.Pos
}

func (c *callCtx) ret(v *Term) []callRes { return []callRes{{c.ps, v}} }

func (c *callCtx) val(i int) *Term { return c.in.resolve(c.ps.st, c.args[i]) }

func (c *callCtx) vals(from int) []*Term {
	var out []*Term
	for i := from; i < len(c.args); i++ {
		out = append(out, c.val(i))
	}
	return out
}

func (c *callCtx) site() *Term { return c.in.siteSym(c.fr, c.instr) }

// pack turns one term for a call into its result(s).
func pack(sig *types.Signature, call *Term) *Term {
	n := sig.Results().Len()
	if n == 0 {
		return tNil
	}
	if n == 1 {
		return call
	}
	var l []*Term
	for i := 0; i < n; i++ {
		l = append(l, mk("res", fmt.Sprint(i), call))
	}
	return mk("tuple", "", l...)
}

// dropRecv: interface-typed views of the inventory.
var invIfaces = map[string]bool{"core.InvVerifier": true, "core.InvTargeter": true, "inv.InvReader": true}

func (in *Interp) doCall(fr *frame, ps *PS, c *ssa.CallCommon, instr ssa.Instruction, fnT *Term, args []*Term, pos token.Pos) []callRes {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, ps, b.Name(), c, instr, args, pos)
	}
	sig := c.Signature()
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	cc := &callCtx{in: in, fr: fr, ps: ps, instr: instr, args: args, types: ts, sig: sig, pos: pos}
	if c.IsInvoke() {
		iface := ifaceName(c.Value.Type())
		if invIfaces[iface] {
			if f := in.p.fn("internal/inv.Inv." + c.Method.Name()); f != nil {
				cc.args = append([]*Term{fnT}, args...)
				cc.types = append([]types.Type{c.Value.Type()}, ts...)
				return in.callFn(cc, f, nil)
			}
		}
		cc.name = iface + "." + c.Method.Name()
		cc.args = append([]*Term{fnT}, args...)
		cc.types = append([]types.Type{c.Value.Type()}, ts...)
		if h := in.over[cc.name]; h != nil {
			return h(cc)
		}
		if h := prims[cc.name]; h != nil && !in.doInline[cc.name] {
			return h(cc)
		}
		return cc.external()
	}
	if f := c.StaticCallee(); f != nil {
		var bind []*Term
		if fnT != nil && fnT.Op == "closure" {
			bind = fnT.Args
		}
		return in.callFn(cc, f, bind)
	}
	if fnT != nil && (fnT.Op == "closure" || fnT.Op == "func") {
		if f := closureFn[fnT.Aux]; f != nil {
			return in.callFn(cc, f, fnT.Args)
		}
	}
	// unknown function value
	cc.name = "dyn"
	cc.args = append([]*Term{fnT}, args...)
	cc.types = append([]types.Type{c.Value.Type()}, ts...)
	if h := in.over["dyn"]; h != nil {
		return h(cc)
	}
	return cc.opaque()
}

func (in *Interp) callFn(cc *callCtx, f *ssa.Function, bind []*Term) []callRes {
	cc.name = shortName(f)
	if f.Synthetic != "" && f.Object() != nil && strings.HasPrefix(f.Synthetic, "bound method") {
		// x.Method used as a value: the receiver is the binding
		if m := in.p.SSA.FuncValue(f.Object().(*types.Func)); m != nil {
			cc.args = append(append([]*Term(nil), bind...), cc.args...)
			cc.types = append([]types.Type{m.Params[0].Type()}, cc.types...)
			return in.callFn(cc, m, nil)
		}
	}
	if f.Parent() == nil {
		if h := in.over[cc.name]; h != nil {
			return h(cc)
		}
		if h := prims[cc.name]; h != nil && !in.doInline[cc.name] {
			return h(cc)
		}
		if in.noInline[cc.name] {
			return cc.opaque()
		}
	}
	if f.Blocks == nil || !in.p.inRepo(f) {
		return cc.external()
	}
	for _, s := range in.stack {
		if s.fn == f {
			return cc.opaque()
		}
	}
	if len(in.stack) > 40 {
		return cc.opaque()
	}
	return cc.exec(f, bind)
}

func (c *callCtx) exec(f *ssa.Function, bind []*Term) []callRes {
	in := c.in
	site := c.fr.fi.site[c.instr]
	if ci, ok := c.instr.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != f {
		// one place may call several functions
		k := c.fr.key + "/" + site
		n, ok := in.callees[k][f]
		if !ok {
			if in.callees[k] == nil {
				in.callees[k] = map[*ssa.Function]int{}
			}
			n = len(in.callees[k])
			in.callees[k][f] = n
		}
		if n > 0 {
			site += fmt.Sprintf("~f%d", n)
		}
	}
	outs := in.exec(f, c.args, bind, c.ps.st, site)
	var res []callRes
	for i, o := range outs {
		p := c.ps
		if i < len(outs)-1 {
			p = &PS{env: make(map[ssa.Value]*Term, len(c.ps.env)+4), defers: append([]deferred(nil), c.ps.defers...)}
			for k, v := range c.ps.env {
				p.env[k] = v
			}
		}
		p.st = o.st
		if o.kind == "panic" {
			in.panicOut(c.fr, p, c.pos)
			continue
		}
		var v *Term
		switch len(o.vals) {
		case 0:
			v = tNil
		case 1:
			v = o.vals[0]
		default:
			v = mk("tuple", "", o.vals...)
		}
		res = append(res, callRes{p, v})
	}
	return res
}

// pure: the result is a function of the argument values.
func (c *callCtx) pure() []callRes {
	return c.ret(pack(c.sig, callTerm(c.name, c.vals(0)...)))
}

// opaque: an effect with an unknown result.
func (c *callCtx) opaque() []callRes {
	args := c.vals(0)
	call := callTerm(c.name, append(append([]*Term(nil), args...), c.site())...)
	c.in.sink(c.ps.st, "call", c.name, args, call, c.pos)
	c.in.did(c.ps.st, c.name, args...)
	return c.ret(pack(c.sig, call))
}

// havoc: pointer arguments to local objects may be written by an unknown callee.
func (c *callCtx) havoc(call *Term) {
	st := c.ps.st
	for i, a := range c.args {
		if i >= len(c.types) {
			break
		}
		switch t := c.types[i].Underlying().(type) {
		case *types.Pointer:
			loc := locOf(a)
			if rootObj(loc) != nil {
				c.in.store(st, loc, mk("out", fmt.Sprint(i), call))
				if _, ok := st.mem[contOf(a)]; ok {
					st.mem[contOf(a)] = mk("out", fmt.Sprint(i), call)
				}
			}
		case *types.Interface:
			if (a.Op == "obj" || a.Op == "addr") && rootObj(locOf(a)) != nil {
				c.in.store(st, locOf(a), mk("out", fmt.Sprint(i), call))
			}
		case *types.Slice:
			_ = t
			if a.Op == "obj" {
				st.mem[contOf(a)] = mk("out", fmt.Sprint(i), call)
			} else if a.Op == "aslice" {
				c.in.store(st, a.Args[0], mk("out", fmt.Sprint(i), call))
			}
		}
	}
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "bytes": true, "hex": true, "base64": true, "unicode": true, "utf8": true, "errors": true, "filepath": true, "path": true, "url": true, "bits": true, "subtle": true, "x509": true, "elliptic": true, "sha256": true}

func (c *callCtx) external() []callRes {
	pk := c.name
	if i := strings.Index(pk, "."); i >= 0 {
		pk = pk[:i]
	}
	if c.in.noInline[c.name] {
		return c.opaque()
	}
	if purePkgs[pk] || c.name == "error.Error" || c.name == "iface.String" || c.name == "fmt.Stringer.String" {
		return c.pure()
	}
	args := c.vals(0)
	call := callTerm(c.name, append(append([]*Term(nil), args...), c.site())...)
	c.in.sink(c.ps.st, "call", c.name, args, call, c.pos)
	c.in.did(c.ps.st, c.name, args...)
	c.havoc(call)
	return c.ret(pack(c.sig, call))
}

func (in *Interp) builtin(fr *frame, ps *PS, name string, c *ssa.CallCommon, instr ssa.Instruction, args []*Term, pos token.Pos) []callRes {
	st := ps.st
	one := func(v *Term) []callRes { return []callRes{{ps, v}} }
	switch name {
	case "len":
		a := in.content(st, args[0])
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return one(mkLen(mkKeys(a)))
		}
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
				return one(mkInt(arr.Len()))
			}
		}
		return one(mkLen(a))
	case "cap":
		return one(mk("cap", "", args[0]))
	case "append":
		a := in.content(st, args[0])
		if len(args) == 1 {
			return one(a)
		}
		b := in.content(st, args[1])
		return one(mkConcat(a, b))
	case "copy":
		n := args[1]
		src := in.content(st, args[1])
		dst := args[0]
		in.copyInto(st, dst, src)
		return one(mkLen(n))
	case "delete":
		m := args[0]
		k := in.resolve(st, args[1])
		cnt := in.content(st, m)
		in.sink(st, "mapdel", "mapdel", []*Term{m, k, cnt}, nil, pos)
		in.did(st, "mapdel", m, k)
		st.mem[contOf(m)] = mkMapdel(cnt, k)
		return one(tNil)
	case "close":
		in.sink(st, "close", "close", []*Term{args[0]}, nil, pos)
		in.did(st, "close", args[0])
		return one(tNil)
	case "recover":
		if st.mem[mkSym("recovering")] == tTrue {
			st.mem[mkSym("recovered")] = tTrue
			return one(mk("nonnil", "recovered"))
		}
		return one(tNil)
	case "print", "println":
		var l []*Term
		for _, a := range args {
			l = append(l, in.resolve(st, a))
		}
		in.sink(st, "call", "fmt.Print", l, nil, pos)
		return one(tNil)
	case "min", "max":
		l := append([]*Term(nil), args...)
		for i := range l {
			l[i] = in.resolve(st, l[i])
			for j := i; j > 0 && termLess(l[j], l[j-1]); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		return one(mk("call", name, l...))
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			st.mem[contOf(args[0])] = mk("emptymap", "")
		} else {
			st.mem[contOf(args[0])] = mk("make", "", mkLen(args[0]))
		}
		return one(tNil)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	panic("builtin " + name)
}

func mkMapdel(c, k *Term) *Term {
	if c.Op == "emptymap" {
		return c
	}
	if c.Op == "mapput" && c.Args[1] == k {
		return mkMapdel(c.Args[0], k)
	}
	return mk("mapdel", "", c, k)
}

// copyInto models copy(dst, src) when the lengths agree, and an opaque result otherwise.
func (in *Interp) copyInto(st *State, dst, src *Term) {
	switch dst.Op {
	case "obj":
		d := in.content(st, dst)
		if mkLen(d) == mkLen(src) {
			st.mem[contOf(dst)] = src
		} else {
			st.mem[contOf(dst)] = mk("copied", "", d, src)
		}
	case "aslice":
		in.store(st, dst.Args[0], src)
	case "slice":
		base := dst.Args[0]
		if base.Op == "obj" || base.Op == "aslice" {
			in.copyInto(st, base, mk("spliced", "", in.content(st, base), dst.Args[1], dst.Args[2], src))
			return
		}
		if n, ok := isInt(dst.Args[1]); ok && n == 1 && dst.Args[2].Op == "nil" {
			// shift: everything after the first item is overwritten
			c := in.content(st, base)
			room := mkSub(mkLen(c), mkInt(1), false)
			if d, ok := isInt(mkSub(mkLen(src), room, false)); ok && d >= 0 {
				st.mem[contOf(base)] = mkConcat(mk("list", "", mkElem(c, mkInt(0))), mkSlice(src, tNil, room))
				return
			}
		}
		st.mem[contOf(dst)] = src
	default:
		d := in.content(st, dst)
		if mkLen(d) == mkLen(src) {
			st.mem[contOf(dst)] = src
		} else {
			st.mem[contOf(dst)] = mk("copied", "", d, src)
		}
	}
}

// ---- primitives ----

type primFn func(c *callCtx) []callRes

var prims = map[string]primFn{}

func pureDrop(n int) primFn {
	return func(c *callCtx) []callRes {
		return c.ret(pack(c.sig, callTerm(c.name, c.vals(n)...)))
	}
}

// invRecord: the map is the inventory's of these records.
func (c *callCtx) invRecord() string {
	if m := c.val(0); m.Op == "fld" && len(c.types) > 0 && strings.HasPrefix(typeStr(c.types[0]), "inv.SomeSyncMap[") {
		switch m.Aux {
		case "blocks":
			return "Block"
		case "merkles":
			return "Merkle"
		case "txs":
			return "Tx"
		}
	}
	return ""
}

func pureP(c *callCtx) []callRes { return c.pure() }

func opaqueP(c *callCtx) []callRes { return c.opaque() }

func (c *callCtx) newRef(label string, content *Term) *Term {
	o := c.in.newObj(c.fr, c.instr, label, nil)
	c.ps.st.mem[contOf(o)] = content
	return o
}

func (c *callCtx) content(i int) *Term { return c.in.content(c.ps.st, c.args[i]) }

func listElems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case "list":
		return t.Args, true
	case "nil", "zero":
		return nil, true
	}
	return nil, false
}

// dropNegInv forgets "the inventory does not have ..." after a store.
func dropNegInv(st *State) {
	for f := range st.facts {
		if f.Op == "not" && anyTermMemo(f, func(x *Term) bool {
			return x.Op == "call" && strings.HasPrefix(x.Aux, "inv.Inv.Has")
		}) {
			delete(st.facts, f)
		}
	}
}

func bigVal(c *callCtx, ref *Term) *Term {
	v := c.in.content(c.ps.st, ref)
	if v.Op == "obj" || v.Op == "zero" {
		return mkInt(0)
	}
	return v
}

func bigSet(f func(c *callCtx) *Term) primFn {
	return func(c *callCtx) []callRes {
		c.ps.st.mem[contOf(c.args[0])] = f(c)
		return c.ret(c.args[0])
	}
}

func init() {
	for _, n := range []string{"HasBlock", "GetBlock", "GetBlockHeight", "GetBlockTotalWork", "HasMerkle", "GetMerkle", "GetMerkleVSize", "HasTx", "GetTx", "GetTxVSize", "GetMerkleTxIds", "GetBlockAncestors", "GetBlockLCA", "GetBlockSpecificAncestor", "GetBlockAncestorDepth", "GetBlockAncestorsUntil", "GetCoreParams"} {
		prims["inv.Inv."+n] = pureDrop(1)
	}
	for _, n := range []string{"StoreBlock", "StoreMerkle", "StoreTx"} {
		prims["inv.Inv."+n] = func(c *callCtx) []callRes {
			args := c.vals(1)
			call := callTerm(c.name, append(append([]*Term(nil), args...), c.site())...)
			c.in.sink(c.ps.st, "call", c.name, args, call, c.pos)
			c.in.did(c.ps.st, c.name, args...)
			dropNegInv(c.ps.st)
			return c.ret(call)
		}
	}
	for _, n := range []string{"Utxo.Hash", "TxIn.Hash", "TxOut.Hash", "Tx.Hash", "MerkleNode.Hash", "Block.Hash", "DHashBytes", "DHashUint64", "DHashBool", "DHashAny", "DHashHashes", "DHashVarious", "DHashList",
		"EcdsaVerify", "TxHashPreSig", "HashT.WorkAppendTarget", "HashT.MinNextTarget", "HashT.MaxNextTarget", "NextTarget", "ExpectedTargetAdjustment", "MerkleFromTxIds", "BlockMaxTxs", "MerkleTreeMaxSize", "CoinbaseVSize", "MinNonCoinbaseVSize", "HashT.String", "HashT.Data",
		"NewHashTFromString", "NewHashTFromStringAssert", "NewHashTFromBytes", "Tx.Rate", "Tx.FeeFromRate", "ExamplePubDer", "ExampleMaxSigAsn", "ProdNetParams", "DevNetParams", "MarshalEcdsaPublic", "MarshalEcdsaPrivate", "ParseECDSAPrivate"} {
		prims["core."+n] = pureP
	}
	prims["core.Tx.VSize"] = pureP
	prims["core.HashT.Data"] = func(c *callCtx) []callRes { return c.ret(mkField(c.val(0), "data")) }
	prims["core.EcdsaSign"] = func(c *callCtx) []callRes {
		args := c.vals(0)
		call := callTerm(c.name, args...)
		c.in.sink(c.ps.st, "call", c.name, c.vals(0), nil, c.pos)
		c.in.did(c.ps.st, c.name, args...)
		return c.ret(pack(c.sig, call))
	}
	prims["core.NewEcdsa"] = opaqueP
	prims["core.NewHashTRand"] = opaqueP
	prims["core.HashT.Eq"] = func(c *callCtx) []callRes { return c.ret(mkEq(c.val(0), c.val(1))) }
	prims["core.HashT.EqZero"] = func(c *callCtx) []callRes { return c.ret(mkEq(c.val(0), tZero)) }
	prims["core.HashT.Lt"] = func(c *callCtx) []callRes { return c.ret(mkHashLt(c.val(0), c.val(1))) }
	prims["core.HashT.BigInt"] = func(c *callCtx) []callRes {
		h := c.val(0)
		v := callTerm("core.HashT.BigInt", h)
		if isCall(h, "core.NewHashTFromBigInt") {
			v = h.Args[0]
		}
		return c.ret(c.newRef("big", v))
	}
	prims["core.HashT.TargetToWork"] = func(c *callCtx) []callRes {
		return c.ret(c.newRef("big", callTerm(c.name, c.val(0))))
	}
	prims["core.NewHashTFromBigInt"] = func(c *callCtx) []callRes {
		return c.ret(callTerm(c.name, bigVal(c, c.args[0])))
	}
	prims["core.TargetsToTotalWork"] = func(c *callCtx) []callRes {
		return c.ret(c.newRef("big", callTerm(c.name, c.val(0))))
	}

	// math/big
	bi := func(n string, f func(c *callCtx) *Term) { prims["big.Int."+n] = bigSet(f) }
	prims["big.NewInt"] = func(c *callCtx) []callRes { return c.ret(c.newRef("big", c.val(0))) }
	bi("SetUint64", func(c *callCtx) *Term { return c.val(1) })
	bi("SetInt64", func(c *callCtx) *Term { return c.val(1) })
	bi("SetBytes", func(c *callCtx) *Term { return mk("call", "big.bytes", c.val(1)) })
	bi("Set", func(c *callCtx) *Term { return bigVal(c, c.args[1]) })
	bi("Mul", func(c *callCtx) *Term { return mkMul(bigVal(c, c.args[1]), bigVal(c, c.args[2])) })
	bi("Add", func(c *callCtx) *Term { return mkAdd(bigVal(c, c.args[1]), bigVal(c, c.args[2])) })
	bi("Sub", func(c *callCtx) *Term { return mkSub(bigVal(c, c.args[1]), bigVal(c, c.args[2]), false) })
	for _, n := range []string{"Div", "Quo"} {
		bi(n, func(c *callCtx) *Term { return mk("bin", "/", bigVal(c, c.args[1]), bigVal(c, c.args[2])) })
	}
	bi("Rsh", func(c *callCtx) *Term {
		if n, ok := isInt(c.val(2)); ok && n < 62 {
			return mk("bin", "/", bigVal(c, c.args[1]), mkInt(1<<uint(n)))
		}
		return mk("bin", ">>", bigVal(c, c.args[1]), c.val(2))
	})
	bi("Lsh", func(c *callCtx) *Term {
		if n, ok := isInt(c.val(2)); ok && n < 62 {
			return mkMul(bigVal(c, c.args[1]), mkInt(1<<uint(n)))
		}
		return mk("bin", "<<", bigVal(c, c.args[1]), c.val(2))
	})
	bi("Exp", func(c *callCtx) *Term { return mk("bin", "**", bigVal(c, c.args[1]), bigVal(c, c.args[2])) })
	prims["big.Int.SetString"] = func(c *callCtx) []callRes {
		v := callTerm("big.parse", c.val(1), c.val(2))
		c.ps.st.mem[contOf(c.args[0])] = v
		return c.ret(mk("tuple", "", c.args[0], mk("parsed", "", v)))
	}
	prims["big.Int.Cmp"] = func(c *callCtx) []callRes {
		return c.ret(mk("cmp", "", bigVal(c, c.args[0]), bigVal(c, c.args[1])))
	}
	prims["big.Int.Sign"] = func(c *callCtx) []callRes { return c.ret(mk("cmp", "", bigVal(c, c.args[0]), mkInt(0))) }
	prims["big.Int.FillBytes"] = func(c *callCtx) []callRes {
		c.in.copyInto(c.ps.st, c.args[1], mk("call", "big.fill", bigVal(c, c.args[0])))
		return c.ret(c.args[1])
	}
	prims["big.Int.Uint64"] = func(c *callCtx) []callRes { return c.ret(bigVal(c, c.args[0])) }
	prims["big.Int.Int64"] = prims["big.Int.Uint64"]
	for _, n := range []string{"SetInt", "Float64", "Quo", "Mul", "SetFloat64", "SetUint64"} {
		n := n
		prims["big.Float."+n] = func(c *callCtx) []callRes { return c.pure() }
	}

	// sets
	prims["set.NewSet"] = func(c *callCtx) []callRes { return c.ret(c.newRef("set", mk("list", ""))) }
	prims["set.NewSetFromList"] = func(c *callCtx) []callRes { return c.ret(c.newRef("set", c.content(0))) }
	prims["set.Set.Add"] = func(c *callCtx) []callRes {
		ref := c.args[0]
		ks := c.val(1)
		if l, ok := listElems(ks); ok {
			for _, k := range l {
				c.in.sink(c.ps.st, "call", "set.Add", []*Term{ref, k}, nil, c.pos)
				c.in.did(c.ps.st, "set.Add", ref, k)
			}
		} else {
			c.in.sink(c.ps.st, "call", "set.AddAll", []*Term{ref, ks}, nil, c.pos)
			c.in.did(c.ps.st, "set.AddAll", ref, ks)
		}
		c.ps.st.mem[contOf(ref)] = mkConcat(c.content(0), ks)
		return c.ret(tNil)
	}
	prims["set.Set.Remove"] = func(c *callCtx) []callRes {
		ref, k := c.args[0], c.val(1)
		ct := c.content(0)
		cond := mkIn(k, ct)
		e := c.in.evalCond(c.ps.st, cond)
		var out []callRes
		if e == nil || e == tTrue {
			p := c.ps
			if e == nil {
				p = c.ps.clone()
			}
			if c.in.addFact(p.st, cond) {
				c.in.sink(p.st, "call", "set.Remove", []*Term{ref, k}, nil, c.pos)
				c.in.did(p.st, "set.Remove", ref, k)
				p.st.mem[contOf(ref)] = mk("srm", "", ct, k)
				out = append(out, callRes{p, tTrue})
			}
		}
		if e == nil || e == tFalse {
			if c.in.addFact(c.ps.st, mkNot(cond)) {
				c.in.did(c.ps.st, "set.RemoveMiss", ref, k)
				out = append(out, callRes{c.ps, tFalse})
			}
		}
		return out
	}
	prims["set.Set.Includes"] = func(c *callCtx) []callRes { return c.ret(mkIn(c.val(1), c.content(0))) }
	prims["set.Set.IncludesAny"] = func(c *callCtx) []callRes { return c.ret(mkInter(c.val(1), c.content(0))) }
	prims["set.Set.HasIntersection"] = func(c *callCtx) []callRes { return c.ret(mkInter(c.content(0), c.content(1))) }
	prims["set.Set.Size"] = func(c *callCtx) []callRes { return c.ret(mkLen(mk("call", "setlist", c.content(0)))) }
	prims["set.Set.ToList"] = func(c *callCtx) []callRes { return c.ret(mk("call", "setlist", c.content(0))) }
	prims["set.Set.Copy"] = func(c *callCtx) []callRes { return c.ret(c.newRef("set", c.content(0))) }
	prims["set.Set.Filter"] = func(c *callCtx) []callRes {
		ref := c.args[0]
		ct := c.content(0)
		x := mk("idx", "f."+c.fr.key+"/"+c.fr.fi.site[c.instr], c.in.loops...)
		el := mkElem(ct, x)
		if k := c.in.predTerm(c, c.args[1], []*Term{el}); k != nil {
			c.ps.st.mem[contOf(ref)] = mkBinder("filt", x, ct, k)
		} else {
			c.ps.st.mem[contOf(ref)] = mk("filtered", "", ct, c.site())
		}
		c.in.did(c.ps.st, "set.Filter", ref)
		c.in.sink(c.ps.st, "call", "set.Filter", []*Term{ref}, nil, c.pos)
		return c.ret(tNil)
	}

	// queues are lists
	prims["queue.NewQueue"] = func(c *callCtx) []callRes { return c.ret(c.newRef("queue", c.content(0))) }
	prims["queue.Queue.Push"] = func(c *callCtx) []callRes {
		c.ps.st.mem[contOf(c.args[0])] = mkConcat(c.content(0), c.val(1))
		c.in.did(c.ps.st, "queue.Push", c.args[0], c.val(1))
		return c.ret(tNil)
	}
	prims["queue.Queue.Size"] = func(c *callCtx) []callRes { return c.ret(mkLen(c.content(0))) }
	prims["queue.Queue.Pop"] = func(c *callCtx) []callRes {
		ct := c.content(0)
		nz := mkNot(mkEq(mkLen(ct), mkInt(0)))
		v := mkElem(ct, mkInt(0))
		if e := c.in.evalCond(c.ps.st, nz); e == tTrue {
			c.ps.st.mem[contOf(c.args[0])] = mkSlice(ct, mkInt(1), tNil)
			return c.ret(mk("tuple", "", v, tTrue))
		}
		p := c.ps.clone()
		var out []callRes
		if c.in.addFact(p.st, nz) {
			p.st.mem[contOf(c.args[0])] = mkSlice(ct, mkInt(1), tNil)
			out = append(out, callRes{p, mk("tuple", "", v, tTrue)})
		}
		if c.in.addFact(c.ps.st, mkNot(nz)) {
			out = append(out, callRes{c.ps, mk("tuple", "", tZero, tFalse)})
		}
		return out
	}

	// util
	prims["util.MapKeys"] = func(c *callCtx) []callRes { return c.ret(c.newRef("slice", mkKeys(c.content(0)))) }
	prims["util.CopyMap"] = func(c *callCtx) []callRes { return c.ret(c.newRef("map", c.content(0))) }
	prims["util.CopyList"] = func(c *callCtx) []callRes { return c.ret(c.newRef("slice", c.content(0))) }
	prims["util.Reverse"] = func(c *callCtx) []callRes { return c.ret(c.newRef("slice", mkReverse(c.content(0)))) }
	prims["util.Prepend"] = func(c *callCtx) []callRes { return c.ret(mkConcat(mkReverse(c.val(1)), c.content(0))) }
	prims["util.FlattenLists"] = func(c *callCtx) []callRes {
		v := c.val(0)
		if v.Op == "list" {
			return c.ret(mkConcat(v.Args...))
		}
		return c.ret(mk("call", "util.FlattenLists", v))
	}
	prims["util.WriteChIfPossible"] = func(c *callCtx) []callRes {
		a := c.vals(0)
		c.in.sink(c.ps.st, "reply", c.name, a, nil, c.pos)
		c.in.did(c.ps.st, "reply", a[0], a[1])
		return c.ret(tNil)
	}
	prims["util.WriteFileAtomic"] = opaqueP
	prims["slices.Reverse"] = func(c *callCtx) []callRes {
		c.ps.st.mem[contOf(c.args[0])] = mkReverse(c.content(0))
		return c.ret(tNil)
	}
	prims["slices.Clone"] = func(c *callCtx) []callRes { return c.ret(c.newRef("slice", c.content(0))) }
	prims["slices.Contains"] = func(c *callCtx) []callRes { return c.ret(mkIn(c.val(1), c.content(0))) }
	prims["maps.Clone"] = func(c *callCtx) []callRes { return c.ret(c.newRef("map", c.content(0))) }
	prims["maps.Copy"] = func(c *callCtx) []callRes {
		d := c.content(0)
		if d.Op == "emptymap" {
			c.ps.st.mem[contOf(c.args[0])] = c.content(1)
		} else {
			c.ps.st.mem[contOf(c.args[0])] = mk("mapmerge", "", d, c.content(1))
		}
		return c.ret(tNil)
	}

	// sorting
	sortP := func(c *callCtx) []callRes {
		ref := c.args[0]
		ct := c.content(0)
		i := mk("idx", "si."+c.fr.key+"/"+c.fr.fi.site[c.instr], c.in.loops...)
		j := mk("idx", "sj."+c.fr.key+"/"+c.fr.fi.site[c.instr], c.in.loops...)
		less := c.in.predTerm(c, c.args[1], []*Term{i, j})
		if less == nil {
			less = c.site()
		}
		less = subst(subst(less, i, mkSym("#i")), j, mkSym("#j"))
		v := mk("sorted", "", ct, less)
		c.ps.st.mem[contOf(ref)] = v
		c.in.sink(c.ps.st, "call", "sort", []*Term{ct, less}, nil, c.pos)
		return c.ret(tNil)
	}
	prims["sort.Slice"] = sortP
	prims["sort.SliceStable"] = sortP

	// channels of events
	for _, n := range []string{"topic.Topic.Pub", "topic.Topic.SubCh", "topic.Topic.Sub", "topic.SubCh.Close", "topic.NewTopic"} {
		prims[n] = opaqueP
	}

	// maps shared between goroutines
	for _, m := range []string{"inv.SomeSyncMap", "syncmap.SyncMap", "disksyncmap.DiskSyncMap"} {
		prims[m+".Has"] = func(c *callCtx) []callRes {
			if r := c.invRecord(); r != "" {
				return c.ret(callTerm("inv.Inv.Has"+r, c.val(1)))
			}
			return c.ret(callTerm("SyncMap.Has", c.vals(0)...))
		}
		prims[m+".Get"] = func(c *callCtx) []callRes {
			x := c.val(1)
			get := func(n string) *Term { return callTerm("inv.Inv.Get"+n, x) }
			// what a record holds is what the inventory's readers say
			switch c.invRecord() {
			case "Block":
				return c.ret(mkStruct("inv.BlockRecord", []string{"Block", "Height", "TotalWork"}, []*Term{get("Block"), get("BlockHeight"), get("BlockTotalWork")}))
			case "Merkle":
				return c.ret(mkStruct("inv.MerkleRecord", []string{"Merkle", "VSize"}, []*Term{get("Merkle"), get("MerkleVSize")}))
			case "Tx":
				return c.ret(mkStruct("inv.TxRecord", []string{"Tx", "VSize"}, []*Term{get("Tx"), get("TxVSize")}))
			}
			return c.ret(callTerm("SyncMap.Get", c.vals(0)...))
		}
		prims[m+".Store"] = func(c *callCtx) []callRes {
			a := c.vals(0)
			c.in.sink(c.ps.st, "call", "SyncMap.Store", a, nil, c.pos)
			c.in.did(c.ps.st, "SyncMap.Store", a...)
			return c.ret(tNil)
		}
	}

	// standard library
	for _, n := range []string{"fmt.Errorf", "errors.New"} {
		prims[n] = func(c *callCtx) []callRes { return c.ret(tErr) }
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		prims[n] = pureP
	}
	for _, n := range []string{"errors.Is", "os.IsNotExist", "os.IsExist"} {
		prims[n] = func(c *callCtx) []callRes {
			if c.val(0) == tNil {
				return c.ret(tFalse)
			}
			return c.pure()
		}
	}
	prims["fmt.Sprintf"] = func(c *callCtx) []callRes {
		if t := joined(c); t != nil {
			return c.ret(t)
		}
		return c.pure()
	}
	// text written with fmt is text written
	prims["fmt.Fprintf"] = func(c *callCtx) []callRes {
		if t := plainFormat(c, 1); t != nil {
			return c.writeText(t)
		}
		return c.external()
	}
	prims["fmt.Fprint"] = func(c *callCtx) []callRes {
		ts := varargTypes(callArg(c, 1))
		if l, ok := listElems(c.val(1)); ok && len(l) == 1 && len(ts) == 1 {
			if t := textOf(c, l[0], ts[0]); t != nil {
				return c.writeText(t)
			}
		}
		return c.external()
	}
	prims["bytes.Equal"] = func(c *callCtx) []callRes { return c.ret(mkEq(c.val(0), c.val(1))) }
	prims["time.Now"] = func(c *callCtx) []callRes { return c.ret(mkSym("Now")) }
	for _, n := range []string{"Unix", "Add", "UnixMilli", "After", "Before", "Sub", "IsZero"} {
		prims["time.Time."+n] = pureP
	}
	prims["time.Since"] = pureP
	for _, n := range []string{"Seconds", "Milliseconds"} {
		prims["time.Duration."+n] = pureP
	}
	prims["json.Marshal"] = pureP
	prims["json.Unmarshal"] = func(c *callCtx) []callRes {
		d := c.val(0)
		ptr := c.args[1]
		t := ""
		if o := rootObj(locOf(ptr)); o != nil && objTypes[o] != nil {
			t = typeStr(objTypes[o])
		}
		call := callTerm("json.Unmarshal", d)
		c.in.did(c.ps.st, "json.Unmarshal", d)
		if rootObj(locOf(ptr)) != nil {
			c.in.store(c.ps.st, locOf(ptr), mk("unjson", t, d))
		} else {
			c.in.did(c.ps.st, "json.Unmarshal.into", d, ptr)
		}
		return c.ret(call)
	}
	prims["strings.HasPrefix"] = func(c *callCtx) []callRes {
		s, p := c.val(0), c.val(1)
		if s.Op == "cat" && s.Args[0].Op == "str" && p.Op == "str" && len(unq(s.Args[0])) >= len(unq(p)) {
			return c.ret(mkBool(strings.HasPrefix(unq(s.Args[0]), unq(p))))
		}
		if s.Op == "str" && p.Op == "str" {
			return c.ret(mkBool(strings.HasPrefix(unq(s), unq(p))))
		}
		return c.ret(callTerm("strings.HasPrefix", s, p))
	}
	prims["bytes.HasPrefix"] = prims["strings.HasPrefix"]
	// what follows a prefix
	cut := func(c *callCtx) (rest, has *Term) {
		s, p := c.val(0), c.val(1)
		has = prims["strings.HasPrefix"](c)[0].val
		if s.Op == "str" && p.Op == "str" {
			return mkStr(strings.TrimPrefix(unq(s), unq(p))), has
		}
		if s.Op == "cat" && s.Args[0].Op == "str" && p.Op == "str" && has == tTrue {
			return mkCat(append([]*Term{mkStr(strings.TrimPrefix(unq(s.Args[0]), unq(p)))}, s.Args[1:]...)...), has
		}
		if c.ps.st.facts[has] {
			return mkSlice(s, mkLen(p), tNil), has
		}
		if c.ps.st.facts[mkNot(has)] {
			return s, has
		}
		return callTerm("strings.TrimPrefix", s, p), has
	}
	prims["strings.TrimPrefix"] = func(c *callCtx) []callRes {
		rest, _ := cut(c)
		return c.ret(rest)
	}
	prims["bytes.TrimPrefix"] = prims["strings.TrimPrefix"]
	prims["strings.CutPrefix"] = func(c *callCtx) []callRes {
		s, p := c.val(0), c.val(1)
		rest, has := cut(c)
		if has == tTrue || has == tFalse || c.ps.st.facts[has] || c.ps.st.facts[mkNot(has)] {
			return c.ret(mk("tuple", "", rest, has))
		}
		var out []callRes
		for _, ok := range []*Term{tTrue, tFalse} {
			n := c.ps.clone()
			v := s
			if ok == tTrue {
				c.in.addFact(n.st, has)
				v = mkSlice(s, mkLen(p), tNil)
			} else {
				c.in.addFact(n.st, mkNot(has))
			}
			out = append(out, callRes{n, mk("tuple", "", v, ok)})
		}
		return out
	}
	prims["bytes.CutPrefix"] = prims["strings.CutPrefix"]
	prims["strings.Builder.WriteString"] = func(c *callCtx) []callRes {
		k := contOf(c.args[0])
		cur, ok := c.ps.st.mem[k]
		if !ok {
			cur = mkStr("")
		}
		c.ps.st.mem[k] = mkCat(cur, c.val(1))
		return c.ret(mk("tuple", "", mkLen(c.val(1)), tNil))
	}
	prims["strings.Builder.WriteByte"] = func(c *callCtx) []callRes {
		k := contOf(c.args[0])
		cur, ok := c.ps.st.mem[k]
		if !ok {
			cur = mkStr("")
		}
		v := c.val(1)
		if n, ok := isInt(v); ok {
			v = mkStr(string(rune(n)))
		}
		c.ps.st.mem[k] = mkCat(cur, v)
		return c.ret(tNil)
	}
	prims["strings.Builder.WriteRune"] = prims["strings.Builder.WriteByte"]
	prims["strings.Builder.String"] = func(c *callCtx) []callRes {
		if v, ok := c.ps.st.mem[contOf(c.args[0])]; ok {
			return c.ret(v)
		}
		return c.ret(mkStr(""))
	}
	prims["strings.Join"] = func(c *callCtx) []callRes {
		l, sep := c.val(0), c.val(1)
		if l.Op == "list" && sep.Op == "str" && len(l.Args) > 0 {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, a)
			}
			return c.ret(mk("call", "strings.Join", l, sep))
		}
		return c.ret(mk("call", "strings.Join", l, sep))
	}
	prims["binary.bigEndian.PutUint64"] = func(c *callCtx) []callRes {
		c.in.copyInto(c.ps.st, c.args[1], mk("call", "be64", c.val(2)))
		return c.ret(tNil)
	}
	prims["binary.bigEndian.PutUint16"] = func(c *callCtx) []callRes {
		c.in.copyInto(c.ps.st, c.args[1], mk("call", "be16", c.val(2)))
		return c.ret(tNil)
	}
	for n, call := range map[string]string{"binary.bigEndian.AppendUint64": "be64", "binary.bigEndian.AppendUint16": "be16"} {
		prims[n] = func(c *callCtx) []callRes {
			return c.ret(mkConcat(c.content(1), mk("call", call, c.val(2))))
		}
	}
	prims["binary.bigEndian.Uint64"] = pureDrop(1)
	prims["binary.bigEndian.Uint16"] = pureDrop(1)
	prims["http.MaxBytesReader"] = pureP
}

func mkHashLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if b.Op == "zero" {
		return tFalse
	}
	return mk("lt", "h", a, b)
}

// predTerm analyses a side-effect-free function value and gives the condition under which it
// returns true (a disjunction over its outcomes), or nil.
func (in *Interp) predTerm(c *callCtx, fnT *Term, args []*Term) *Term {
	if fnT.Op != "closure" && fnT.Op != "func" {
		return nil
	}
	f := closureFn[fnT.Aux]
	if f == nil || f.Blocks == nil {
		return nil
	}
	st := c.ps.st.clone()
	base := st.clone()
	in.quiet++
	var outs []Outcome
	if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "bound method") {
		in.quiet--
		return nil
	}
	outs = in.exec(f, args, fnT.Args, st, c.fr.fi.site[c.instr]+"p")
	in.quiet--
	var alts []*Term
	for _, o := range outs {
		if o.kind != "ret" || len(o.vals) != 1 {
			continue
		}
		v := in.resolve(o.st, o.vals[0])
		if v == tFalse {
			continue
		}
		var conj []*Term
		for fct := range o.st.facts {
			if !base.facts[fct] {
				conj = append(conj, fct)
			}
		}
		if v != tTrue {
			conj = append(conj, v)
		}
		alts = append(alts, mkConj(conj))
	}
	return mkAlts(alts)
}

func mkConj(fs []*Term) *Term {
	m := map[*Term]bool{}
	var l []*Term
	for _, f := range fs {
		if f == tTrue || m[f] {
			continue
		}
		m[f] = true
		l = append(l, f)
	}
	sortTerms(l)
	if len(l) == 1 {
		return l[0]
	}
	return mk("conj", "", l...)
}

func mkAlts(fs []*Term) *Term {
	if len(fs) == 1 {
		return fs[0]
	}
	l := append([]*Term(nil), fs...)
	sortTerms(l)
	return mk("alts", "", l...)
}

func sortTerms(l []*Term) {
	for i := range l {
		for j := i; j > 0 && termLess(l[j], l[j-1]); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
