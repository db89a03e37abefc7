package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the places where the inventory grows ----

type storeSite struct {
	fn    *ssa.Function
	pos   token.Pos
	instr ssa.Instruction
}

// storeSites finds every call of a Store method whose value is of the given record type.
func (p *Prog) storeSites(rec string) []storeSite {
	t := p.typ("internal/inv." + rec)
	if t == nil {
		return nil
	}
	var out []storeSite
	for _, f := range p.funcs() {
		if f.Pkg != nil && (f.Pkg.Pkg.Name() == "syncmap" || f.Pkg.Pkg.Name() == "disksyncmap") || f.Origin() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				name := ""
				if com.IsInvoke() {
					name = com.Method.Name()
				} else if c := com.StaticCallee(); c != nil {
					name = c.Name()
					if c.Origin() != nil {
						name = c.Origin().Name()
					}
				}
				if name != "Store" || len(com.Args) == 0 {
					continue
				}
				if types.Identical(com.Args[len(com.Args)-1].Type(), t) {
					out = append(out, storeSite{f, in.Pos(), in})
				}
			}
		}
	}
	return out
}

type storeSink struct {
	r    *runRes
	s    Sink
	k    K
	root *ssa.Function
	m    *Term // the map
	key  *Term
	rec  *Term
}

// stores analyses every exported function that can reach a store of this record type and returns
// what is known at each store.
func (c *Ctx) stores(rec string) []storeSink {
	sites := c.p.storeSites(rec)
	if !c.need("a store of "+rec, len(sites) > 0) {
		return nil
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i].pos < sites[j].pos })
	at := map[token.Pos]bool{}
	rootSet := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, s := range sites {
		at[s.pos] = true
		for _, f := range c.p.entries(s.fn) {
			if !rootSet[f] {
				rootSet[f] = true
				roots = append(roots, f)
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	var out []storeSink
	hit := map[token.Pos]bool{}
	for _, f := range roots {
		var args []*Term
		for i, q := range f.Params {
			n := q.Name()
			if i == 0 && f.Signature.Recv() != nil {
				n = "inv"
			}
			args = append(args, mkSym(n))
		}
		r := c.runFn(f, runOpt{args: args})
		for _, s := range r.in.sinks {
			if s.name != "SyncMap.Store" || !at[s.pos] {
				continue
			}
			hit[s.pos] = true
			k := s.k(r.in)
			out = append(out, storeSink{r, s, k, f, r.in.resolve(k.st, s.args[0]), r.in.resolve(k.st, s.args[1]), r.in.resolve(k.st, s.args[2])})
		}
	}
	for _, s := range sites {
		c.ob("all-writers", "store of "+rec+" in "+shortName(s.fn), hit[s.pos], s.pos, "every place that adds a %s to the inventory must be reached by an analysed entry point", rec)
	}
	return out
}

func (s storeSink) name() string { return strings.Join(s.s.stack, " > ") }

// require an obligation at a store.
func (c *Ctx) at(s storeSink, rule, what string, ok bool) {
	d := "established before the store"
	if !ok {
		d = "not established before the store: " + what + "\n  stored under: " + clip(s.key.String(), 300) + describeFacts(s.k.st.facts)
	}
	c.ob(rule, s.name()+": "+what, ok, s.s.pos, "%s", d)
}

// params gives the consensus parameters the inventory verifies against.
func invParams() *Term { return F(mkSym("inv"), "verifier", "params") }

// originOf is the output an input claims.
func originOf(in *Term) *Term {
	u := F(in, "Utxo")
	return mkElem(F(inv("GetTx", F(u, "TxId")), "Outputs"), F(u, "Ind"))
}

// spendExists: each input names an output of a known transaction.
func (c *Ctx) spendExists(s storeSink) {
	c.at(s, "spend-exists", "each input names an output of a known transaction", s.k.each(F(s.rec, "Tx", "Inputs"), func(k K, i, e *Term) bool {
		u := F(e, "Utxo")
		return k.has(inv("HasTx", F(u, "TxId"))) && k.has(mkLt(F(u, "Ind"), mkLen(F(inv("GetTx", F(u, "TxId")), "Outputs")), true))
	}))
}

// spendValue: each input states the value of the output it spends.
func (c *Ctx) spendValue(s storeSink) {
	c.at(s, "spend-value", "each input states the value of the output it spends", s.k.each(F(s.rec, "Tx", "Inputs"), func(k K, i, e *Term) bool {
		return k.has(mkEq(F(e, "Utxo", "Value"), F(originOf(e), "Value")))
	}))
}

// contractVerifier: the inventory verifies against its own contents and its own parameters.
func (c *Ctx) contractVerifier() {
	ps := mkSym("params")
	c.contract("verifier", "internal/inv.NewInv", "verifies against its own contents and the network's parameters",
		runOpt{args: []*Term{ps, mkSym("dir")}}, func(r *runRes, k K, v []*Term) bool {
			ver := F(v[0], "verifier")
			back := F(ver, "inv")
			return F(ver, "params") == ps && F(v[0], "coreParams") == ps && F(back, "coreParams") == ps && F(back, "saveDir") == mkSym("dir")
		})
	// nothing replaces the verifier, the parameters or the maps afterwards
	for _, w := range c.p.fieldWrites("internal/inv.Inv") {
		ok := w.fn.Name() == "NewInv" || onlyFrom(c.p, w.fn, "NewInv")
		c.ob("verifier", "inventory field "+w.field+" written in "+shortName(w.fn), ok, w.pos, "fields of the inventory may only be set when it is built")
	}
	for _, w := range c.p.fieldWrites("pkg/core.Verifier") {
		ok := w.fn.Name() == "NewVerifier" || onlyFrom(c.p, w.fn, "NewVerifier")
		c.ob("verifier", "verifier field "+w.field+" written in "+shortName(w.fn), ok, w.pos, "fields of the verifier may only be set when it is built")
	}
}

// onlyFrom: every path into f inside its package starts at the named function.
func onlyFrom(p *Prog, f *ssa.Function, name string) bool {
	es := p.entries(f)
	for _, e := range es {
		if e.Name() != name {
			return false
		}
	}
	return len(es) > 0
}

type fieldWrite struct {
	fn    *ssa.Function
	field string
	pos   token.Pos
	base  ssa.Value
}

// fieldWrites lists the stores to fields of a struct type anywhere in the repository, except
// those that initialise a value being built (composite literals and local copies).
func (p *Prog) fieldWrites(typ string) []fieldWrite {
	t := p.typ(typ)
	if t == nil {
		return nil
	}
	var out []fieldWrite
	for _, f := range p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					// whole-struct overwrite through a pointer that is not a local
					if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
						if _, local := st.Addr.(*ssa.Alloc); !local {
							out = append(out, fieldWrite{f, "*", st.Pos(), st.Addr})
						}
					}
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) {
					continue
				}
				s := pt.Elem().Underlying().(*types.Struct)
				out = append(out, fieldWrite{f, s.Field(fa.Field).Name(), st.Pos(), fa.X})
			}
		}
	}
	return out
}

func init() {
	register("C01",
		"every store of a transaction into the inventory (all call sites, all exported entry points reaching them) is dominated, for each input, by: the claimed output exists, the key hashes to its owner, the value matches, and the signature over (minimum block, outputs) verified; contracts of the primitives used are checked on their bodies",
		nil, func(c *Ctx) {
			for _, s := range c.stores("TxRecord") {
				tx := F(s.rec, "Tx")
				ins := F(tx, "Inputs")
				each := func(rule, what string, f func(k K, in *Term) bool) {
					c.at(s, rule, what, s.k.each(ins, func(k K, i, e *Term) bool { return f(k, e) }))
				}
				c.spendExists(s)
				each("spend-owner", "each input's key hashes to the owner of the output it spends", func(k K, e *Term) bool {
					return k.has(mkEq(callTerm("core.DHashBytes", F(e, "PublicKey")), F(originOf(e), "PublicKeyHash")))
				})
				c.spendValue(s)
				h := callTerm("core.TxHashPreSig", F(tx, "MinBlock"), F(tx, "Outputs"))
				each("spend-signed", "each input's signature over the minimum block and outputs verified under its key", func(k K, e *Term) bool {
					v := callTerm("core.EcdsaVerify", F(e, "PublicKey"), h, F(e, "Signature"))
					return k.has(mk("res", "0", v)) && k.has(mkEq(mk("res", "1", v), tNil))
				})
			}
			c.atLeast("spend-signed", 1)
			c.contractVerifier()
			c.contractInvReads("HasTx", "GetTx", "HasTxOut", "GetTxOut")
			c.contractSyncMap()
			c.contractHashEq()
			c.contractEcdsa()
			c.contractDHash()
		})

	register("C02",
		"at every store of a transaction: no-overflow of both totals is established for all prefixes, spends exceed outputs unless coinbase, a coinbase has no inputs; at every store of a block: totals balance with the reward and only the first transaction is a coinbase; a lone coinbase never enters the pool",
		nil, func(c *Ctx) {
			P := invParams()
			for _, s := range c.stores("TxRecord") {
				tx := F(s.rec, "Tx")
				ins, outs := F(tx, "Inputs"), F(tx, "Outputs")
				cb := F(tx, "IsCoinbase")
				nonCb, okN := s.k.with(mkNot(cb))
				isCb, okC := s.k.with(cb)
				sumIn, sumOut := sumOf(ins, "Utxo", "Value"), sumOf(outs, "Value")
				c.spendExists(s)
				c.spendValue(s)
				c.at(s, "distinct-inputs", "no output is spent twice by one transaction", s.k.distinctInputs(ins))
				c.at(s, "surplus", "an ordinary transaction's inputs exceed its outputs", !okN || nonCb.has(mkLt(sumOut, sumIn, true)))
				c.at(s, "no-overflow", "the total of the inputs does not overflow", s.k.noOverflow(ins, "Utxo", "Value") || !okN && s.k.has(mkEq(mkLen(ins), mkInt(0))))
				c.at(s, "no-overflow", "the total of the outputs does not overflow", s.k.noOverflow(outs, "Value") ||
					!okN && s.k.has(mkEq(mkLen(outs), mkInt(1))))
				c.at(s, "coinbase-shape", "a coinbase spends nothing", !okC || isCb.has(mkEq(mkLen(ins), mkInt(0))))
				c.at(s, "coinbase-shape", "a coinbase has exactly one output", !okC || isCb.has(mkEq(mkLen(outs), mkInt(1))))
			}
			for _, s := range c.stores("BlockRecord") {
				b := F(s.rec, "Block")
				if isOrigin(s) {
					c.at(s, "balance", "the origin block carries no transactions", F(b, "MerkleRoot") == tZero || b == tZero)
					continue
				}
				ids := inv("GetMerkleTxIds", F(b, "MerkleRoot"))
				ri := mk("idx", "bal")
				txi := inv("GetTx", mkElem(ids, ri))
				si := mkBinder("sum", ri, mkLen(ids), sumOf(F(txi, "Inputs"), "Utxo", "Value"))
				so := mkBinder("sum", ri, mkLen(ids), sumOf(F(txi, "Outputs"), "Value"))
				c.at(s, "balance", "inputs plus the block reward equal outputs", s.k.has(mkEq(mkAdd(F(P, "BlockReward"), si), so)))
				c.at(s, "one-coinbase", "the first transaction, and no other, is a coinbase", s.k.onlyFirstCoinbase(ids))
			}
			c.atLeast("surplus", 1)
			c.atLeast("balance", 1)
			c.atLeast("one-coinbase", 1)
			c.looseCoinbase()
			c.contractVerifier()
			c.contractInvReads("HasTx", "HasTxOut", "GetTx", "GetMerkleTxs", "GetMerkleTxIds", "GetTxOut")
			c.contractSyncMap()
			c.contractHashEq()
			c.contractSet()
		})
}

// isOrigin: the record under the zero id that is put there when the inventory is built.
func isOrigin(s storeSink) bool { return s.key == tZero }

func sumOf(list *Term, path ...string) *Term {
	i := mk("idx", "sum")
	return mkBinder("sum", i, mkLen(list), F(mkElem(list, i), path...))
}

// noOverflow: adding up the field over the list never wraps, at any prefix.
func (k K) noOverflow(list *Term, path ...string) bool {
	return k.forall(mkLen(list), func(k K, i *Term) bool {
		j := mk("idx", "sum")
		pre := mkBinder("sum", j, i, F(mkElem(list, j), path...))
		v := F(mkElem(list, i), path...)
		return k.has(mkNot(mk("ovf", "", mkAdd(pre, v)))) || k.noOvf(pre, v)
	})
}

// noOvf: other ways of saying that a+b does not wrap.
func (k K) noOvf(a, b *Term) bool {
	max := mk("int", "18446744073709551615")
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if k.has(mkNot(mkLt(mkSub(max, p[0], true), p[1], true))) || k.has(mkLt(p[1], mkSub(max, p[0], true), true)) {
			return true
		}
	}
	return false
}

func (k K) onlyFirstCoinbase(ids *Term) bool {
	n := mkLen(ids)
	cb := func(i *Term) *Term { return F(inv("GetTx", mkElem(ids, i)), "IsCoinbase") }
	rest := k.forall(n, func(k K, i *Term) bool {
		nz, ok := k.with(mkNot(mkEq(i, mkInt(0))))
		return !ok || nz.has(mkNot(cb(i)))
	}) || k.forall(mkSub(n, mkInt(1), false), func(k K, i *Term) bool { return k.has(mkNot(cb(mkAdd(i, mkInt(1))))) })
	first := k.has(cb(mkInt(0))) || k.forall(n, func(k K, i *Term) bool {
		z, ok := k.with(mkEq(i, mkInt(0)))
		return !ok || z.has(cb(i)) || z.has(cb(mkInt(0)))
	})
	return rest && first
}
