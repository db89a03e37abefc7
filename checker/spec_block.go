package main

import (
	"go/token"
	"go/types"
	"strings"
)

var (
	tU64 = types.Typ[types.Uint64]
	tInt = types.Typ[types.Int]
)

func (k K) op(o token.Token, a, b *Term, t types.Type) *Term { return k.in.binop(k.st, o, a, b, t) }

// ancestor gives the ways the block `hops` above `from` can be named.
func (k K) isAncestor(t, from, hops *Term) bool {
	if k.has(mkEq(hops, mkInt(0))) {
		return k.same(t, from)
	}
	anc := inv("GetBlockAncestors", from, hops)
	return k.same(t, mkElem(anc, mkSub(mkLen(anc), mkInt(1), false))) || t == inv("GetBlockSpecificAncestor", from, hops) ||
		k.has(mkEq(from, tZero)) && k.same(t, from)
}

// medianRule: the block's time is above the median time of up to five blocks before it.
func (k K) medianRule(b *Term) bool {
	mt := F(b, "MinedTime")
	for f := range k.st.facts {
		if f.Op == "lt" && f.Args[1] == mt && k.isMedian(f.Args[0], b) {
			return true
		}
	}
	return false
}

// isMedian: m is the median time of up to five blocks before b.
func (k K) isMedian(m, b *Term) bool {
	prev := F(b, "PrevBlockId")
	anc := inv("GetBlockAncestors", prev, mkInt(4))
	var s *Term
	anyTerm(m, func(t *Term) bool {
		if t.Op == "sorted" {
			s = t
		}
		return s != nil
	})
	if s == nil || !ascending(s) {
		return false
	}
	mined := func(id *Term) *Term { return F(inv("GetBlock", id), "MinedTime") }
	j, j1 := mk("idx", "med"), mkAdd(mk("idx", "med"), mkInt(1))
	from := func(old *Term) bool {
		each := func(x *Term) bool {
			return mkElem(x, j) == mined(mkElem(mkConcat(mkList(prev), old), j)) || mkElem(x, mkInt(0)) == mined(prev) && mkElem(x, j1) == mined(mkElem(old, j))
		}
		return each(s.Args[0])
	}
	// only the last of the ids reached can be zero
	kept := mkBinder("filt", j, anc, mk("conj", "", mkNot(mkEq(mkElem(anc, j), tZero))))
	n := mkLen(s)
	switch {
	case from(kept):
		if !k.same(n, mkAdd(mkLen(kept), mkInt(1))) {
			return false
		}
	case from(anc):
		ok := false
		for _, at := range k.zeroAt(anc) {
			ok = ok || k.same(n, mkAdd(at, mkInt(1)))
		}
		if !ok && !(k.same(n, mkAdd(mkLen(anc), mkInt(1))) && k.noneZero(anc, prev)) {
			return false
		}
	default:
		return false
	}
	two := mkInt(2)
	half := k.op(token.QUO, n, two, tInt)
	odd := mkNot(mkEq(k.op(token.REM, n, two, tInt), mkInt(0)))
	one := mkEq(k.op(token.REM, n, two, tInt), mkInt(1))
	if k.has(odd) || k.has(one) {
		return m == mkElem(s, half) || m == mkElem(s, k.op(token.QUO, mkSub(n, mkInt(1), false), two, tInt)) || k.sameHalf(m, s, n)
	}
	return (k.has(mkNot(odd)) || k.has(mkNot(one))) && (m == k.op(token.QUO, mkAdd(mkElem(s, mkSub(half, mkInt(1), false)), mkElem(s, half)), two, tU64) || m == mkElem(s, half))
}

// zeroAt gives the places where the ids reached are known to be zero.
func (k K) zeroAt(anc *Term) []*Term {
	var out []*Term
	n := mkLen(anc)
	for f := range k.st.facts {
		for i := 0; f.Op == "eq" && i < 2; i++ {
			e := f.Args[i]
			if f.Args[1-i] != tZero || e.Op != "elem" {
				continue
			}
			if e.Args[0] == anc {
				out = append(out, e.Args[1])
			} else if l := e.Args[0]; l.Op == "concat" && l.Args[len(l.Args)-1] == anc && e.Args[1] == mkSub(mkLen(l), mkInt(1), false) {
				out = append(out, mkSub(n, mkInt(1), false))
			}
		}
	}
	return out
}

// noneZero: the last of the ids reached is not zero, so none is.
func (k K) noneZero(anc, prev *Term) bool {
	n := mkLen(anc)
	L := mkConcat(mkList(prev), anc)
	return k.has(mkNot(mkEq(mkElem(anc, mkSub(n, mkInt(1), false)), tZero))) || k.has(mkNot(mkEq(mkElem(L, n), tZero))) ||
		k.forall(n, func(k K, i *Term) bool { return k.has(mkNot(mkEq(mkElem(anc, i), tZero))) })
}

// isPeriodStart: t is the time of the first block of the period b is the last of.
func (k K) isPeriodStart(t, b, h, per *Term) bool {
	if t.Op != "field" && t.Op != "fld" && !strings.HasSuffix(t.String(), ".MinedTime") {
		return false
	}
	if len(t.Args) == 0 || !isCall(t.Args[0], "inv.Inv.GetBlock") {
		return false
	}
	id := t.Args[0].Args[0]
	prev := F(b, "PrevBlockId")
	firstPeriod := mkEq(mkAdd(h, mkInt(1)), per)
	return k.has(firstPeriod) && k.isAncestor(id, prev, mkSub(per, mkInt(3), true)) ||
		k.has(mkNot(firstPeriod)) && k.isAncestor(id, prev, mkSub(per, mkInt(2), true))
}

// sameHalf: n is odd and m is s at (n-1)/2 written over n-1.
func (k K) sameHalf(m, s, n *Term) bool {
	return m.Op == "elem" && m.Args[0] == s && m.Args[1].String() == k.op(token.QUO, mkSub(n, mkInt(1), false), mkInt(2), tInt).String()
}

// ascending: the order used to sort is the natural one.
func ascending(s *Term) bool {
	if len(s.Args) < 2 {
		return true
	}
	l := s.Args[1]
	if l.Op != "lt" || len(l.Args) != 2 {
		return false
	}
	a, b := l.Args[0], l.Args[1]
	i, j := sortIdx(a, "#i"), sortIdx(b, "#j")
	return i != nil && j != nil && a == mkElem(s.Args[0], i) && b == mkElem(s.Args[0], j)
}

func sortIdx(t *Term, name string) *Term {
	var r *Term
	anyTerm(t, func(x *Term) bool {
		if x.String() == name {
			r = x
		}
		return r != nil
	})
	return r
}

func mkHLt(a, b *Term) *Term { return mkHashLt(a, b) }

// recordOf: a stored block is recorded with its height and the work of its chain.
func (c *Ctx) recordOf(s storeSink) {
	b := F(s.rec, "Block")
	if isOrigin(s) {
		ok := s.root.Name() == "NewInv" && F(s.rec, "Height") == mkInt(0) || s.root.Name() == "NewInv" && F(s.rec, "Height") == tZero
		c.at(s, "origin", "the origin block has height zero and no work", ok && F(s.rec, "TotalWork") == tZero)
		return
	}
	prev := F(b, "PrevBlockId")
	c.at(s, "record", "recorded height is the parent's plus one", s.k.same(F(s.rec, "Height"), mkAdd(inv("GetBlockHeight", prev), mkInt(1))))
	c.at(s, "record", "recorded work is the parent's plus this block's", s.k.same(F(s.rec, "TotalWork"), callTerm("core.HashT.WorkAppendTarget", inv("GetBlockTotalWork", prev), F(b, "Target"))))
}

// records: heights and work are recorded right and read back as recorded, work counts what a
// target is worth.
func (c *Ctx) records() {
	for _, s := range c.stores("BlockRecord") {
		c.recordOf(s)
	}
	c.atLeast("record", 1)
	c.contractTargets()
	c.contractHashLt()
	c.contractHashEq()
	c.contractSyncMap()
	c.contractInvReads("HasBlock", "GetBlock", "GetBlockHeight", "GetBlockTotalWork", "GetBlockParentId")
}

// sizes: what is recorded as the size of a transaction or tree node is its size, within the limit.
func (c *Ctx) sizes() {
	P := invParams()
	for _, s := range c.stores("MerkleRecord") {
		k := s.k
		n := F(s.rec, "Merkle")
		l, r := F(n, "LChild"), F(n, "RChild")
		size := func(x *Term) []*Term {
			var out []*Term
			if k.has(inv("HasMerkle", x)) {
				out = append(out, inv("GetMerkleVSize", x))
			}
			if k.has(inv("HasTx", x)) {
				out = append(out, inv("GetTxVSize", x))
			}
			return out
		}
		same := k.has(mkEq(l, r))
		diff := k.has(mkNot(mkEq(l, r)))
		okSize, okLimit := false, false
		for _, a := range size(l) {
			tot := []*Term{a}
			if !same {
				tot = nil
				if diff {
					for _, b := range size(r) {
						tot = append(tot, mkAdd(a, b))
					}
				}
			}
			for _, t := range tot {
				if k.same(F(s.rec, "VSize"), t) {
					okSize = true
					if k.has(mkNot(mkLt(F(P, "MaxBlockVSize"), t, true))) {
						okLimit = true
					}
				}
			}
		}
		c.at(s, "size", "the recorded size is the sum of the distinct children's sizes", okSize)
		c.at(s, "size", "the recorded size is within the block limit", okLimit)
	}
	for _, s := range c.stores("TxRecord") {
		tx := F(s.rec, "Tx")
		sz := callTerm("core.Tx.VSize", tx)
		c.at(s, "tx-size", "the recorded size is the transaction's size", s.k.same(F(s.rec, "VSize"), sz))
		c.at(s, "tx-size", "the size is within the transaction limit", s.k.has(mkNot(mkLt(F(P, "MaxTxVSize"), sz, true))))
	}
	c.atLeast("size", 2)
	c.atLeast("tx-size", 2)
	tx := mkSym("tx")
	c.contract("tx-size", "pkg/core.Tx.VSize", "counts every variable-length part of every input and output", runOpt{args: []*Term{tx}},
		func(r *runRes, k K, v []*Term) bool {
			ins, outs := F(tx, "Inputs"), F(tx, "Outputs")
			l := toLin(v[0])
			has := func(t *Term, min int64) bool { return l.coef[t] >= min }
			j := mk("idx", "sum")
			sum := func(f string) *Term {
				return mkBinder("sum", j, mkLen(ins), mkLen(F(mkElem(ins, j), f)))
			}
			return has(mkLen(ins), 1) && has(mkLen(outs), 1) && has(sum("PublicKey"), 1) && has(sum("Signature"), 1)
		})
	c.contractInvReads("HasEntity", "GetEntityVSize", "GetMerkleVSize", "GetTxVSize", "HasMerkle", "HasTx")
}

func init() {
	register("C04",
		"at every store of a block other than the origin, each acceptance rule is established on every path; the recorded height and work are the parent's plus this block; the contracts of hash order, work, target limits and ancestor lookup are checked on their bodies",
		nil, func(c *Ctx) {
			P := invParams()
			for _, s := range c.stores("BlockRecord") {
				if isOrigin(s) {
					c.recordOf(s)
					continue
				}
				k := s.k
				b := F(s.rec, "Block")
				prev, root, mt, tgt := F(b, "PrevBlockId"), F(b, "MerkleRoot"), F(b, "MinedTime"), F(b, "Target")
				h := mkAdd(inv("GetBlockHeight", prev), mkInt(1))
				ids := inv("GetMerkleTxIds", root)
				c.at(s, "work", "the block's id is below its target", k.has(mkHLt(callTerm("core.Block.Hash", b), tgt)))
				c.at(s, "parent", "the parent block is known", k.has(inv("HasBlock", prev)))
				c.at(s, "contents", "the block's merkle root is known", k.has(inv("HasMerkle", root)))
				c.at(s, "contents", "the block has at least one transaction", k.has(mkNot(mkEq(mkLen(ids), mkInt(0)))))
				c.at(s, "contents", "the block's size is within the limit", k.has(mkNot(mkLt(F(P, "MaxBlockVSize"), inv("GetMerkleVSize", root), true))))
				c.at(s, "contents", "the coinbase names this block's height", k.has(mkEq(F(inv("GetTx", mkElem(ids, mkInt(0))), "MinBlock"), h)))
				c.at(s, "contents", "the first transaction, and no other, is a coinbase", k.onlyFirstCoinbase(ids))
				first := mkEq(prev, tZero)
				c.at(s, "time", "mined after the median of the five blocks before it", k.has(first) || k.medianRule(b))
				now := mkAdd(callTerm("time.Time.Unix", mkSym("Now")), mkInt(3600))
				c.at(s, "time", "mined no more than an hour ahead of the local clock", k.has(mkNot(mkLt(now, mt, true))) || k.has(mkLt(mt, now, true)))
				// period rules
				per := F(P, "DifficultyPeriod")
				lastIn := mkEq(k.op(token.REM, mkAdd(h, mkInt(1)), per, tU64), mkInt(0))
				okLast := k.has(mkNot(lastIn)) || k.has(first) // periods are longer than two blocks
				if !okLast {
					for f := range k.st.facts {
						if f.Op == "lt" && f.Args[1] == mt && k.isPeriodStart(f.Args[0], b, h, per) {
							okLast = true
						}
					}
				}
				c.at(s, "time", "the last block of a period is mined after the period's first", okLast)
				pt := F(inv("GetBlock", prev), "Target")
				adj := mkEq(k.op(token.REM, h, per, tU64), mkInt(0))
				switch {
				case k.has(first):
					c.at(s, "target", "the first block has the network's original target", k.has(mkEq(tgt, F(P, "OriginalTarget"))))
				case k.has(mkNot(first)) && k.has(mkNot(adj)):
					c.at(s, "target", "inside a period the target is the parent's", k.has(mkEq(tgt, pt)))
				case k.has(mkNot(first)) && k.has(adj):
					c.at(s, "target", "a new period's target is at least a quarter of the last", k.has(mkNot(mkHLt(tgt, callTerm("core.HashT.MinNextTarget", pt)))))
					c.at(s, "target", "a new period's target is at most four times the last", k.has(mkNot(mkHLt(callTerm("core.HashT.MaxNextTarget", pt, P), tgt))))
				default:
					c.at(s, "target", "the block's place in its period is decided", false)
				}
				c.recordOf(s)
			}
			for _, r := range []string{"work", "parent", "contents", "time", "target", "record", "origin"} {
				c.atLeast(r, 1)
			}
			c.contractVerifier()
			c.contractInvReads("HasBlock", "GetBlock", "GetBlockHeight", "GetBlockTotalWork", "HasMerkle", "GetMerkleVSize", "GetMerkleTxs", "GetMerkleTxIds", "GetBlockAncestors", "GetBlockSpecificAncestor", "GetTx")
			c.contractHashEq()
			c.contractHashLt()
			c.contractTargets()
			c.contractSyncMap()
			c.contractSet()
			c.sizes()
			if r, st, b := c.runAdvance(); r != nil {
				ids := idsOf(b)
				h, hd := inv("GetBlockHeight", b), mkAdd(inv("GetBlockHeight", F(st, "head")), mkInt(1))
				c.onSuccess(r, "apply-age", "no transaction of an applied block names a later minimum block", func(k K) bool {
					return k.forall(mkLen(ids), func(k K, i *Term) bool {
						m := F(inv("GetTx", mkElem(ids, i)), "MinBlock")
						return k.has(mkNot(mkLt(h, m, true))) || k.has(mkNot(mkLt(hd, m, true)))
					})
				})
			}
		})

	register("C05",
		"at every store of a merkle node: both children are known, differing children share no transaction, the combined size is within the limit and is what is recorded; at every store of a transaction its size is within the limit and is what is recorded",
		nil, func(c *Ctx) {
			for _, s := range c.stores("MerkleRecord") {
				k := s.k
				n := F(s.rec, "Merkle")
				l, r := F(n, "LChild"), F(n, "RChild")
				known := func(x *Term) bool {
					return k.has(inv("HasMerkle", x)) || k.has(inv("HasTx", x)) || k.has(mk("or", "", inv("HasMerkle", x), inv("HasTx", x)))
				}
				same := k.has(mkEq(l, r))
				c.at(s, "children", "the left child is known", known(l))
				c.at(s, "children", "the right child is known", same || known(r))
				c.at(s, "disjoint", "children that differ share no transaction", same || k.disjoint(inv("GetMerkleTxIds", l), inv("GetMerkleTxIds", r)))
			}
			c.sizes()
			for _, s := range c.stores("TxRecord") {
				c.spendExists(s)
			}
			for _, s := range c.stores("BlockRecord") {
				b := F(s.rec, "Block")
				if !isOrigin(s) {
					c.at(s, "parent", "the parent block is known", s.k.has(inv("HasBlock", F(b, "PrevBlockId"))))
					c.at(s, "contents", "the block's merkle root is known", s.k.has(inv("HasMerkle", F(b, "MerkleRoot"))))
				}
			}
			c.atLeast("children", 2)
			c.atLeast("disjoint", 1)
			c.atLeast("parent", 1)
			c.contractVerifier()
			c.contractInvReads("HasEntity", "GetEntityVSize", "GetMerkleVSize", "GetTxVSize", "HasMerkle", "HasTx", "HasTxOut", "HasBlock", "GetMerkleTxIds", "GetMerkle")
			c.contractSyncMap()
			c.contractHashEq()
			c.contractSet()
			c.contractUtil()
			c.contractMerkleTree()
		})

	register("C08",
		"every store files an entity under the hash of that same entity; each entity hash covers the listed fields (each field of the struct must reach the hash; fields a hash leaves out are reported); list and scalar hashing is injective in length and position",
		nil, func(c *Ctx) {
			for _, q := range []struct{ rec, f, h string }{{"TxRecord", "Tx", "core.Tx.Hash"}, {"MerkleRecord", "Merkle", "core.MerkleNode.Hash"}, {"BlockRecord", "Block", "core.Block.Hash"}} {
				for _, s := range c.stores(q.rec) {
					if q.rec == "BlockRecord" && isOrigin(s) && s.root.Name() == "NewInv" {
						continue
					}
					c.at(s, "own-id", "filed under its own hash", s.k.same(s.key, callTerm(q.h, F(s.rec, q.f))))
					has := map[string]string{"TxRecord": "HasTx", "MerkleRecord": "HasMerkle", "BlockRecord": "HasBlock"}[q.rec]
					c.at(s, "no-overwrite", "nothing already stored is replaced", s.k.has(mkNot(inv(has, s.key))))
				}
			}
			c.atLeast("own-id", 3)
			// what each id covers
			for _, q := range []string{"Tx", "TxIn", "TxOut", "Utxo", "Block", "MerkleNode"} {
				c.hashCovers(q)
			}
			c.contractHashing()
			c.contractDHash()
			c.contractHashEq()
			c.contractSyncMap()
		})

	register("C09",
		"the value signed and verified is computed from the transaction's minimum block and outputs by a hash that covers every field of every output; fields it leaves out are reported; the same computation is used by the signer",
		nil, func(c *Ctx) {
			mb, outs := mkSym("minBlock"), mkSym("outputs")
			c.contract("signed-content", "pkg/core.TxHashPreSig", "covers the minimum block and every output", runOpt{args: []*Term{mb, outs}},
				func(r *runRes, k K, v []*Term) bool {
					t := v[0]
					return isCall(t, "core.DHashVarious") && t.Args[0].Op == "list" && containsArg(t.Args[0], mb) && containsArg(t.Args[0], callTerm("core.DHashList", outs))
				})
			// does the signed value depend on what is being spent?
			f := c.p.fn("pkg/core.TxHashPreSig")
			covers := false
			if f != nil {
				for i := 0; i < f.Signature.Params().Len(); i++ {
					t := typeStr(f.Signature.Params().At(i).Type())
					if strings.Contains(t, "TxIn") || strings.Contains(t, "Utxo") || strings.HasSuffix(t, "core.Tx") {
						covers = true
					}
				}
				c.ob("signed-content", "core.TxHashPreSig: covers the outputs being spent", covers, f.Pos(), "the signature does not commit to the inputs: a signature made for one spend is valid for any other spend by the same key with the same outputs and minimum block")
			}
			for _, q := range []string{"TxOut"} {
				c.hashCovers(q)
			}
			c.contractHashing()
			c.contractDHash()
			c.contractEcdsa()
			c.signers()
		})
}

func containsArg(l, x *Term) bool {
	for _, a := range l.Args {
		if a == x {
			return true
		}
	}
	return false
}

// disjoint: two lists certainly share no element.
func (k K) disjoint(a, b *Term) bool {
	if k.has(mkNot(mkInter(a, b))) || k.has(mkNot(mkInter(b, a))) {
		return true
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if k.forall(mkLen(p[0]), func(k K, i *Term) bool { return k.has(mkNot(mkIn(mkElem(p[0], i), p[1]))) }) {
			return true
		}
	}
	return false
}
