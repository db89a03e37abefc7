package main

// Transactions the wallet makes: what they spend, whom they pay, and when they are sent.

import (
	"fmt"
	"go/token"
	"strconv"
	"strings"
)

// bulk is a part of a list with one element per position of a domain.
type bulk struct {
	dom  *Term
	elem func(i *Term) *Term
}

// listParts takes a list apart into single elements and images of a domain, in no order. ok is
// false when some of it cannot be followed.
func listParts(t *Term) (singles []*Term, bulks []bulk, ok bool) {
	switch t.Op {
	case "nil", "zero":
		return nil, nil, true
	case "list":
		return t.Args, nil, true
	case "sorted", "reverse":
		return listParts(t.Args[0])
	case "concat":
		for _, a := range t.Args {
			s, b, ok := listParts(a)
			if !ok {
				return nil, nil, false
			}
			singles, bulks = append(singles, s...), append(bulks, b...)
		}
		return singles, bulks, true
	case "map":
		if t.Args[0].Op == "rng" || t.Args[0].Op == "keys" {
			return nil, nil, false
		}
		return nil, []bulk{{t.Args[0], func(i *Term) *Term { return mkElem(t, i) }}}, true
	}
	set := map[int64]*Term{}
	peel := func(x *Term) *Term {
		for x.Op == "upd" {
			n, isC := isInt(x.Args[1])
			if !isC {
				return nil
			}
			if set[n] == nil {
				set[n] = x.Args[2]
			}
			x = x.Args[0]
		}
		return x
	}
	f := peel(t)
	if f == nil || f.Op != "fill" || f.Args[0].Op == "keys" {
		return nil, nil, false
	}
	v := binderVar(f)
	c, isC := isInt(mkSub(f.Args[1], v, false))
	n, isN := isInt(mkSub(mkLen(f), domLen(f.Args[0]), false))
	if !isC || !isN || c != n || c < 0 || c > 8 {
		return nil, nil, false
	}
	base := peel(f.Args[3])
	if base == nil {
		return nil, nil, false
	}
	for i := range set {
		if i < 0 || i >= c {
			return nil, nil, false
		}
	}
	for i := int64(0); i < c; i++ {
		x := set[i]
		if x == nil {
			x = mkElem(base, mkInt(i))
		}
		singles = append(singles, x)
	}
	return singles, []bulk{{f.Args[0], func(i *Term) *Term { return subst(f.Args[2], v, i) }}}, true
}

// payment is what a transaction has to be.
type payment struct {
	keys     func(t *Term) bool // one of the user's private keys
	utxos    *Term              // the user's coins, by coin
	dests    *Term              // amounts by address; nil: everything stays with the user
	minBlock *Term
	rate     *Term // nil: any constant above zero
	maxSize  *Term
}

// keyTable: a table from addresses to private keys, made of the user's keys.
func (p payment) keyTable(m *Term) bool {
	if m.Op != "mapof" || m.Args[3].Op != "emptymap" {
		return false
	}
	return p.keys(m.Args[2]) && m.Args[1] == pkhOf(m.Args[2])
}

func pkhOf(priv *Term) *Term {
	return callTerm("core.DHashBytes", pubOf(priv))
}

func pubOf(priv *Term) *Term { return mk("res", "0", callTerm("core.MarshalEcdsaPublic", priv)) }

// ownPkh: certainly an address of one of the user's keys.
func (k K) ownPkh(p payment, t *Term, d int) bool {
	if isCall(t, "core.DHashBytes") && t.Args[0].Op == "res" && isCall(t.Args[0].Args[0], "core.MarshalEcdsaPublic") {
		return p.keys(t.Args[0].Args[0].Args[0])
	}
	for f := range k.st.facts {
		if f.Op == "has" && f.Args[1] == t && p.keyTable(f.Args[0]) {
			return true
		}
	}
	if d > 4 {
		return false
	}
	if rec, j := k.in.lvFind(t); rec != nil {
		// chosen among the user's addresses
		l := rec.lvs[j]
		ok := k.ownPkh(p, l.init, d+1)
		for _, s := range l.steps {
			n := K{k.in, &State{s.facts, s.mem}}
			ok = ok && (s.next == l.lv || n.ownPkh(p, s.next, d+1))
		}
		return ok
	}
	if t.Op != "elem" {
		return false
	}
	l := t.Args[0]
	for l.Op == "sorted" || l.Op == "reverse" {
		l = l.Args[0]
	}
	if l.Op != "keys" {
		return false
	}
	m := l.Args[0]
	if p.keyTable(m) {
		return true
	}
	// a table filled under the user's addresses only
	rec, j := k.in.lvFind(m)
	if rec == nil || rec.lvs[j].init.Op != "emptymap" {
		return false
	}
	for _, s := range rec.lvs[j].steps {
		n := K{k.in, &State{s.facts, s.mem}}
		if s.next == rec.lvs[j].lv {
			continue
		}
		if s.next.Op != "mapput" || s.next.Args[0] != rec.lvs[j].lv || !n.ownPkh(p, s.next.Args[1], d+1) {
			return false
		}
	}
	return true
}

// upToLast adds what is known about the last time around of each loop over n.
func (k K) upToLast(n *Term) K {
	last := mkAdd(n, mkInt(-1))
	out := k
	for f := range k.st.facts {
		if f.Op != "all" || len(f.Args) != 2 || f.Args[0] != n {
			continue
		}
		var fs []*Term
		for _, g := range conjuncts(f.Args[1]) {
			if h := subst(g, binderVar(f), last); h.Op != "bool" {
				fs = append(fs, h)
			}
		}
		if m, ok := out.with(fs...); ok {
			out = m
		}
	}
	return out
}

// feeTerm gives the fee of a transaction of some size at a rate.
func (c *Ctx) feeTerm(tx, rate *Term) *Term {
	r := c.run("pkg/core.Tx.FeeFromRate", runOpt{args: []*Term{tx, rate}, inline: []string{"core.Tx.VSize"}, key: "fee"})
	if r == nil {
		return nil
	}
	var v *Term
	for _, o := range r.outs {
		if o.kind != "ret" {
			continue
		}
		x := r.in.resolve(o.st, o.vals[0])
		if v != nil && v != x {
			return nil
		}
		v = x
	}
	return v
}

const (
	pubSize = 91 // a P-256 public key in DER
	sigSize = 72 // the longest ECDSA P-256 signature in ASN.1
)

// largest is a transaction like the given one with signatures as long as they get.
func largest(tx *Term) *Term {
	ins := F(tx, "Inputs")
	i := mk("idx", "largest")
	pub := mk("bytes", "", mkStr(strings.Repeat("k", pubSize)))
	sig := mk("bytes", "", mkStr(strings.Repeat("s", sigSize)))
	e := mkStruct("TxIn", []string{"PublicKey", "Signature", "Utxo"}, []*Term{pub, sig, F(mkElem(ins, i), "Utxo")})
	return mkStruct("Tx", []string{"IsCoinbase", "MinBlock", "Inputs", "Outputs"}, []*Term{tFalse, F(tx, "MinBlock"), mkBinder("map", i, mkLen(ins), e), F(tx, "Outputs")})
}

// judgePayment decides whether a transaction is what it has to be, and gives its change.
func (c *Ctx) judgePayment(where string, k K, tx *Term, p payment, pos token.Pos) (change *Term) {
	ob := func(rule, what string, ok bool, format string, args ...any) bool {
		return c.ob(rule, where+": "+what, ok, pos, "%s%s", clip(fmt.Sprintf(format, args...), 900), ifBad(ok, describeFacts(k.st.facts)))
	}
	ins, outs := F(tx, "Inputs"), F(tx, "Outputs")
	ob("form", "not a coinbase", isFalse(F(tx, "IsCoinbase")), "IsCoinbase is %s", F(tx, "IsCoinbase"))
	ob("form", "valid from the height it was made at", k.same(F(tx, "MinBlock"), p.minBlock), "MinBlock is %s", F(tx, "MinBlock"))
	// what it spends
	_, ib, ok := listParts(ins)
	is, _, _ := listParts(ins)
	if !ob("spends", "what it spends can be followed", ok && len(is) == 0 && len(ib) == 1, "the inputs are %s", ins) {
		return nil
	}
	n := ib[0].dom
	hash := callTerm("core.TxHashPreSig", F(tx, "MinBlock"), outs)
	var from *Term
	good := k.forall(n, func(k K, i *Term) bool {
		u := F(ib[0].elem(i), "Utxo")
		if u.Op != "elem" || u.Args[1] != i && !occursIn(u.Args[1], i) {
			return false
		}
		if _, isC := isInt(mkSub(u.Args[1], i, false)); !isC || from != nil && from != u.Args[0] {
			return false
		}
		from = u.Args[0]
		return permOf(from, mkKeys(p.utxos))
	})
	ob("spends", "it spends coins of the user's, each once", good, "the inputs are %s; the user's coins are %s", ins, p.utxos)
	// there is a key for the address of every coin
	held := func(k K, keys *Term) bool {
		return k.each(mkKeys(p.utxos), func(k K, _, u *Term) bool { return k.has(mkHas(keys, mkLookup(p.utxos, u))) })
	}
	good = k.forall(n, func(k K, i *Term) bool {
		e := ib[0].elem(i)
		pub, sig := F(e, "PublicKey"), F(e, "Signature")
		if pub.Op != "res" || !isCall(pub.Args[0], "core.MarshalEcdsaPublic") || sig.Op != "res" || !isCall(sig.Args[0], "core.EcdsaSign") {
			return false
		}
		priv := pub.Args[0].Args[0]
		if sig.Args[0].Args[0] != priv || sig.Args[0].Args[1] != hash {
			return false
		}
		for _, x := range []*Term{pub, sig} {
			if !k.has(mkEq(mk("res", "1", x.Args[0]), tNil)) {
				return false
			}
		}
		// the key is that of the coin's address
		if priv.Op != "lookup" && priv.Op != "elem" || len(priv.Args) != 2 || !p.keyTable(priv.Args[0]) {
			return false
		}
		return k.same(priv.Args[1], mkLookup(p.utxos, F(e, "Utxo"))) && (k.has(mkHas(priv.Args[0], priv.Args[1])) || held(k, priv.Args[0]))
	})
	ob("signed", "each input is signed with the key of its coin's address, over the outputs as sent", good, "the inputs are %s; they should sign %s", ins, hash)
	// whom it pays
	os, obk, ok := listParts(outs)
	want := 0
	if p.dests != nil {
		want = 1
	}
	if !ob("pays", "whom it pays can be followed", ok && len(os) == 1 && len(obk) == want, "the outputs are %s", outs) {
		return nil
	}
	change = F(os[0], "Value")
	ob("pays", "the rest goes to an address of the user's", k.ownPkh(p, F(os[0], "PublicKeyHash"), 0), "it goes to %s", F(os[0], "PublicKeyHash"))
	paid := mkInt(0)
	if p.dests != nil {
		b := obk[0]
		var order *Term
		good := k.forall(b.dom, func(k K, i *Term) bool {
			e := b.elem(i)
			to := F(e, "PublicKeyHash")
			if to.Op != "elem" || to.Args[1] != i || !permOf(to.Args[0], mkKeys(p.dests)) || order != nil && order != to.Args[0] {
				return false
			}
			order = to.Args[0]
			return k.same(F(e, "Value"), mkLookup(p.dests, to))
		})
		good = good && order != nil && k.same(b.dom, mkLen(order))
		ob("pays", "each address given gets exactly its amount", good, "the outputs are %s; the amounts are %s", outs, p.dests)
		i := mk("idx", "paid")
		vals := mkBinder("map", i, b.dom, b.elem(i))
		paid = sumOf(vals, "Value")
		ob("sum", "adding up the amounts cannot wrap", k.noOverflow(vals, "Value"), "of %s", p.dests)
	}
	in := sumOf(ins, "Utxo", "Value")
	fee := mkSub(mkSub(in, paid, true), change, true)
	var exp *Term
	good = false
	{
		rates := []*Term{p.rate}
		if p.rate == nil {
			rates = nil
			anyTermMemo(fee, func(x *Term) bool {
				if x.Op == "flt" {
					if f, err := strconv.ParseFloat(x.Aux, 64); err == nil && f > 0 {
						rates = append(rates, x)
					}
				}
				return false
			})
		}
		for _, r := range rates {
			exp = c.feeTerm(largest(tx), r)
			if !good && exp != nil && k.same(fee, exp) {
				good, fee = true, exp
			}
		}
	}
	ob("fee", "the rest is all it spends, less what it pays and a fee for its full size", good, "inputs less outputs is %s; the fee for its full size is %s", fee, exp)
	good = k.has(mkNot(mkLt(in, mkAdd(paid, fee), true))) || k.has(mkLt(fee, in, true)) && paid == mkInt(0)
	ob("covered", "what it spends covers what it pays and the fee", good, "spends %s", in)
	size := mkAdd(mkInt(72), mkAdd(mkMul(mkInt(40), mkLen(outs)), mkMul(mkInt(48+pubSize+sigSize), n)))
	fits := func(k K, size *Term) bool { return k.has(mkNot(mkLt(p.maxSize, size, true))) }
	good = fits(k, size)
	if !good {
		if none, ok := k.with(mkEq(n, mkInt(0))); ok {
			good = fits(none, subst(size, n, mkInt(0)))
			for f := range k.st.facts {
				good = good || subst(f, n, mkInt(0)) == tFalse
			}
		} else {
			good = true
		}
		if some, ok := k.with(mkNot(mkEq(n, mkInt(0)))); ok && good {
			good = fits(some.upToLast(n), size)
		}
	}
	ob("size", "its full size is within the limit", good, "its size is at most %s; the limit is %s", size, p.maxSize)
	return change
}

// askedAmounts: a table from the addresses to the amounts named on the command line.
func (c *Ctx) askedAmounts(k K, d *Term, pos token.Pos) {
	args := F(walletCtx, "Args")
	rec, j := k.in.lvFind(d)
	ok := rec != nil && rec.lvs[j].init.Op == "emptymap" && rec.dom == mkLen(args) && d.Args[0] == mkLen(args)
	why := fmt.Sprint(d)
	if ok {
		l := rec.lvs[j]
		ok = len(l.steps) > 0
		arg := mkElem(args, rec.idx)
		for _, s := range l.steps {
			n := K{k.in, &State{s.facts, s.mem}}
			x := k.in.resolve(n.st, s.next)
			why = "becomes " + clip(x.String(), 600)
			if x.Op != "mapput" || x.Args[0] != l.lv {
				ok = false
				break
			}
			v := mkSub(x.Args[2], mkLookup(l.lv, x.Args[1]), true)
			good := n.parsed(x.Args[1], "core.NewHashTFromString", arg, 0) && n.parsed(v, "strconv.ParseUint", arg, 1)
			if good && v.Args[0].Args[1] != mkInt(10) {
				good = false
			}
			good = good && (n.has(mkNot(mk("ovf", "", x.Args[2]))) || n.noOvf(v, mkLookup(l.lv, x.Args[1])))
			ok = ok && good
			if !good {
				why += describeFacts(s.facts)
			}
		}
	}
	c.ob("asked", "command send: the amounts are those named, added up by address", ok, pos, "%s", why)
}

// parsed: the value the given half of a 'left:right' text was certainly parsed to.
func (k K) parsed(t *Term, by string, arg *Term, half int) bool {
	if t.Op != "res" || t.Aux != "0" || !isCall(t.Args[0], by) || !k.has(mkEq(mk("res", "1", t.Args[0]), tNil)) {
		return false
	}
	x := t.Args[0].Args[0]
	if x.Op == "elem" && (isCall(x.Args[0], "strings.Split") || isCall(x.Args[0], "strings.SplitN")) {
		s := x.Args[0]
		return s.Args[0] == arg && s.Args[1] == mkStr(":") && x.Args[1] == mkInt(int64(half)) && k.has(mkEq(mkLen(s), mkInt(2)))
	}
	if x.Op == "res" && isCall(x.Args[0], "strings.Cut") {
		s := x.Args[0]
		return s.Args[0] == arg && s.Args[1] == mkStr(":") && x.Aux == strconv.Itoa(half) && k.has(mk("res", "2", s))
	}
	return false
}

// payments: what the wallet sends.
func (c *Ctx) payments() {
	w := newWire(c)
	over := c.walletOver(w)
	client := "client.WalletClient."
	for _, n := range []string{"GetHeadHeight", "GetManyUtxos", "PostTx"} {
		over[client+n] = func(cc *callCtx) []callRes { return cc.opaque() }
	}
	inline := []string{"core.Tx.VSize", "core.Tx.FeeFromRate", "core.ProdNetParams", "core.DevNetParams", "core.ExamplePubDer", "core.ExampleMaxSigAsn"}
	sent := map[string]int{}
	for _, q := range c.walletCommands() {
		r := c.runCommandIn(q, over, inline)
		if !c.need("command "+q.name, r != nil) {
			continue
		}
		where := "command " + q.name
		for _, s := range r.in.sinks {
			if s.kind == "call" && s.name == "http.Post" {
				c.ob("confirmed", where+": a transaction is sent by the client's method for it only", false, s.pos, "it is posted directly")
			}
			if s.name != client+"PostTx" {
				continue
			}
			k := s.k(r.in)
			sent[q.name]++
			tx := s.args[1]
			c.ob("confirmed", where+": one transaction is sent", len(s.loops) == 0 && len(dids(k, s.name)) == 0, s.pos, "%d loops, sent before: %v", len(s.loops), dids(k, s.name))
			p := payment{keys: func(t *Term) bool {
				return t.Op == "fld" && t.Aux == "PrivateKey" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == F(walletConfig(), "Keys")
			}}
			// what the node said
			for _, d := range dids(k, client+"GetManyUtxos") {
				for _, x := range r.in.sinks {
					if x.name != d.Aux || !sameTerms(x.args, d.Args) || !k.has(mkEq(mk("res", "1", x.res), tNil)) {
						continue
					}
					if occursIn(tx, mk("res", "0", x.res)) {
						p.utxos = mk("res", "0", x.res)
						own := x.args[0] == F(walletCtx, "Client") && k.forall(mkLen(x.args[1]), func(k K, i *Term) bool {
							e := mkElem(x.args[1], i)
							return e.Op == "fld" && e.Aux == "PublicKeyHash" && e.Args[0].Op == "elem" && e.Args[0].Args[0] == F(walletConfig(), "Keys")
						})
						c.ob("spends", where+": the coins are those the node knows of the user's addresses", own, x.pos, "asked for %s", x.args[1])
						c.ob("spends", where+": coins that pending transactions spend are left out", x.args[2] == tTrue, x.pos, "asked with %s", x.args[2])
					}
				}
			}
			for _, d := range dids(k, client+"GetHeadHeight") {
				for _, x := range r.in.sinks {
					if x.name == d.Aux && sameTerms(x.args, d.Args) && k.has(mkEq(mk("res", "1", x.res), tNil)) {
						p.minBlock = mk("res", "0", x.res)
					}
				}
			}
			if !c.ob("spends", where+": the coins and the height are the node's", p.utxos != nil && p.minBlock != nil, s.pos, "sends %s", clip(tx.String(), 500)) {
				continue
			}
			for _, dev := range []bool{true, false} {
				n, ok := k.with(mkEq(F(walletConfig(), "Dev"), mkBool(dev)))
				if !ok {
					continue
				}
				name := map[bool]string{true: "core.DevNetParams", false: "core.ProdNetParams"}[dev]
				p.maxSize = c.paramOf(name, "MaxTxVSize")
				if !c.need(name, p.maxSize != nil) {
					continue
				}
				p.dests = nil
				if os, _, ok := listParts(F(tx, "Outputs")); !ok || len(os) != 1 || mkLen(F(tx, "Outputs")) != mkInt(1) {
					// the addresses paid
					_, b, _ := listParts(F(tx, "Outputs"))
					for _, b := range b {
						if e := F(b.elem(mkInt(0)), "PublicKeyHash"); e.Op == "elem" {
							l := e.Args[0]
							for l.Op == "sorted" || l.Op == "reverse" {
								l = l.Args[0]
							}
							if l.Op == "keys" {
								p.dests = l.Args[0]
							}
						}
					}
				}
				change := c.judgePayment(where, n, tx, p, s.pos)
				if q.name == "send" {
					if c.ob("asked", where+": it pays the addresses named", p.dests != nil, s.pos, "the outputs are %s", clip(F(tx, "Outputs").String(), 400)) {
						c.askedAmounts(n, p.dests, s.pos)
					}
				} else {
					c.ob("asked", where+": nothing is paid to anyone else", p.dests == nil, s.pos, "the outputs are %s", clip(F(tx, "Outputs").String(), 400))
				}
				if change != nil {
					c.confirmed(where, r, n, tx, change, s.pos)
				}
			}
		}
		for _, o := range r.outs {
			if o.kind != "ret" || sent[q.name] == 0 {
				continue
			}
			k := r.k(o)
			v := r.in.resolve(o.st, o.vals[0])
			if k.has(mkNot(mkEq(v, tNil))) {
				continue
			}
			ok := false
			for _, d := range dids(k, client+"PostTx") {
				for _, x := range r.in.sinks {
					if x.name == d.Aux && sameTerms(x.args, d.Args) && (k.has(mkEq(mk("res", "1", x.res), tNil)) || v == mk("res", "1", x.res)) {
						ok = true
					}
				}
			}
			c.ob("reported", where+": reports success only when the node took the transaction", ok, o.pos, "returns %s%s", clip(v.String(), 200), ifBad(ok, r.describe(o)))
		}
	}
	for _, n := range []string{"send", "consolidate"} {
		c.ob("coverage", "command "+n, sent[n] > 0, 0, "%d places send a transaction", sent[n])
	}
	// the makers, for any wallet
	params, keys, utxos, dests, rate, minBlock := mkSym("params"), mkSym("privateKeys"), mkSym("utxoPkhs"), mkSym("dests"), mkSym("rate"), mkSym("minBlock")
	for _, m := range []struct {
		fn   string
		args []*Term
		d    *Term
	}{{"pkg/core.MakeOutboundTx", []*Term{params, keys, utxos, dests, rate, minBlock}, dests},
		{"pkg/core.MakeConsolidateTx", []*Term{params, keys, utxos, rate, minBlock}, nil}} {
		r := c.run(m.fn, runOpt{args: m.args, inline: append([]string{strings.TrimPrefix(m.fn, "pkg/")}, inline...), key: "pay"})
		if !c.need(m.fn, r != nil) {
			continue
		}
		made := 0
		for _, o := range r.outs {
			if o.kind != "ret" {
				continue
			}
			k := r.k(o)
			if k.has(mkNot(mkEq(r.in.resolve(o.st, o.vals[1]), tNil))) {
				continue
			}
			made++
			tx := r.in.resolve(o.st, o.vals[0])
			if tx.Op == "obj" {
				tx = r.in.resolve(o.st, r.in.loadShallow(o.st, tx))
			}
			p := payment{keys: func(t *Term) bool { return t.Op == "elem" && t.Args[0] == keys }, utxos: utxos, dests: m.d, minBlock: minBlock, rate: rate, maxSize: F(params, "MaxTxVSize")}
			c.judgePayment(m.fn, k, tx, p, o.pos)
		}
		c.ob("coverage", m.fn+": makes transactions", made > 0, r.fn.Pos(), "%d ways", made)
	}
}

// paramOf gives a rule of a network.
func (c *Ctx) paramOf(network, field string) *Term {
	r := c.run("pkg/"+network, runOpt{inline: []string{network}, key: "params"})
	if r == nil {
		return nil
	}
	var v *Term
	for _, o := range r.outs {
		if o.kind == "ret" {
			v = F(r.in.resolve(o.st, o.vals[0]), field)
		}
	}
	return v
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runCommandIn is runCommand with some functions followed rather than taken as known.
func (c *Ctx) runCommandIn(q walletCmd, over map[string]primFn, inline []string) *runRes {
	st := q.st.clone()
	in := newInterp(c.p)
	if q.required != nil && q.required.Op == "int" {
		in.addFact(st, mkNot(mkLt(mkLen(F(walletCtx, "Args")), q.required, false)))
	}
	if q.client == tTrue {
		in.addFact(st, mkNot(mkEq(F(walletCtx, "Client"), tNil)))
	}
	return c.runClosureIn(q.fn, []*Term{walletCtx}, st, over, inline)
}

// isInput: a read of what the user types.
func isInput(s Sink) bool {
	for _, p := range []string{"bufio.Reader.Read", "bufio.Scanner.Scan", "fmt.Scan", "fmt.Fscan", "io.ReadAll", "os.File.Read"} {
		if strings.HasPrefix(s.name, p) {
			return true
		}
	}
	return false
}

// confirmed: the user answered yes after being shown what is sent.
func (c *Ctx) confirmed(where string, r *runRes, k K, tx, change *Term, pos token.Pos) {
	ok := false
	shown := false
	paid := mkSub(sumOf(F(tx, "Outputs"), "Value"), change, true)
	fee := mkSub(sumOf(F(tx, "Inputs"), "Utxo", "Value"), sumOf(F(tx, "Outputs"), "Value"), true)
	if mkLen(F(tx, "Outputs")) == mkInt(1) {
		paid = sumOf(F(tx, "Outputs"), "Value")
	}
	why := ""
	for _, s := range r.in.sinks {
		if s.kind != "call" || !isInput(s) || !k.has(did(s.name, s.args...)) {
			continue
		}
		for _, yes := range []string{"y", "Y", "yes"} {
			for f := range k.st.facts {
				if f.Op == "eq" && (f.Args[0] == mkStr(yes) && occursIn(f.Args[1], s.res) || f.Args[1] == mkStr(yes) && occursIn(f.Args[0], s.res)) {
					ok = true
				}
			}
		}
		p, f := false, false
		for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
			for _, d := range dids(s.k(r.in), n) {
				if l, isL := listElems(d.Args[len(d.Args)-1]); isL {
					for _, x := range l {
						p = p || x == paid
						f = f || x == fee
					}
				}
				why += "\n  shown: " + clip(d.String(), 300)
			}
		}
		shown = shown || p && f
	}
	c.ob("confirmed", where+": the user said yes", ok, pos, "%s", ifBad(ok, describeFacts(k.st.facts)))
	c.ob("confirmed", where+": the user was first shown the amount and the fee", shown, pos, "the amount is %s, the fee is %s%s", clip(paid.String(), 400), clip(fee.String(), 400), ifBad(shown, why))
}

// contractSigning: what is signed is what is verified.
func (c *Ctx) contractSigning() {
	priv, h := mkSym("priv"), mkSym("hash")
	c.contract("signing", "pkg/core.EcdsaSign", "signs the whole hash with the key", runOpt{args: []*Term{priv, h}, inline: []string{"core.EcdsaSign"}}, func(r *runRes, k K, v []*Term) bool {
		if k.has(mkNot(mkEq(v[1], tNil))) {
			return true
		}
		x := v[0]
		if x.Op != "res" || x.Aux != "0" || !isCall(x.Args[0], "ecdsa.SignASN1") {
			return false
		}
		x = x.Args[0]
		return x.Args[1] == priv && x.Args[2] == F(h, "data") && anyTermMemo(x.Args[0], func(t *Term) bool { return strings.Contains(t.Aux, "rand.Reader") })
	})
	c.contract("signing", "pkg/core.MarshalEcdsaPublic", "gives the standard encoding of the key's public half", runOpt{args: []*Term{priv}, inline: []string{"core.MarshalEcdsaPublic"}}, func(r *runRes, k K, v []*Term) bool {
		if k.has(mkNot(mkEq(v[1], tNil))) {
			return true
		}
		x := v[0]
		return x.Op == "res" && x.Aux == "0" && isCall(x.Args[0], "x509.MarshalPKIXPublicKey") && anyTermMemo(x.Args[0].Args[0], func(t *Term) bool {
			return t == F(priv, "PublicKey") || t.Op == "addr" && t.Args[0] == F(priv, "PublicKey") || isCall(t, "ecdsa.PrivateKey.Public") && t.Args[0] == priv
		})
	})
}

// contractSize: the size of a transaction is what the limits are about.
func (c *Ctx) contractSize() {
	tx := mkSym("tx")
	i := mk("idx", "size")
	in := mkElem(F(tx, "Inputs"), i)
	want := mkAdd(mkInt(72), mkAdd(mkMul(mkInt(40), mkLen(F(tx, "Outputs"))),
		mkBinder("sum", i, mkLen(F(tx, "Inputs")), mkAdd(mkInt(48), mkAdd(mkLen(F(in, "PublicKey")), mkLen(F(in, "Signature")))))))
	c.contract("size", "pkg/core.Tx.VSize", "counts the bytes of every input and output", runOpt{args: []*Term{tx}, inline: []string{"core.Tx.VSize"}, key: "size"}, func(r *runRes, k K, v []*Term) bool {
		return k.same(v[0], want)
	})
}

func init() {
	register("C22",
		"the commands that send a transaction are analysed for any configuration, arguments and answers of the node, with the functions that make transactions; at the place it is sent, and at every return of those functions, the transaction's inputs, signatures, outputs, change and size are decided as terms over what was given",
		[]string{"a coin's amount and address are as the node reports them (the network checks them again)", "a P-256 public key is 91 bytes in DER and a signature at most 72 bytes in ASN.1", "the sum of all coins is below 2^64"}, func(c *Ctx) {
			c.payments()
			c.contractSigning()
			c.contractEcdsa()
			c.contractSize()
			c.atLeast("spends", 8)
			c.atLeast("signed", 4)
			c.atLeast("pays", 6)
			c.atLeast("fee", 4)
			c.atLeast("size", 5)
			c.atLeast("confirmed", 6)
		})
}
