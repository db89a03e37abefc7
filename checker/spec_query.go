package main

import "strings"

// ---- what the chain routine answers to questions about the state in use ----

// query describes one kind of question answered with a table.
type query struct {
	list string // field of the question naming what is asked about; "" when the answer ranges over the state
	// entry: this pair may be in the answer to a question q.
	entry func(k K, q, state, asked, key, val *Term) bool
	// covered: the answer has everything it should have about asked. put tells whether a pair was put.
	covered func(k K, q, state, asked *Term, put func(k K, key, val *Term) bool) bool
}

func balanceOf(utxos *Term) *Term { return sumOfElems(mk("call", "setlist", utxos), "Value") }

func sumOfElems(l *Term, field string) *Term { return sumOf(l, field) }

// tableOf gives the object holding a table that is being answered, or nil.
func tableOf(t *Term) *Term {
	if t.Op == "obj" {
		return t
	}
	if t.Op == "lv" && len(t.Args) > 1 && t.Args[1].Op == "cont" {
		return t.Args[1].Args[0]
	}
	return nil
}

func queries() map[string]query {
	pkhs := func(state *Term) *Term { return F(state, "pkhUtxos") }
	balance := func(k K, state, key, val *Term) bool {
		p := pkhs(state)
		return k.has(mkNot(mkHas(p, key))) && val == mkInt(0) || val == balanceOf(mkLookup(p, key))
	}
	incl := func(state *Term) *Term { return F(state, "includedTxBlocks") }
	return map[string]query{
		"PkhBalance": {"PublicKeyHashes",
			func(k K, q, state, asked, key, val *Term) bool { return key == asked && balance(k, state, key, val) },
			func(k K, q, state, asked *Term, put func(k K, key, val *Term) bool) bool { return put(k, asked, nil) }},
		"PkhUtxos": {"PublicKeyHashes",
			func(k K, q, state, asked, key, val *Term) bool {
				base, fs := filtFacts(key)
				n, ok := k.with(fs...)
				return val == asked && base == mkLookup(pkhs(state), asked) &&
					(!ok || n.has(mkNot(F(q, "ExcludeMempool"))) || n.has(mkNot(mkHas(F(state, "mempoolUtxoSpends"), key))))
			},
			func(k K, q, state, asked *Term, put func(k K, key, val *Term) bool) bool {
				own := mkLookup(pkhs(state), asked)
				if k.has(mkNot(mkHas(pkhs(state), asked))) {
					return true
				}
				spent := func(k K, u *Term) bool {
					return k.has(F(q, "ExcludeMempool")) && k.has(mkHas(F(state, "mempoolUtxoSpends"), u))
				}
				l := mk("call", "setlist", own)
				if k.forall(mkLen(l), func(k K, j *Term) bool { return put(k, mkElem(l, j), asked) || spent(k, mkElem(l, j)) }) {
					return true
				}
				// from a filtered copy that only leaves out what is spent by pending transactions
				var found bool
				seen := map[*Term]bool{}
				for f := range k.st.facts {
					if f.Op != "all" && f.Op != "did" {
						continue
					}
					anyTermMemo(f, func(x *Term) bool {
						if found || seen[x] || x.Op != "filt" || x.Args[0] != own && x.Args[0] != l {
							return false
						}
						seen[x] = true
						v := binderVar(x)
						u := mkElem(x.Args[0], v)
						for _, a := range x.Args[1:] {
							for _, p := range conjuncts(a) {
								if p != mkNot(mkHas(F(state, "mempoolUtxoSpends"), u)) {
									return false
								}
							}
						}
						s := x
						if x.Args[0] == own {
							s = mk("call", "setlist", x)
						}
						found = k.has(F(q, "ExcludeMempool")) && k.forall(mkLen(s), func(k K, j *Term) bool { return put(k, mkElem(s, j), asked) })
						return false
					})
				}
				return found
			}},
		"TxConfirms": {"TxIds",
			func(k K, q, state, asked, key, val *Term) bool {
				b := mkLookup(incl(state), key)
				depth := func(u bool) *Term {
					return mkAdd(mkSub(inv("GetBlockHeight", F(state, "head")), inv("GetBlockHeight", b), u), mkInt(1))
				}
				return key == asked && k.has(inv("HasTx", key)) &&
					(k.has(mkNot(mkHas(incl(state), key))) && val == mkInt(0) ||
						k.has(mkHas(incl(state), key)) && (mkEq(val, depth(true)) == tTrue || val == depth(false)))
			},
			func(k K, q, state, asked *Term, put func(k K, key, val *Term) bool) bool {
				return put(k, asked, nil) || k.has(mkNot(inv("HasTx", asked)))
			}},
		"TxIncludedBlock": {"TxIds",
			func(k K, q, state, asked, key, val *Term) bool {
				return key == asked && k.has(mkHas(incl(state), key)) && val == mkLookup(incl(state), key)
			},
			func(k K, q, state, asked *Term, put func(k K, key, val *Term) bool) bool {
				return put(k, asked, nil) || k.has(mkNot(mkHas(incl(state), asked))) || k.has(mkNot(inv("HasTx", asked)))
			}},
		"RichList": {"", func(k K, q, state, asked, key, val *Term) bool {
			return key.Op == "elem" && permOf(key.Args[0], mkKeys(pkhs(state))) && balance(k, state, key, val)
		}, nil},
	}
}

// richest: the table is made of the first n owners by descending balance.
func (k K) richest(q, state, t *Term) string {
	P := F(state, "pkhUtxos")
	if t.Op != "mapof" || len(t.Args) != 4 {
		return "the table is put together owner by owner from an ordered list"
	}
	v := binderVar(t)
	n, key, val := t.Args[0], t.Args[1], t.Args[2]
	if key.Op != "elem" || key.Args[1] != v || !permOf(key.Args[0], mkKeys(P)) || key.Args[0].Op != "sorted" {
		return "the owners come from an ordered list of all of them"
	}
	s := key.Args[0]
	less := mkTrue()
	if len(s.Args) > 1 {
		less = s.Args[1]
	}
	bal := func(i string) *Term { return balanceOf(mkLookup(P, mkElem(s.Args[0], sortIdx2(less, i)))) }
	if less.Op != "lt" || sortIdx2(less, "#i") == nil || sortIdx2(less, "#j") == nil || less.Args[0] != bal("#j") || less.Args[1] != bal("#i") {
		return "the order is by descending balance"
	}
	if val != balanceOf(mkLookup(P, key)) {
		return "each owner is listed with its balance"
	}
	max, all := F(q, "MaxLen"), mkLen(P)
	if !(n == all && k.has(mkNot(mkLt(max, all, true))) || n == max && k.has(mkLt(max, all, true)) || n == max && k.has(mkNot(mkLt(all, max, true)))) {
		return "the list is cut at the length asked for"
	}
	return ""
}

func mkTrue() *Term { return tTrue }

func sortIdx2(t *Term, name string) *Term { return sortIdx(t, name) }

func (c *Ctx) answers() {
	r, ch := c.runLoop()
	if r == nil {
		return
	}
	qs := queries()
	seen := map[string]bool{}
	subOf := func(m *Term) string {
		if m == nil || m.Op != "recv" || m.Args[0].Op != "fld" {
			return ""
		}
		s := m.Args[0].Args[0]
		return s.Aux
	}
	puts := map[*Term][]Sink{}
	for _, q := range r.in.sinks {
		if q.name == "mapput" {
			puts[q.args[0]] = append(puts[q.args[0]], q)
		}
	}
	for _, q := range r.in.sinks {
		if q.kind != "reply" && q.name != "util.WriteChIfPossible" {
			continue
		}
		m := recvOf(q.args[0])
		name := subOf(m)
		if name == "CandidateTx" {
			continue
		}
		seen[name] = true
		k := q.k(r.in)
		state := r.in.chainState(k, ch)
		where := strings.Join(q.stack, " > ") + ": " + name
		if name == "HeadHeight" {
			c.ob("answer-height", where+": the height of the head in use", q.args[1] == inv("GetBlockHeight", F(state, "head")), q.pos, "answers %s", clip(q.args[1].String(), 200))
			continue
		}
		d, ok := qs[name]
		if !ok {
			c.ob("answer-known", where+": a question this check knows", false, q.pos, "the answer to %s is not decided by this check", name)
			continue
		}
		t := q.args[1]
		if name == "RichList" {
			w := k.richest(m, state, r.in.resolve(k.st, t))
			c.ob("answer-complete", where+": the richest owners, in full", w == "", q.pos, "not established: %s", w)
			continue
		}
		obj := tableOf(t)
		if obj == nil {
			c.ob("answer-complete", where+": the answer is a table made for this question", false, q.pos, "answers %s", clip(t.String(), 200))
			continue
		}
		put := func(k K, key, val *Term) bool {
			return k.didMatch("mapput", func(a []*Term) bool { return a[0] == obj && a[1] == key && (val == nil || a[2] == val) })
		}
		L := F(m, d.list)
		okc := k.forall(mkLen(L), func(k K, i *Term) bool { return d.covered(k, m, state, mkElem(L, i), put) })
		c.ob("answer-complete", where+": everything asked about is answered", okc, q.pos, "%s", describeIf(!okc, k.st.facts))
		n := 0
		for _, p := range puts[obj] {
			n++
			pk := p.k(r.in)
			st := r.in.chainState(pk, ch)
			var asked *Term
			anyTerm(mkList(p.args[1], p.args[2]), func(x *Term) bool {
				if x.Op == "elem" && x.Args[0] == L {
					asked = x
				}
				return asked != nil
			})
			okp := asked != nil && d.entry(pk, m, st, asked, p.args[1], p.args[2])
			c.ob("answer-right", where+": every entry of the answer is right", okp, p.pos, "entry %s -> %s; %s", clip(p.args[1].String(), 200), clip(p.args[2].String(), 300), describeIf(!okp, pk.st.facts))
		}
		c.ob("answer-right", where+": the answer has entries", n > 0, q.pos, "nothing is ever put into the answer")
	}
	for n := range qs {
		c.ob("answer-given", "the question "+n+" is answered", seen[n], r.fn.Pos(), "no answer to %s was found", n)
	}
	c.ob("answer-given", "the question HeadHeight is answered", seen["HeadHeight"], r.fn.Pos(), "no answer was found")
	// asking must not change anything
	for _, q := range r.in.sinks {
		if q.kind != "store" && q.kind != "mapput" && q.kind != "mapdel" && !strings.HasPrefix(q.name, "set.") && q.name != "mapput" && q.name != "mapdel" && !strings.HasPrefix(q.name, "topic.") {
			continue
		}
		k := q.k(r.in)
		name := ""
		for n := range seen {
			if k.has(mk("did", "recv", F(mkSym("c"), "subs", n, "C"))) {
				name = n
			}
		}
		if name == "" || name == "CandidateTx" || name == "CandidateHead" {
			continue
		}
		fresh := len(q.args) > 0 && rootObj(q.args[0]) != nil
		c.ob("asking-is-free", strings.Join(q.stack, " > ")+": "+q.name+" while answering "+name+" touches nothing but the answer", fresh, q.pos, "changes %s", clip(mkList(q.args...).String(), 300))
	}
	c.atLeast("asking-is-free", 4)
}

func init() {
	register("C29",
		"for each question the chain routine answers: every entry put into the answer is the right value for its key in the state in use, every key asked about gets its entry unless it is unknown there, and answering changes nothing",
		nil, func(c *Ctx) {
			c.answers()
			c.records()
			c.contractSet()
			c.contractUtil()
			c.contractInvReads("HasTx", "GetTx")
		})
}
