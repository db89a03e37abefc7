package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the wallet's client and the node's HTTP interface, put together ----
//
// Each exported method of the client is analysed for the request it sends. The request is taken apart
// and given to the handler mounted on that path, and what the handler writes is given back to the
// client. What the client then returns must be what the question it stands for asks.

var clientBase = mkSym("base") // the node's address without a closing slash

type request struct {
	method, path string
	query        []qparam
	body         *Term
	sink         Sink
}

type qparam struct {
	name string
	vals *Term // a sequence of texts
}

// pieces flattens a text.
func pieces(t *Term) []*Term {
	for t.Op == "bytes" {
		t = t.Args[0]
	}
	if t.Op == "cat" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, pieces(a)...)
		}
		return out
	}
	return []*Term{t}
}

// parseURL takes an address apart: where it points below the node's address, and its parameters.
func parseURL(t *Term) (path string, query []qparam, why string) {
	ps := pieces(t)
	if len(ps) == 0 || ps[0] != clientBase {
		return "", nil, "it does not start with the node's address"
	}
	ps = ps[1:]
	inQuery := false
	name := ""
	var vals []*Term // parts of the value being read
	flush := func() {
		if name != "" {
			v := mkCat(vals...)
			if len(vals) == 1 && vals[0].Op == "seq" {
				v = vals[0].Args[0]
			} else {
				v = mkList(v)
			}
			for i := range query {
				if query[i].name == name {
					query[i].vals = mkConcat(query[i].vals, v)
					name, vals = "", nil
					return
				}
			}
			query = append(query, qparam{name, v})
		}
		name, vals = "", nil
	}
	key, inVal := "", false
	for _, p := range ps {
		if s, ok := str(p); ok {
			for i := 0; i < len(s); i++ {
				switch ch := s[i]; {
				case !inQuery && ch == '?':
					inQuery = true
				case !inQuery:
					path += string(ch)
				case ch == '&':
					flush()
					key, inVal = "", false
				case ch == '=' && !inVal:
					inVal, name = true, key
				case inVal:
					vals = append(vals, mkStr(string(ch)))
				default:
					key += string(ch)
				}
			}
			continue
		}
		if !inVal {
			return path, query, "a part of its path or of a parameter's name is not fixed: " + clip(p.String(), 100)
		}
		if isCall(p, "strings.Join") {
			sep, ok := str(p.Args[1])
			if !ok || sep != "&"+name+"=" || len(vals) != 0 {
				return path, query, "a list is joined by " + clip(p.Args[1].String(), 60) + " in the parameter " + name
			}
			if e := p.Args[0]; e.Op == "map" && !urlSafe(e.Args[1]) || e.Op != "map" && e.Op != "list" {
				return path, query, "the values joined are not known to be plain: " + clip(e.String(), 100)
			}
			vals = append(vals, mk("seq", "", p.Args[0]))
			continue
		}
		if !urlSafe(p) {
			return path, query, "a value is not known to be plain: " + clip(p.String(), 100)
		}
		vals = append(vals, p)
	}
	flush()
	for _, q := range query {
		for _, v := range q.vals.Args {
			if v.Op == "seq" {
				return path, query, "a list is mixed with other text"
			}
		}
	}
	return path, query, ""
}

// requests lists what a run sends.
func (c *Ctx) requests(r *runRes, where string) []request {
	var out []request
	for _, s := range r.in.sinks {
		if !strings.HasPrefix(s.name, "http.") {
			continue
		}
		q := request{sink: s}
		var url *Term
		switch s.name {
		case "http.Get":
			q.method, url = "GET", s.args[0]
		case "http.Post":
			q.method, url, q.body = "POST", s.args[0], s.args[2]
		default:
			c.ob("request", where+": the request sent is understood", false, s.pos, "%s", s.name)
			continue
		}
		path, query, why := parseURL(url)
		if !c.ob("request", where+": the address asked is understood", why == "", s.pos, "%s: %s", clip(url.String(), 300), why) {
			continue
		}
		if q.method == "GET" { // the mux answers a path with doubled slashes by redirecting to the plain one
			for strings.Contains(path, "//") {
				path = strings.ReplaceAll(path, "//", "/")
			}
		}
		q.path, q.query = path, query
		out = append(out, q)
	}
	return out
}

func isBodyReader(t, body *Term) *Term {
	for t.Op == "call" && (t.Aux == "bytes.NewReader" || t.Aux == "bytes.NewBuffer" || t.Aux == "strings.NewReader" || t.Aux == "bytes.NewBufferString") {
		return stripBytes(t.Args[0])
	}
	return nil
}

// serve analyses the handler of a route for a request.
func (c *Ctx) serve(w *wire, t route, q request) *runRes {
	over := w.over()
	tab := mk("emptymap", "")
	for _, p := range q.query {
		tab = mk("mapput", "", tab, mkStr(p.name), p.vals)
	}
	over["url.URL.Query"] = func(cc *callCtx) []callRes {
		if cc.val(0) == F(respR, "URL") {
			return cc.ret(tab)
		}
		return cc.external()
	}
	over["url.Values.Get"] = func(cc *callCtx) []callRes {
		v := mkLookup(cc.val(0), cc.val(1))
		if v == tZero {
			return cc.ret(mkStr(""))
		}
		return cc.ret(mkElem(v, mkInt(0)))
	}
	over["url.Values.Has"] = func(cc *callCtx) []callRes { return cc.ret(mkHas(cc.val(0), cc.val(1))) }
	first := func(cc *callCtx) []callRes {
		v := mkLookup(tab, cc.val(1))
		if v == tZero {
			return cc.ret(mkStr(""))
		}
		return cc.ret(mkElem(v, mkInt(0)))
	}
	over["http.Request.FormValue"] = first
	if q.body != nil {
		if b := isBodyReader(q.body, nil); b != nil {
			over["io.ReadAll"] = func(cc *callCtx) []callRes {
				if cc.val(0) == F(respR, "Body") {
					return okPair(cc, b)
				}
				return cc.external()
			}
			over["json.Decoder.Decode"] = func(cc *callCtx) []callRes {
				if d := cc.val(0); isCall(d, "json.NewDecoder") && d.Args[0] == F(respR, "Body") && w.decode(cc, b, 1) {
					return cc.ret(tNil)
				}
				return cc.external()
			}
		}
	}
	return c.runClosureOver(t.fn, []*Term{respW, respR}, t.disp.k(t.front.in).st, over)
}

// bodyOf is what a successful path through a handler wrote; nil for a failure.
func bodyOf(k K) (body *Term, status int64, n int) {
	status = 200
	for _, b := range k.written(respW) {
		switch b.kind {
		case "header":
			if s, ok := isInt(b.args[1]); ok {
				status = s
			} else {
				status = 0
			}
		case "body":
			n++
			body = stripBytes(b.args[1])
		case "all":
			n++
			status = 0
		}
	}
	return
}

// reply gives a response to every request a client sends.
func reply(w *wire, body *Term, url *Term) map[string]primFn {
	over := w.over()
	resp := mkSym("resp")
	get := func(cc *callCtx) []callRes {
		cc.in.store(cc.ps.st, mk("fld", "StatusCode", resp), mkInt(200))
		cc.in.did(cc.ps.st, cc.name, cc.vals(0)...)
		return okPair(cc, resp)
	}
	over["http.Get"], over["http.Post"] = get, get
	over["io.ReadAll"] = func(cc *callCtx) []callRes {
		if cc.val(0) == F(resp, "Body") {
			return okPair(cc, body)
		}
		return cc.external()
	}
	over["json.Decoder.Decode"] = func(cc *callCtx) []callRes {
		if d := cc.val(0); isCall(d, "json.NewDecoder") && d.Args[0] == F(resp, "Body") && w.decode(cc, body, 1) {
			return cc.ret(tNil)
		}
		return cc.external()
	}
	return over
}

// question is what a method of the client stands for.
type question struct {
	topic string         // asked on this topic
	parts map[string]int // fields of the question and the parameter each is
	one   map[string]int // fields of the question that are a list of one parameter
	table string         // or: a table of what the inventory has, by this kind of record
	ans   func(recv *Term, args []*Term) *Term
}

func clientQuestions() map[string]question {
	whole := func(recv *Term, args []*Term) *Term { return recv }
	return map[string]question{
		"GetHeadHeight":      {topic: "HeadHeight", ans: whole},
		"GetBalance":         {topic: "PkhBalance", one: map[string]int{"PublicKeyHashes": 1}, ans: func(recv *Term, args []*Term) *Term { return mkLookup(recv, args[1]) }},
		"GetManyBalances":    {topic: "PkhBalance", parts: map[string]int{"PublicKeyHashes": 1}, ans: whole},
		"GetManyUtxos":       {topic: "PkhUtxos", parts: map[string]int{"PublicKeyHashes": 1, "ExcludeMempool": 2}, ans: whole},
		"PostTx":             {topic: "CandidateTx", parts: map[string]int{"Tx": 1}, ans: func(recv *Term, args []*Term) *Term { return callTerm("core.Tx.Hash", args[1]) }},
		"GetTxConfirms":      {topic: "TxConfirms", parts: map[string]int{"TxIds": 1}, ans: whole},
		"GetTxIncludedBlock": {topic: "TxIncludedBlock", parts: map[string]int{"TxIds": 1}, ans: whole},
		"GetRichList":        {topic: "RichList", parts: map[string]int{"MaxLen": 1}, ans: whole},
		"GetTx":              {table: "Tx"},
		"GetMerkle":          {table: "Merkle"},
		"GetBlock":           {table: "Block"},
	}
}

// clientBases gives the client's fields as its constructor leaves them, for an address with and
// without a closing slash.
func (c *Ctx) clientBases(w *wire, version *Term) []map[string]*Term {
	var out []map[string]*Term
	for _, slash := range []bool{false, true} {
		addr := clientBase
		if slash {
			addr = mkCat(clientBase, mkStr("/"))
		}
		name := map[bool]string{false: "an address without a closing slash", true: "an address with a closing slash"}[slash]
		over := w.over()
		closing := func(f func() *Term) primFn {
			return func(cc *callCtx) []callRes {
				if cc.val(0) == addr && cc.val(1) == mkStr("/") {
					return cc.ret(f())
				}
				return cc.pure()
			}
		}
		over["strings.HasSuffix"] = closing(func() *Term { return mkBool(slash) })
		for _, n := range []string{"strings.TrimSuffix", "strings.TrimRight"} {
			over[n] = closing(func() *Term { return clientBase })
		}
		r := c.run("internal/rest/client.NewWalletClient", runOpt{args: []*Term{addr, version}, over: over, key: name, opaque: []string{"client.WalletClient.Check"}, setup: func(in *Interp, st *State) {
			in.addFact(st, mkNot(mkEq(mkLen(clientBase), mkInt(0))))
			if !slash {
				end := mkSub(mkLen(addr), mkInt(1), false)
				in.addFact(st, mkNot(mkEq(mkSlice(addr, end, tNil), mkStr("/"))))
				in.addFact(st, mkNot(mkEq(mkElem(addr, end), mkInt('/'))))
			}
		}})
		if r == nil {
			return nil
		}
		n := 0
		for _, o := range r.outs {
			if o.kind != "ret" {
				continue
			}
			k := r.k(o)
			if !k.same(r.in.resolve(o.st, o.vals[1]), tNil) {
				continue
			}
			n++
			v := r.in.resolve(o.st, o.vals[0])
			t := c.p.typ("internal/rest/client.WalletClient")
			if !c.need("client.WalletClient", t != nil) {
				return nil
			}
			m := map[string]*Term{}
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				m[s.Field(i).Name()] = F(v, s.Field(i).Name())
			}
			key := fmt.Sprint(m)
			dup := false
			for _, x := range out {
				dup = dup || fmt.Sprint(x) == key
			}
			if !dup {
				out = append(out, m)
			}
			checked := false
			for f := range o.st.facts {
				checked = checked || f.Op == "eq" && (f.Args[0] == tNil && isCall(f.Args[1], "client.WalletClient.Check") || f.Args[1] == tNil && isCall(f.Args[0], "client.WalletClient.Check"))
			}
			c.ob("version", "NewWalletClient: a client is given only after checking the node's version", checked, o.pos, "%s", describeIf(!checked, o.st.facts))
		}
		c.ob("coverage", "NewWalletClient with "+name, n > 0, r.fn.Pos(), "%d ways to succeed", n)
	}
	return out
}

func setFields(m map[string]*Term, recv *Term) func(in *Interp, st *State) {
	return func(in *Interp, st *State) {
		for n, v := range m {
			in.store(st, mk("fld", n, recv), v)
		}
	}
}

func (c *Ctx) clientMethods() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	t := c.p.typ("internal/rest/client.WalletClient")
	if t == nil {
		return out
	}
	for i := 0; i < t.NumMethods(); i++ {
		if m := t.Method(i); m.Exported() {
			if f := c.p.SSA.FuncValue(m); f != nil && f.Blocks != nil {
				out[m.Name()] = f
			}
		}
	}
	return out
}

func (c *Ctx) clientAndServer() {
	w := newWire(c)
	routes := c.routes()
	find := func(q request) *route {
		for i := range routes {
			if routes[i].path == q.path && routes[i].method == q.method {
				return &routes[i]
			}
		}
		return nil
	}
	version := mkSym("version")
	bases := c.clientBases(w, version)
	methods := c.clientMethods()
	qs := clientQuestions()
	var names []string
	for n := range methods {
		names = append(names, n)
	}
	sort.Strings(names)
	c.ob("coverage", "methods of the wallet's client", len(names) >= 12, token.NoPos, "%d found", len(names))
	for n := range qs {
		c.ob("coverage", "the client's "+n, methods[n] != nil, token.NoPos, "not found")
	}
	for _, n := range names {
		f := methods[n]
		d, known := qs[n]
		for bi, base := range bases {
			where := "WalletClient." + n
			recv := mkSym("c")
			args := []*Term{recv}
			for _, p := range f.Params[1:] {
				args = append(args, mkSym(p.Name()))
			}
			key := fmt.Sprint("client", bi)
			setup := setFields(base, recv)
			r := c.runFn(f, runOpt{args: args, over: w.over(), key: key, setup: setup})
			reqs := c.requests(r, where)
			c.ob("coverage", where+" sends a request", len(reqs) > 0, f.Pos(), "%d requests", len(reqs))
			for _, o := range r.outs {
				if o.kind == "panic" {
					c.ob("client", where+": does not panic", false, o.pos, "%s", r.describe(o))
				}
			}
			for _, q := range reqs {
				t := find(q)
				if !c.ob("route", where+": its request is mounted", t != nil, q.sink.pos, "%s %s is not mounted", q.method, q.path) {
					continue
				}
				h := c.serve(w, *t, q)
				if !c.need("handler of "+t.name(), h != nil) {
					continue
				}
				served := 0
				for _, ho := range h.outs {
					if ho.kind != "ret" {
						c.ob("served", where+": the node answers it", false, ho.pos, "the handler of %s can panic%s", t.name(), h.describe(ho))
						continue
					}
					hk := h.k(ho)
					body, status, nb := bodyOf(hk)
					if status != 200 {
						c.ob("served", where+": is refused only for its content", refusalOK(hk, d, args), ho.pos, "%s answers %d%s", t.name(), status, describeIf(true, ho.st.facts))
						continue
					}
					if !c.ob("served", where+": the answer is in one piece", nb == 1, ho.pos, "%d bodies", nb) {
						continue
					}
					served++
					c.clientAnswer(w, where, f, n, d, known, key, args, setup, q, h, ho, body, version)
				}
				c.ob("served", where+": is answered", served > 0, q.sink.pos, "%s never answers this request with success", t.name())
			}
		}
	}
	// types sent
	seen := map[string]bool{}
	for {
		var todo []string
		for n := range w.used {
			if !seen[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Strings(todo)
		for _, n := range todo {
			w.faithful(w.used[n], seen)
		}
	}
	c.atLeast("faithful-json", 40)
}

// refusalOK: the handler refuses because nothing was found or the node did not accept it.
func refusalOK(k K, d question, args []*Term) bool {
	for f := range k.st.facts {
		if d.table != "" && f.Op == "eq" {
			for i := range f.Args {
				if f.Args[i].Op == "len" && f.Args[1-i] == mkInt(0) {
					return true
				}
			}
		}
		if d.topic == "CandidateTx" {
			if f.Op == "not" && f.Args[0].Op == "eq" && (f.Args[0].Args[0].Op == "recv" || f.Args[0].Args[1].Op == "recv") {
				return true
			}
			if f.Op == "not" && len(args) > 1 && isCall(f.Args[0], "core.Tx.HasSurplus") {
				return true
			}
		}
	}
	if d.topic == "CandidateTx" {
		// nothing is left over for a fee
		tx := args[1]
		return k.has(mkNot(mkLt(sumOf(F(tx, "Outputs"), "Value"), sumOf(F(tx, "Inputs"), "Utxo", "Value"), true)))
	}
	return false
}

func (c *Ctx) clientAnswer(w *wire, where string, f *ssa.Function, name string, d question, known bool, key string, args []*Term, setup func(in *Interp, st *State), q request, h *runRes, ho Outcome, body, version *Term) {
	hk := h.k(ho)
	var want *Term
	switch {
	case d.topic != "":
		pubs := 0
		for _, p := range dids(hk, "topic.Topic.Pub") {
			pubs++
			c.ob("asks", where+": the question reaches the topic it stands for", p.Args[0].Op == "fld" && p.Args[0].Aux == d.topic, ho.pos, "asked on %s", p.Args[0])
			l, ok := listElems(p.Args[1])
			ev := p.Args[1]
			if ok && len(l) == 1 {
				ev = l[0]
			}
			for field, i := range d.parts {
				typ := f.Params[i].Type()
				why := hk.eta(typ, F(ev, field), args[i], 0)
				if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && why != "" {
					// the request differs with the flag
					v, sent := F(ev, field), q.sink.k(h.in)
					if v == tTrue && sent.has(args[i]) || (v == tFalse || v == tZero) && sent.has(mkNot(args[i])) {
						why = ""
					}
				}
				c.ob("asks", where+": "+field+" of the question is what the client was given", why == "", ho.pos, "%s%s", field, why)
			}
			for field, i := range d.one {
				v := F(ev, field)
				ok := hk.same(mkLen(v), mkInt(1)) && hk.same(mkElem(v, mkInt(0)), args[i])
				c.ob("asks", where+": "+field+" of the question is what the client was given", ok, ho.pos, "%s is %s", field, clip(v.String(), 200))
			}
			want = d.ans(mk("recv", "", F(ev, "Ret")), args)
		}
		c.ob("asks", where+": asks one question", pubs == 1, ho.pos, "%d questions", pubs)
	case d.table != "":
		c.invTable(where, d.table, h, ho, body, args[1])
	case name == "Check":
		c.ob("version", "the node tells its version", body == F(mkSym("s"), "params", "Version"), ho.pos, "tells %s", clip(body.String(), 100))
	default:
		c.ob("client", where+": a question this check knows", known, f.Pos(), "what %s should return is not known to this check", name)
		return
	}
	// the answer comes back
	r := c.runFn(f, runOpt{args: args, over: reply(w, body, nil), key: fmt.Sprint(key, "reply", body.ID), setup: func(in *Interp, st *State) {
		setup(in, st)
		for g := range q.sink.facts {
			if g.Op != "did" && g.Op != "all" {
				in.addFact(st, g)
			}
		}
	}})
	n := 0
	for _, o := range r.outs {
		if o.kind != "ret" {
			c.ob("answer", where+": an answer is not a panic", false, o.pos, "%s", r.describe(o))
			continue
		}
		k := r.k(o)
		e := r.in.resolve(o.st, o.vals[len(o.vals)-1])
		if name == "Check" {
			if k.same(e, tNil) {
				n++
				ok := k.has(mkEq(body, version))
				c.ob("version", "the client goes on only with a node of its own version", ok, o.pos, "%s", describeIf(!ok, o.st.facts))
			}
			continue
		}
		if !k.same(e, tNil) {
			// an answer that does not mention what was asked for may be refused
			ok := want != nil && want.Op == "lookup" && k.has(mkNot(mkHas(want.Args[0], want.Args[1])))
			c.ob("answer", where+": the node's answer is not taken for an error", ok, o.pos, "%s%s", clip(e.String(), 200), describeIf(!ok, o.st.facts))
			continue
		}
		n++
		v := r.in.resolve(o.st, o.vals[0])
		if d.table != "" {
			want = mkField(body.Args[0], c.tableField(w, body))
		}
		c.ob("answer", where+": gives what the node answered", want != nil && k.same(v, want), o.pos, "gives %s, the answer is %s", clip(v.String(), 300), clip(fmt.Sprint(want), 300))
	}
	c.ob("answer", where+": the answer is given", n > 0, f.Pos(), "no way to succeed with the node's answer")
}

// tableField is the one field of an answer that holds a table.
func (c *Ctx) tableField(w *wire, body *Term) string {
	t := w.used[body.Aux]
	if body.Op != "json" || t == nil {
		return ""
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n := ""
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			if n != "" {
				return ""
			}
			n = s.Field(i).Name()
		}
	}
	return n
}

// invTable: the table answered holds each record asked for that the node has, and nothing else.
func (c *Ctx) invTable(where, kind string, h *runRes, ho Outcome, body, asked *Term) {
	hk := h.k(ho)
	rule := "answer-table"
	if !c.ob(rule, where+": the answer is a table", body.Op == "json", ho.pos, "%s", clip(body.String(), 200)) {
		return
	}
	var obj *Term
	for _, f := range []string{"Txs", "Merkles", "Blocks"} {
		if t := tableOf(mkField(body.Args[0], f)); t != nil {
			obj = t
		}
	}
	if !c.ob(rule, where+": the table is made for this request", obj != nil, ho.pos, "%s", clip(body.String(), 300)) {
		return
	}
	has := func(k K, id *Term) bool { return k.has(inv("Has"+kind, id)) }
	okc := hk.forall(mkLen(asked), func(k K, i *Term) bool {
		id := mkElem(asked, i)
		return k.has(mkNot(inv("Has"+kind, id))) || k.didMatch("mapput", func(a []*Term) bool { return a[0] == obj && a[1] == id })
	})
	c.ob(rule, where+": everything asked about that the node has is answered", okc, ho.pos, "%s", describeIf(!okc, ho.st.facts))
	n := 0
	for _, p := range h.in.sinks {
		if p.name != "mapput" || p.args[0] != obj {
			continue
		}
		n++
		id := p.args[1]
		ok := id.Op == "elem" && id.Args[0] == asked && has(p.k(h.in), id) && p.args[2] == inv("Get"+kind, id)
		c.ob(rule, where+": every entry is a record the node has, under its own id", ok, p.pos, "entry %s -> %s", clip(id.String(), 200), clip(p.args[2].String(), 200))
	}
	c.ob(rule, where+": the table has entries", n > 0, ho.pos, "nothing is put into it")
}

// sameNetwork: node and wallet agree on the version and rules of each of the two networks.
func (c *Ctx) sameNetwork() {
	rule := "same-network"
	cfg := mkSym("c")
	wv, wp := map[bool]*Term{}, map[bool]*Term{}
	for _, dev := range []bool{true, false} {
		name := map[bool]string{true: "the development network", false: "the real network"}[dev]
		setup := func(in *Interp, st *State) { in.store(st, mk("fld", "Dev", cfg), mkBool(dev)) }
		for m, into := range map[string]map[bool]*Term{"Version": wv, "CoreParams": wp} {
			r := c.run("cmd/bcwallet.Config."+m, runOpt{args: []*Term{cfg}, opaque: mainOpaque, key: name, setup: setup})
			if r == nil {
				return
			}
			for _, o := range r.outs {
				if o.kind != "ret" {
					continue
				}
				v := r.in.resolve(o.st, o.vals[0])
				c.ob(rule, "the wallet's "+m+" on "+name+" is settled", into[dev] == nil || into[dev] == v, o.pos, "%s or %s", into[dev], v)
				into[dev] = v
			}
			c.ob(rule, "the wallet has a "+m+" on "+name, into[dev] != nil, r.fn.Pos(), "none")
		}
	}
	if wv[true] == nil || wv[false] == nil || wp[true] == nil || wp[false] == nil {
		return
	}
	c.ob(rule, "the two networks have versions of their own", mkEq(wv[true], wv[false]) == tFalse, token.NoPos, "both are %s", wv[true])
	c.ob(rule, "the two networks have rules of their own", wp[true] != wp[false] && isCallOnly(wp[true], wp[false]), token.NoPos, "%s and %s", wp[true], wp[false])
	c.ownNetwork(rule, wv)
	r := c.run("cmd/bcnode.main", runOpt{opaque: mainOpaque})
	if r == nil {
		return
	}
	n := 0
	for _, s := range r.in.sinks {
		var dev, known bool
		for f := range s.facts {
			g := f
			neg := f.Op == "not"
			if neg {
				g = f.Args[0]
			}
			if g.Op == "call" && strings.HasPrefix(g.Aux, "flag.Bool") && len(g.Args) > 0 && g.Args[0] == mkStr("dev") {
				dev, known = !neg, true
			}
		}
		switch s.name {
		case "rest.NewServer":
			n++
			v := F(s.args[0], "Version")
			c.ob(rule, "main: the node tells the version of the network it is on", known && v == wv[dev], s.pos, "on the development network: %v; tells %s, the wallet expects %s", dev, v, wv[dev])
		case "inv.NewInv":
			n++
			v := s.args[0]
			c.ob(rule, "main: the node follows the rules of the network it is on", known && sameCall(v, wp[dev]), s.pos, "on the development network: %v; follows %s, the wallet %s", dev, v, wp[dev])
		}
	}
	c.ob("coverage", rule+": main", n >= 2, r.fn.Pos(), "%d constructs", n)
}

// ownNetwork: wherever the wallet makes a client, it expects the version of its own network.
func (c *Ctx) ownNetwork(rule string, wv map[bool]*Term) {
	cmds := c.walletCommands()
	main := c.p.fn("cmd/bcwallet.main")
	if len(cmds) == 0 || !c.need("the wallet's main", main != nil) {
		return
	}
	over := c.walletOver(newWire(c))
	where, made := "", map[string]bool{}
	over["client.NewWalletClient"] = func(cc *callCtx) []callRes {
		cfg := walletConfig()
		if a := cc.val(0); (a.Op == "field" || a.Op == "fld") && a.Aux == "NodeAddr" {
			cfg = a.Args[0]
		}
		k := K{cc.in, cc.ps.st}
		made[where] = true
		v := cc.args[len(cc.args)-1]
		for _, d := range []bool{true, false} {
			n, ok := k.with(mkEq(F(cfg, "Dev"), mkBool(d)))
			if !ok {
				continue
			}
			got := n.in.resolve(n.st, v)
			ok = len(cc.args) == 2 && n.same(got, wv[d])
			c.ob(rule, where+": a client is made for the version of the configuration's network", ok, cc.pos, "on the development network: %v; expects %s", d, clip(got.String(), 200))
		}
		return cc.opaque()
	}
	for _, q := range cmds {
		where = "command " + q.name
		c.runCommand(nil, q, over)
	}
	where = "start"
	c.runFn(main, runOpt{over: over, key: "network", states: 2000, setup: func(in *Interp, st *State) {
		for l, v := range cmds[0].st.mem {
			st.mem[l] = v
		}
	}})
	c.ob("coverage", rule+": clients are made", made["start"], main.Pos(), "in %d places, not at the start", len(made))
}

// sameCall: results of the same function, whatever site it was called at.
func sameCall(a, b *Term) bool {
	return a == b || a.Op == "call" && b.Op == "call" && a.Aux == b.Aux
}

func isCallOnly(a, b *Term) bool { return !sameCall(a, b) }

func init() {
	register("C28",
		"each method of the wallet's client is put together with the handler its request is mounted on: the question the handler asks has the content the client was given, what the handler writes is decoded to what was answered, and the client gives exactly that; types written as JSON are composed with their decoding; node and wallet agree on version and rules",
		[]string{"encoding/json decodes what it encoded for structs whose fields are exported and named apart, and for maps with text keys", "net/http routes a GET path with doubled slashes to the cleaned path"}, func(c *Ctx) {
			c.clientAndServer()
			c.sameNetwork()
			c.hashText()
			c.atLeast("served", 20)
			c.atLeast("answer", 20)
			c.atLeast("asks", 25)
		})
}
