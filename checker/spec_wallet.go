package main

// The wallet program: its commands, the keys it holds and the transactions it makes.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walletCmd is one entry of the wallet's command table.
type walletCmd struct {
	name     string
	required *Term
	client   *Term
	fn       *Term
	st       *State // as left by the package's initialisation
}

var walletCtx = mkSym("ctx")

func walletConfig() *Term { return F(walletCtx, "Config") }

// walletOver: call rules for the wallet's commands.
func (c *Ctx) walletOver(w *wire) map[string]primFn {
	over := w.over()
	pure := func(cc *callCtx) []callRes { return cc.pure() }
	for _, n := range []string{"os.IsNotExist", "fs.FileInfo.IsDir", "iface.IsDir", "os.Stat"} {
		over[n] = pure
	}
	over["user.Current"] = func(cc *callCtx) []callRes { return okPair(cc, mkSym("currentUser")) }
	return over
}

// walletCommands finds the commands the program starts with.
func (c *Ctx) walletCommands() []walletCmd {
	r := c.run("cmd/bcwallet.init", runOpt{})
	if r == nil {
		return nil
	}
	var out []walletCmd
	for _, o := range r.outs {
		if o.kind != "ret" || len(o.st.mem) < 2 {
			continue
		}
		for _, v := range o.st.mem {
			l, ok := listElems(r.in.resolve(o.st, v))
			if !ok {
				continue
			}
			for _, e := range l {
				if e.Op != "struct" {
					continue
				}
				var fn *Term
				m := map[string]*Term{}
				for _, n := range []string{"Name", "Handler", "RequiredArgs", "RequiresClient"} {
					m[n] = mkField(e, n)
				}
				if f := m["Handler"]; f != nil && (f.Op == "func" || f.Op == "closure") {
					fn = f
				}
				n, ok := str(m["Name"])
				if fn == nil || !ok {
					continue
				}
				out = append(out, walletCmd{n, m["RequiredArgs"], m["RequiresClient"], fn, o.st})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	c.ob("coverage", "the wallet's commands", len(out) >= 10, r.fn.Pos(), "%d found", len(out))
	return out
}

// runCommand analyses a command for any configuration and arguments.
func (c *Ctx) runCommand(w *wire, q walletCmd, over map[string]primFn) *runRes {
	st := q.st.clone()
	in := newInterp(c.p)
	if q.required != nil && q.required.Op == "int" {
		in.addFact(st, mkNot(mkLt(mkLen(F(walletCtx, "Args")), q.required, false)))
	}
	if q.client == tTrue {
		in.addFact(st, mkNot(mkEq(F(walletCtx, "Client"), tNil)))
	}
	return c.runClosureOver(q.fn, []*Term{walletCtx}, st, over)
}

// extends: a list that begins with all of another.
func (in *Interp) extends(t, base *Term, d int) bool {
	if t == base || base.Op == "list" && len(base.Args) == 0 {
		return true
	}
	if d > 6 {
		return false
	}
	switch t.Op {
	case "concat":
		return in.extends(t.Args[0], base, d+1)
	case "lv":
		rec, j := in.lvFind(t)
		if rec == nil || !in.extends(rec.lvs[j].init, base, d+1) {
			return false
		}
		for _, s := range rec.lvs[j].steps {
			if !in.extends(s.next, rec.lvs[j].lv, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// holdsKey: a list of keys has the given one, or one of the same address.
func (k K) holdsKey(keys, kc *Term) bool {
	pkh, priv := F(kc, "PublicKeyHash"), F(kc, "PrivateKey")
	var in func(t *Term) bool
	in = func(t *Term) bool {
		switch t.Op {
		case "list":
			for _, e := range t.Args {
				if e == kc || k.same(F(e, "PublicKeyHash"), pkh) && k.same(F(e, "PrivateKey"), priv) {
					return true
				}
			}
		case "concat":
			for _, a := range t.Args {
				if in(a) {
					return true
				}
			}
		}
		return false
	}
	if in(keys) {
		return true
	}
	for f := range k.st.facts {
		if f.Op != "eq" {
			continue
		}
		for i := range f.Args {
			a := f.Args[i]
			if f.Args[1-i] != pkh || a.Op != "fld" && a.Op != "field" || len(a.Args) != 1 || a.Args[0].Op != "elem" {
				continue
			}
			e := a.Args[0]
			if k.in.extends(keys, e.Args[0], 0) && F(e, "PublicKeyHash") == a && k.has(mkLt(e.Args[1], mkLen(e.Args[0]), false)) {
				return true
			}
		}
	}
	return false
}

// holdsEach: a list of keys has every one of another list.
func (k K) holdsEach(keys, from *Term) bool {
	if l, ok := listElems(from); ok {
		for _, e := range l {
			if !k.holdsKey(keys, e) {
				return false
			}
		}
		return true
	}
	ok := false
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case "concat":
			for _, a := range t.Args {
				walk(a)
			}
		case "lv":
			rec, j := k.in.lvFind(t)
			if rec == nil || rec.dom == nil || !k.same(rec.dom, mkLen(from)) || len(rec.lvs[j].steps) == 0 {
				return
			}
			all := true
			l := rec.lvs[j]
			for _, s := range l.steps {
				now := subst(keys, t, s.next)
				n := K{k.in, &State{s.facts, s.mem}}
				all = all && k.in.extends(s.next, l.lv, 0) && n.holdsKey(now, mkElem(from, rec.idx))
			}
			ok = ok || all
		}
	}
	if keys == from || keys.Op == "concat" && func() bool {
		for _, a := range keys.Args {
			if a == from {
				return true
			}
		}
		return false
	}() {
		return true
	}
	walk(keys)
	return ok
}

// ownAddress: the address of a key is the one of its private part.
func (k K) ownAddress(kc *Term) bool {
	m := callTerm("core.MarshalEcdsaPublic", F(kc, "PrivateKey"))
	return k.same(F(kc, "PublicKeyHash"), callTerm("core.DHashBytes", mk("res", "0", m))) && k.has(mkEq(mk("res", "1", m), tNil))
}

// savedConfig gives what a file write saves, when it is a wallet configuration.
func savedConfig(s Sink) *Term {
	t := s.args[1]
	for t.Op == "bytes" {
		t = t.Args[0]
	}
	if t.Op == "json" && strings.HasSuffix(t.Aux, "Config") {
		return t.Args[0]
	}
	return nil
}

// added gives what a list of keys holds beyond another it extends.
func (k K) added(keys, base *Term) (lists []*Term) {
	switch keys.Op {
	case "concat":
		for i, a := range keys.Args {
			if i == 0 && k.in.extends(a, base, 0) {
				lists = append(lists, k.added(a, base)...)
			} else {
				lists = append(lists, a)
			}
		}
	case "lv":
		if rec, j := k.in.lvFind(keys); rec != nil {
			for _, s := range rec.lvs[j].steps {
				if s.next.Op == "concat" {
					lists = append(lists, s.next.Args[1:]...)
				}
			}
		}
	case "list":
		if keys != base {
			lists = append(lists, keys)
		}
	}
	return
}

func isFileWrite(s Sink) bool { return s.name == "util.WriteFileAtomic" }

// keysKept: a configuration is only ever replaced by one with all of its keys, and what a command
// reports or shows was saved before.
func (c *Ctx) keysKept() {
	rule := "kept"
	w := newWire(c)
	over := c.walletOver(w)
	cmds := c.walletCommands()
	paths := map[string]*Term{}
	path := func(where string, k K, p, dev *Term, pos token.Pos) {
		for _, d := range []bool{true, false} {
			n, ok := k.with(mkEq(dev, mkBool(d)))
			if !ok || !n.has(mkEq(dev, mkBool(d))) {
				continue
			}
			p := n.in.resolve(n.st, p)
			key := fmt.Sprint(d)
			if paths[key] == nil {
				paths[key] = p
			}
			c.ob("one-file", where+": the configuration of a network is kept in one file", paths[key] == p, pos, "development network: %v; %s here, %s elsewhere", d, p, paths[key])
		}
	}
	base := F(walletConfig(), "Keys")
	writes, changes, made := 0, 0, 0
	for _, q := range cmds {
		r := c.runCommand(w, q, over)
		if !c.need("command "+q.name, r != nil) {
			continue
		}
		where := "command " + q.name
		for _, s := range r.in.sinks {
			k := s.k(r.in)
			if isFileWrite(s) {
				writes++
				v := savedConfig(s)
				c.ob(rule, where+": the only thing saved is the configuration", v != nil, s.pos, "saves %s", clip(s.args[1].String(), 300))
				if v == nil {
					continue
				}
				keys := F(v, "Keys")
				c.ob(rule, where+": what is saved has every key there was", r.in.extends(keys, base, 0), s.pos, "the keys saved are %s", clip(keys.String(), 400))
				mode, ok := isInt(s.args[2])
				c.ob("private", where+": the file is the owner's alone", ok && mode&0o077 == 0, s.pos, "its mode is %#o", mode)
				path(where, k, s.args[0], F(v, "Dev"), s.pos)
				c.ob("one-file", where+": the configuration stays that of its network", k.same(F(v, "Dev"), F(walletConfig(), "Dev")), s.pos, "Dev becomes %s", F(v, "Dev"))
				for _, l := range k.added(keys, base) {
					made++
					good := l.Op == "list"
					for _, e := range l.Args {
						e := r.in.resolve(k.st, e)
						good = good && (k.ownAddress(e) || c.matchedAll(k, e))
					}
					c.ob("matched", where+": every key added is kept under its own address", good, s.pos, "adds %s%s", clip(l.String(), 300), ifBad(good, describeFacts(s.facts)))
				}
			}
			// what is shown
			if strings.HasPrefix(s.name, "fmt.Print") || strings.HasPrefix(s.name, "fmt.Fprint") {
				for _, n := range newKeysIn(s.args) {
					ok := false
					for _, d := range dids(k, "util.WriteFileAtomic") {
						for _, x := range r.in.sinks {
							if isFileWrite(x) && x.args[1] == d.Args[1] && k.has(mkEq(x.res, tNil)) {
								if v := savedConfig(x); v != nil && k.holdsMade(F(v, "Keys"), n) {
									ok = true
								}
							}
						}
					}
					c.ob("saved-first", where+": an address is shown only once its key is saved", ok, s.pos, "shows %s%s", clip(fmt.Sprint(s.args), 300), ifBad(ok, describeFacts(s.facts)))
				}
			}
		}
		for _, o := range r.outs {
			if o.kind != "ret" {
				continue
			}
			k := r.k(o)
			v := r.in.resolve(o.st, o.vals[0])
			if k.has(mkNot(mkEq(v, tNil))) {
				continue
			}
			var now []*Term
			t := c.p.typ("cmd/bcwallet.Config")
			if !c.need("the wallet's Config", t != nil) {
				return
			}
			s := t.Underlying().(*types.Struct)
			changed := false
			for i := 0; i < s.NumFields(); i++ {
				x := r.in.resolve(o.st, r.in.loadShallow(o.st, mk("fld", s.Field(i).Name(), walletConfig())))
				now = append(now, x)
				changed = changed || x != F(walletConfig(), s.Field(i).Name())
			}
			touched := changed || len(newKeysIn(now)) > 0 || len(dids(k, "core.NewEcdsa")) > 0 || len(dids(k, "util.WriteFileAtomic")) > 0
			if !touched {
				continue
			}
			changes++
			ok := false
			for _, x := range r.in.sinks {
				if !isFileWrite(x) || !k.has(did("util.WriteFileAtomic", x.args...)) {
					continue
				}
				sv := savedConfig(x)
				if sv == nil || !(v == x.res || k.has(mkEq(x.res, tNil))) {
					continue
				}
				same := true
				for i := range now {
					same = same && F(sv, s.Field(i).Name()) == now[i]
				}
				ok = ok || same
			}
			c.ob("saved", where+": reports success only when the configuration as changed was saved", ok, o.pos, "returns %s%s", clip(v.String(), 200), ifBad(ok, r.describe(o)))
		}
		// keys read from another file are all taken over
		for _, s := range r.in.sinks {
			if !isFileWrite(s) || savedConfig(s) == nil {
				continue
			}
			k := s.k(r.in)
			for _, d := range dids(k, "os.ReadFile") {
				var from *Term
				look := func(t *Term) {
					anyTermMemo(t, func(t *Term) bool {
						if t.Op == "unjson" && anyTermMemo(t, func(x *Term) bool { return isCall(x, "os.ReadFile") && x.Args[0] == d.Args[0] }) {
							from = F(t, "Keys")
						}
						return false
					})
				}
				for f := range s.facts {
					look(f)
				}
				for _, v := range s.mem {
					look(v)
				}
				keys := F(savedConfig(s), "Keys")
				ok := from != nil && k.holdsEach(keys, from)
				c.ob("taken-over", where+": every key of a file read is saved", ok, s.pos, "saves %s of %s%s", clip(keys.String(), 300), d, ifBad(ok, describeFacts(s.facts)))
			}
		}
	}
	c.ob("coverage", "commands that save", writes >= 3 && changes >= 3 && made >= 2, 0, "%d writes, %d changes, %d keys added", writes, changes, made)
	c.walletStart(w, over, cmds, path)
	c.ob("coverage", "the files of the two networks", paths["true"] != nil && paths["false"] != nil && paths["true"] != paths["false"], 0, "%v", paths)
	if t := c.p.typ("cmd/bcwallet.Config"); t != nil {
		c.keyText(w, t)
	}
}

// matchedAll: an element of a list read from a file, every entry of which was verified.
func (c *Ctx) matchedAll(k K, e *Term) bool {
	if e.Op != "elem" {
		return false
	}
	return k.forall(mkLen(e.Args[0]), func(k K, i *Term) bool { return k.ownAddress(mkElem(e.Args[0], i)) })
}

// newKeysIn finds the keys made by this run that values tell of.
func newKeysIn(ts []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	for _, t := range ts {
		anyTerm(t, func(x *Term) bool {
			if isCall(x, "core.NewEcdsa") && !seen[x] {
				seen[x] = true
				out = append(out, mk("res", "0", x))
			}
			return false
		})
	}
	return
}

// holdsMade: a list of keys has one with the given private part, or one of the same address.
func (k K) holdsMade(keys, priv *Term) bool {
	pkh := callTerm("core.DHashBytes", mk("res", "0", callTerm("core.MarshalEcdsaPublic", priv)))
	return k.holdsKey(keys, mkStruct("KeyConfig", []string{"PublicKeyHash", "PrivateKey"}, []*Term{pkh, priv}))
}

// walletStart: what the program does before a command: an existing configuration is never
// replaced, and a command gets the configuration of its network with every key verified.
func (c *Ctx) walletStart(w *wire, over map[string]primFn, cmds []walletCmd, path func(where string, k K, p, dev *Term, pos token.Pos)) {
	if len(cmds) == 0 {
		return
	}
	f := c.p.fn("cmd/bcwallet.main")
	if !c.need("the wallet's main", f != nil) {
		return
	}
	r := c.runFn(f, runOpt{over: over, key: "start", states: 2000, opaque: []string{"client.NewWalletClient"}, setup: func(in *Interp, st *State) {
		for l, v := range cmds[0].st.mem {
			st.mem[l] = v
		}
	}})
	files := map[*Term]bool{}
	readAt := func(t *Term) *Term { // the file a configuration was read from
		if t.Op != "unjson" {
			return nil
		}
		x := t.Args[0]
		for x.Op == "bytes" {
			x = x.Args[0]
		}
		if x.Op == "res" && isCall(x.Args[0], "os.ReadFile") {
			return x.Args[0].Args[0]
		}
		return nil
	}
	n, writes := 0, 0
	for _, s := range r.in.sinks {
		k := s.k(r.in)
		if isFileWrite(s) {
			v := savedConfig(s)
			if !c.ob("kept", "start: the only thing saved is a configuration", v != nil, s.pos, "saves %s", clip(s.args[1].String(), 300)) {
				continue
			}
			writes++
			absent := false
			for f := range k.st.facts {
				if isCall(f, "os.IsNotExist") {
					anyTerm(f, func(x *Term) bool {
						if (isCall(x, "os.ReadFile") || isCall(x, "os.Stat") || isCall(x, "os.Open")) && x.Args[0] == s.args[0] {
							absent = true
						}
						return false
					})
				}
			}
			keys := F(v, "Keys")
			if keys.Op == "field" && readAt(keys.Args[0]) == s.args[0] {
				absent = true
			}
			c.ob("kept", "start: a new configuration is saved only where there is none", absent, s.pos, "saves %s in %s%s", clip(v.String(), 200), s.args[0], ifBad(absent, describeFacts(s.facts)))
			mode, ok := isInt(s.args[2])
			c.ob("private", "start: the file is the owner's alone", ok && mode&0o077 == 0, s.pos, "its mode is %#o", mode)
			path("start", k, s.args[0], F(v, "Dev"), s.pos)
			files[s.args[0]] = true
		}
	}
	for _, s := range r.in.sinks {
		if s.name != "dyn" || len(s.args) != 2 || s.args[0].Op != "field" && s.args[0].Op != "fld" {
			continue
		}
		n++
		k := s.k(r.in)
		cfg := F(s.args[1], "Config")
		keys := F(cfg, "Keys")
		p := readAt(cfg)
		c.ob("one-file", "start: a command gets the configuration in the file of its network", p != nil && files[p], s.pos, "it gets %s", clip(cfg.String(), 300))
		ok := k.forall(mkLen(keys), func(k K, i *Term) bool { return k.ownAddress(mkElem(keys, i)) })
		c.ob("matched", "start: a command runs only once every key read was verified", ok, s.pos, "%s", ifBad(ok, describeFacts(s.facts)))
		cmd := s.args[0].Args[0]
		ok = k.has(mkNot(F(cmd, "RequiresClient"))) || k.has(mkNot(mkEq(F(s.args[1], "Client"), tNil)))
		c.ob("ready", "start: a command that needs a node gets one", ok, s.pos, "%s", ifBad(ok, describeFacts(s.facts)))
		ok = k.has(mkNot(mkLt(mkLen(F(s.args[1], "Args")), F(cmd, "RequiredArgs"), false)))
		c.ob("ready", "start: a command gets the arguments it needs", ok, s.pos, "%s", ifBad(ok, describeFacts(s.facts)))
	}
	c.ob("coverage", "start of the wallet", n > 0 && writes > 0 && len(files) == 2, f.Pos(), "%d commands run, %d files made", n, len(files))
}

// keyText: a configuration is read back as it was saved.
func (c *Ctx) keyText(w *wire, t types.Type) {
	key := mkSym("key")
	c.contract("key-text", "pkg/core.MarshalEcdsaPrivate", "gives the standard encoding of the key", runOpt{args: []*Term{key}, inline: []string{"core.MarshalEcdsaPrivate"}}, func(r *runRes, k K, v []*Term) bool {
		x := callTerm("x509.MarshalECPrivateKey", key)
		return len(v) == 2 && v[0] == mk("res", "0", x) && v[1] == mk("res", "1", x) || len(v) == 2 && k.has(mkNot(mkEq(v[1], tNil)))
	})
	der := mkSym("der")
	c.contract("key-text", "pkg/core.ParseECDSAPrivate", "reads the standard encoding of a key", runOpt{args: []*Term{der}, inline: []string{"core.ParseECDSAPrivate"}}, func(r *runRes, k K, v []*Term) bool {
		x := callTerm("x509.ParseECPrivateKey", der)
		return len(v) == 2 && v[0] == mk("res", "0", x) && (v[1] == mk("res", "1", x) || k.same(mk("res", "1", x), tNil) && k.same(v[1], tNil))
	})
	old := prims["core.ParseECDSAPrivate"]
	w.more["core.ParseECDSAPrivate"] = func(cc *callCtx) []callRes {
		if d := cc.val(0); d.Op == "res" && d.Aux == "0" && isCall(d.Args[0], "core.MarshalEcdsaPrivate") {
			return okPair(cc, d.Args[0].Args[0])
		}
		return old(cc)
	}
	w.faithful(t, map[string]bool{})
}

// keySecret: private keys leave the program only into the configuration file.
func (c *Ctx) keySecret() {
	t := newTaint(c.p)
	n := 0
	for _, f := range c.p.funcs() {
		wallet := f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "cmd/bcwallet")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() == nil {
					continue
				}
				switch nm := shortName(ci.Call.StaticCallee()); {
				case nm == "ecdsa.GenerateKey", nm == "x509.ParseECPrivateKey", wallet && (nm == "os.ReadFile" || nm == "io.ReadAll"):
					for _, r := range *ci.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
							n++
							t.add(x)
						}
					}
				}
			}
		}
	}
	fields := 0
	isKey := func(t types.Type) bool { return typeStr(t) == "*ecdsa.PrivateKey" || typeStr(t) == "ecdsa.PrivateKey" }
	for _, q := range c.p.All {
		sc := q.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if isKey(s.Field(i).Type()) || s.Field(i).Name() == "PrivateKey" {
						fields++
						t.addField(tn.Type(), i)
					}
				}
			}
		}
	}
	// the secret number itself
	for _, f := range c.p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isKey(fa.X.Type()) {
					if s, _ := structOf(fa.X.Type()); s != nil && s.Field(fa.Field).Name() == "D" {
						t.add(fa)
					}
				}
			}
		}
	}
	ends := map[string]bool{"ecdsa.SignASN1": true, "ecdsa.Sign": true, "ecdsa.PrivateKey.Public": true, "ecdsa.PrivateKey.Sign": true, "ecdsa.PrivateKey.Equal": true, "big.Int.Cmp": true}
	codecs := map[string]bool{"x509.MarshalECPrivateKey": true, "x509.ParseECPrivateKey": true, "x509.MarshalPKCS8PrivateKey": true, "x509.ParsePKCS8PrivateKey": true,
		"json.Marshal": true, "json.MarshalIndent": true, "json.Unmarshal": true, "hex.EncodeToString": true, "hex.DecodeString": true, "base64.Encoding.EncodeToString": true, "base64.Encoding.DecodeString": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "json.NewDecoder": true, "json.Decoder.Decode": true}
	t.passes = func(name string) bool { return !ends[name] }
	uses := t.run()
	for _, u := range uses {
		ok := ends[u.name] || codecs[u.name]
		if strings.HasPrefix(u.name, "os.File.Write") && onlyFrom(c.p, u.in, "WriteFileAtomic") {
			ok = true // what is written where is judged by the rules on saving
		}
		c.ob("secret", shortName(u.in)+" gives a private key to "+u.name, ok, u.pos, "a private key reaches %s", u.name)
	}
	c.ob("coverage", "where private keys come from", n >= 2 && fields >= 2, token.NoPos, "%d calls, %d fields", n, fields)
	c.ob("coverage", "places private keys reach", len(t.vals) > 40 && len(uses) >= 5, token.NoPos, "followed through %d values to %d uses", len(t.vals), len(uses))
}

// fileMode: files are made with the mode asked for.
func (c *Ctx) fileMode() {
	f := c.p.fn("pkg/util.WriteFileAtomic")
	if !c.need("util.WriteFileAtomic", f != nil && len(f.Params) == 3) {
		return
	}
	args := []*Term{mkSym("path"), mkSym("data"), mkSym("perm")}
	r := c.runFn(f, runOpt{args: args, inline: []string{"util.WriteFileAtomic"}, key: "mode"})
	n := 0
	for _, s := range r.in.sinks {
		switch s.name {
		case "os.OpenFile":
			n++
			c.ob("private", "WriteFileAtomic: the file is made with the mode asked for", s.args[2] == args[2], s.pos, "it is made with %s", s.args[2])
		case "os.Create", "os.Chmod", "os.File.Chmod", "os.WriteFile":
			c.ob("private", "WriteFileAtomic: the file keeps the mode asked for", s.args[len(s.args)-1] == args[2], s.pos, "%s", s.name)
		}
	}
	c.ob("coverage", "the mode of saved files", n > 0, f.Pos(), "%d places", n)
}

func init() {
	register("C21",
		"every command of the wallet's table and the program's start are analysed for any configuration: each file written is the configuration, at its network's path, for the owner only, with every key there was; success and addresses are shown only after saving; what is added is verified; the configuration's text is composed with its reading; private keys are followed to every place they can reach",
		[]string{"x509.ParseECPrivateKey undoes x509.MarshalECPrivateKey", "encoding/json decodes what it encoded for structs whose fields are exported and named apart", "the current user does not change while the program runs"}, func(c *Ctx) {
			c.keysKept()
			c.keySecret()
			c.fileMode()
			c.atLeast("kept", 5)
			c.atLeast("saved", 3)
			c.atLeast("saved-first", 1)
			c.atLeast("matched", 4)
			c.atLeast("secret", 5)
		})
}
