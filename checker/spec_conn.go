package main

// What a connection does with failures: nothing read short, nothing written short and no mismatch
// ever passes for success, and a connection that failed stays silent until its error is taken.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var connC = mkSym("c")

// connMethods gives the exported methods of a connection, by name.
func (p *Prog) connMethods() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range p.funcs() {
		if f.Signature.Recv() == nil || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		if n, ok := deref(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Name() == "Conn" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "prot" {
			out[f.Name()] = f
		}
	}
	return out
}

func sortedNames[V any](m map[string]V) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// netOver notes the error of every operation on the network.
func netOver() map[string]primFn {
	note := func(c *callCtx) []callRes {
		call := callTerm(c.name, append(append([]*Term(nil), c.vals(0)...), c.site())...)
		out := c.external()
		for _, r := range out {
			c.in.did(r.ps.st, "net", mk("res", "1", call))
		}
		return out
	}
	return map[string]primFn{"io.ReadFull": note, "net.conn.Write": note, "net.conn.Read": note, "net.TCPConn.Write": note, "net.TCPConn.Read": note}
}

// contractConn checks the methods of a connection against the model its callers are judged over.
func (c *Ctx) contractConn() {
	ms := c.p.connMethods()
	for _, n := range sortedNames(ms) {
		f := ms[n]
		var args []*Term
		for _, p := range f.Params {
			args = append(args, mkSym(p.Name()))
		}
		args[0] = connC
		err0 := mkField(connC, "err")
		opt := runOpt{args: args, over: netOver(), key: "net", states: 96}
		was := mkNot(mkEq(err0, tNil))
		name := "pkg/prot.Conn." + n
		end := func(r *runRes, k K) *Term { return r.in.resolve(k.st, r.in.load(k.st, err0, nil)) }
		switch {
		case strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Write"):
			r := c.contract("failure", name, "reports every failure, and does nothing once failed", opt, func(r *runRes, k K, v []*Term) bool {
				net := k.dids("net")
				if k.has(was) {
					return len(net) == 0 && end(r, k) == err0
				}
				if !k.has(mkEq(err0, tNil)) {
					return false
				}
				return k.reported(end(r, k), nil, 0)
			})
			if r == nil {
				continue
			}
			reads := 0
			for _, q := range r.in.sinks {
				if strings.HasSuffix(q.name, ".Read") && strings.HasPrefix(q.name, "net.") {
					c.ob("failure", name+": reads exactly what it asks for", false, q.pos, "%s may return less", q.name)
				}
				if q.name == "io.ReadFull" || q.name == "net.conn.Write" || q.name == "net.TCPConn.Write" {
					reads++
				}
			}
			c.ob("failure", name+": uses the network", reads > 0, f.Pos(), "%d operations", reads)
			// what is read for an id has that id
			if len(args) == 2 && isNamed(f.Params[1].Type(), "HashT") && f.Signature.Results().Len() == 1 {
				c.contract("verified", name, "returns without an error only what hashes to the id asked for", opt, func(r *runRes, k K, v []*Term) bool {
					if e := end(r, k); k.has(mkNot(mkEq(e, tNil))) {
						return true
					}
					t := "core." + typeName(f.Signature.Results().At(0).Type()) + ".Hash"
					return k.same(callTerm(t, v[0]), args[1])
				})
			}
		case n == "HasErr":
			c.contract("failure", name, "tells whether it failed", opt, func(r *runRes, k K, v []*Term) bool {
				return k.iff(v[0], was) && end(r, k) == err0
			})
		case n == "Err":
			c.contract("failure", name, "gives the error and clears it", opt, func(r *runRes, k K, v []*Term) bool {
				return v[0] == err0 && end(r, k) == tNil
			})
		case n == "TimeoutErrOrPanic":
			r := c.contract("failure", name, "gives the error if there is none or time ran out, and clears it", opt, func(r *runRes, k K, v []*Term) bool {
				late := k.has(mkEq(err0, tNil))
				for f := range k.st.facts {
					late = late || isCall(f, "os.IsTimeout") && f.Args[0] == err0
				}
				return k.same(v[0], err0) && end(r, k) == tNil && late
			})
			if r != nil {
				bad := 0
				for _, o := range r.outs {
					if o.kind == "panic" && !r.k(o).has(was) {
						bad++
					}
				}
				c.ob("failure", name+": panics only if it failed", bad == 0, f.Pos(), "%d other panics", bad)
			}
		case n == "PeerRuntimeId" || n == "WeAreInitiator" || n == "LocalAddr":
			r := c.contract("failure", name, "changes nothing", opt, func(r *runRes, k K, v []*Term) bool {
				return end(r, k) == err0
			})
			if r != nil {
				for _, q := range r.in.sinks {
					if q.kind == "store" {
						c.ob("failure", name+": changes nothing", false, q.pos, "it stores to %s", q.args[0])
					}
				}
			}
		}
	}
}

// reported: this error is nil only if every operation on the network succeeded (of those of one step of a loop, if given).
func (k K) reported(e, in *Term, depth int) bool {
	return k.reportedBut(e, in, map[string]bool{}, depth)
}

func (k K) reportedBut(e, in *Term, within map[string]bool, depth int) bool {
	if k.has(mkNot(mkEq(e, tNil))) {
		return true
	}
	// an error carried through a loop stays once it is there
	if e.Op == "lv" {
		recs := k.lvRecs(e)
		if len(recs) == 0 || depth > 8 {
			return false
		}
		for _, c := range recs {
			l := c.rec.lvs[c.j]
			kept := mkNot(mkEq(l.lv, tNil))
			w := map[string]bool{}
			for n := range within {
				w[n] = true
			}
			for _, s := range l.steps {
				at := K{k.in, &State{s.facts, s.mem}}
				switch {
				case at.has(kept):
					if s.next != l.lv && !at.has(mkNot(mkEq(s.next, tNil))) {
						return false
					}
				case s.next == l.lv:
					if !at.reported(tNil, c.rec.idx, depth+1) {
						return false
					}
				default:
					if !at.reported(s.next, c.rec.idx, depth+1) {
						return false
					}
				}
				for _, d := range at.dids("net") {
					if occursIn(d.args[0], c.rec.idx) {
						w[siteOf(d.args[0])] = true
					}
				}
			}
			if !k.reportedBut(l.init, in, w, depth+1) {
				return false
			}
		}
		return true
	}
	for _, d := range k.dids("net") {
		ok := within[siteOf(d.args[0])] || in != nil && !occursIn(d.args[0], in)
		for _, f := range d.beside {
			ok = ok || f == mkEq(d.args[0], tNil)
		}
		if !ok {
			return false
		}
	}
	return true
}

type lvAt struct {
	rec *loopRec
	j   int
}

// lvRecs gives the runs of a loop that may have led here with this variable.
func (k K) lvRecs(t *Term) []lvAt {
	var all, fit []lvAt
	for i := range k.in.recs {
		r := &k.in.recs[i]
		for j := range r.lvs {
			l := r.lvs[j].lv
			if l.Op != "lv" || l.Aux != t.Aux || len(l.Args) != len(t.Args) || len(l.Args) > 1 && l.Args[1] != t.Args[1] {
				continue
			}
			all = append(all, lvAt{r, j})
			ok := true
			for f := range r.entry() {
				ok = ok && k.st.facts[f]
			}
			if ok {
				fit = append(fit, lvAt{r, j})
			}
		}
	}
	if len(fit) > 0 {
		return fit
	}
	return all
}

// entry gives what was known before a loop was entered.
func (r *loopRec) entry() map[*Term]bool {
	own := map[*Term]bool{r.idx: true}
	for _, l := range r.lvs {
		own[l.lv] = true
	}
	var out map[*Term]bool
	for _, l := range r.lvs {
		for _, s := range l.steps {
			n := map[*Term]bool{}
			for f := range s.facts {
				if (out == nil || out[f]) && f.Op != "did" && !anyTermMemo(f, func(x *Term) bool { return own[x] }) {
					n[f] = true
				}
			}
			out = n
		}
		if out != nil {
			break
		}
	}
	return out
}

// siteOf gives the place of the call a result comes from.
func siteOf(res *Term) string {
	if a := res.Args[0].Args; len(a) > 0 {
		return a[len(a)-1].Aux
	}
	return ""
}

func isNamed(t types.Type, name string) bool { return typeName(t) == name }

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
