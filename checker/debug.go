package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// shared prints a list of terms with long repeated subterms named once.
func shared(ts []*Term) (out []string, defs []string) {
	cnt := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	var cand []*Term
	for t, n := range cnt {
		if n > 1 && len(t.String()) > 30 {
			cand = append(cand, t)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return len(cand[i].String()) < len(cand[j].String()) })
	type nm struct{ s, n string }
	var names []nm
	abbr := func(s string) string {
		for i := len(names) - 1; i >= 0; i-- {
			s = strings.ReplaceAll(s, names[i].s, names[i].n)
		}
		return s
	}
	for i, t := range cand {
		n := fmt.Sprintf("«%d»", i)
		defs = append(defs, n+" = "+abbr(t.String()))
		names = append(names, nm{t.String(), n})
	}
	for _, t := range ts {
		out = append(out, abbr(t.String()))
	}
	return
}

func debugFn(p *Prog, names []string) {
	f := p.fn(names[0])
	if f == nil {
		for _, g := range p.funcs() {
			if strings.HasSuffix(g.String(), "/"+names[0]) {
				f = g
			}
		}
	}
	if f == nil {
		fmt.Println("no function", names[0])
		return
	}
	in := newInterp(p)
	all, sinks := false, false
	at := ""
	for _, n := range names[1:] {
		switch {
		case n == "-conn":
			in.over = connOver(p)
		case n == "-all":
			all = true
		case n == "-sinks":
			sinks = true
		case strings.HasPrefix(n, "-at="):
			at = n[4:]
		case n[0] == '+':
			in.doInline[n[1:]] = true
		default:
			in.noInline[n] = true
		}
	}
	st := newState()
	var args []*Term
	for _, q := range f.Params {
		args = append(args, mkSym(q.Name()))
	}
	outs := in.exec(f, args, nil, st, "r")
	dump(p, in, outs, all, sinks, at)
}

func dump(p *Prog, in *Interp, outs []Outcome, all, sinks bool, at string) {
	for _, o := range outs {
		if !all && (o.kind != "ret" || len(o.vals) > 0 && o.vals[len(o.vals)-1].Op == "nonnil") {
			fmt.Println("=== (other)", o.kind, p.pos(o.pos))
			continue
		}
		fmt.Println("=== OUTCOME", o.kind, p.pos(o.pos))
		var ts []*Term
		for _, v := range o.vals {
			ts = append(ts, in.resolve(o.st, v))
		}
		n := len(ts)
		var fs []*Term
		for f := range o.st.facts {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		ts = append(ts, fs...)
		var ks []*Term
		for k := range o.st.mem {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		m := len(ts)
		for _, k := range ks {
			ts = append(ts, o.st.mem[k])
		}
		ss, defs := shared(ts)
		for _, d := range defs {
			fmt.Println("   def", d)
		}
		for i, s := range ss {
			switch {
			case i < n:
				fmt.Println("   val", s)
			case i < m:
				fmt.Println("   fact", s)
			default:
				fmt.Println("   mem", ks[i-m], ":=", s)
			}
		}
	}
	if at != "" {
		for _, q := range in.sinks {
			if strings.HasSuffix(p.pos(q.pos), at) {
				fmt.Println("  SINK", q.kind, q.name, q.args, q.stack, describeFacts(q.facts))
			}
		}
	}
	if os.Getenv("BC_LV") != "" {
		for _, r := range in.recs {
			for _, l := range r.lvs {
				if len(l.steps) > 0 && l.lv.Op == "lv" {
					fmt.Println("LV", l.lv, "init", l.init)
					for _, q := range l.steps {
						fmt.Println("    next", q.next)
					}
				}
			}
		}
	}
	fmt.Println("sinks:", len(in.sinks), "execs", in.execs, "steps", in.steps, "overflow", in.overflow)
	if sinks {
		for _, s := range in.sinks {
			fmt.Fprintln(os.Stdout, "  sink", s.kind, s.name, s.args, p.pos(s.pos))
		}
	}
}
