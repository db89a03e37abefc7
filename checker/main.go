package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func dumpFields(p *Prog) {
	for _, q := range p.All {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := map[string][]string{}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				m[typeStr(f.Type())] = append(m[typeStr(f.Type())], f.Name())
			}
			var ks []string
			for k := range m {
				if len(m[k]) == 1 && !token_exported(m[k][0]) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			if len(ks) == 0 {
				continue
			}
			fmt.Printf("\t%q: {\n", q.Name+"."+n)
			for _, k := range ks {
				fmt.Printf("\t\t%q: %q,\n", k, m[k][0])
			}
			fmt.Printf("\t},\n")
		}
	}
}

func token_exported(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

type known struct{ prop, rule, construct, text string }

// loadKnown reads the committed list of known findings:
//
//	KNOWN property=<id> rule=<rule> construct=<construct> :: <what fails>
//
// "fixed:" lines suppress nothing.
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		head, text, ok := strings.Cut(strings.TrimPrefix(l, "KNOWN "), " :: ")
		if !ok {
			continue
		}
		var k known
		k.text = text
		i := strings.Index(head, " rule=")
		j := strings.Index(head, " construct=")
		if i < 0 || j < 0 {
			continue
		}
		k.prop = strings.TrimPrefix(head[:i], "property=")
		k.rule = head[i+len(" rule=") : j]
		k.construct = head[j+len(" construct="):]
		out = append(out, k)
	}
	return out
}

type check struct {
	id      string
	run     func(c *Ctx)
	explain string
	assume  []string
}

var checks = map[string]*check{}

func register(id, explain string, assume []string, run func(c *Ctx)) {
	checks[id] = &check{id, run, explain, assume}
}

func runCheck(p *Prog, ch *check) (c *Ctx) {
	c = &Ctx{p: p, id: ch.id, roots: map[string]bool{}, stats: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			c.ob("analysis", "completes", false, 0, "the analysis could not be completed: %v\n%s", r, debug.Stack())
		}
	}()
	ch.run(c)
	return c
}

func main() {
	repo := os.Getenv("BC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	out := os.Getenv("BC_OUT")
	if out == "" {
		out = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: bccheck <property>|fields|<function>")
		os.Exit(2)
	}
	if n := os.Getenv("BC_PROF"); n != "" {
		f, _ := os.Create(n)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := load(repo)
	arg := os.Args[1]
	if arg == "fields" || strings.Contains(arg, ".") {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if arg == "fields" {
			dumpFields(p)
		} else {
			debugFn(p, os.Args[1:])
		}
		return
	}
	var ids []string
	if arg == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = os.Args[1:]
	}
	bad := false
	for _, id := range ids {
		if id[0] == '-' {
			continue
		}
		ch := checks[id]
		if ch == nil {
			fmt.Println("no such check:", id)
			os.Exit(2)
		}
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		var c *Ctx
		if err != nil {
			c = &Ctx{p: &Prog{Dir: repo}, id: id, roots: map[string]bool{}, stats: map[string]int{}}
			c.obs = append(c.obs, Ob{Rule: "load", Construct: "the repository type-checks", Detail: err.Error(), Pos: "?"})
		} else {
			c = runCheck(p, ch)
		}
		if !report(c, ch, out, t1) {
			bad = true
		}
	}
	if bad {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

func report(c *Ctx, ch *check, out string, t0 time.Time) bool {
	kn := loadKnown(filepath.Join(out, "known_findings.txt"))
	// one obligation per rule and construct
	type agg struct {
		Ob
		n int
	}
	m := map[string]*agg{}
	var order []string
	for _, o := range c.obs {
		k := o.Rule + "\x00" + o.Construct
		a := m[k]
		if a == nil {
			a = &agg{Ob: o}
			m[k] = a
			order = append(order, k)
		} else if a.OK && !o.OK {
			a.Ob = o
		}
		a.n++
	}
	var viol []*agg
	discharged, knownN := 0, 0
	rules := map[string]int{}
	for _, k := range order {
		a := m[k]
		rules[a.Rule]++
		if a.OK {
			discharged++
			continue
		}
		for _, x := range kn {
			if x.prop == c.id && x.rule == a.Rule && x.construct == a.Construct {
				a.Known = x.text
			}
		}
		if a.Known != "" {
			knownN++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, a.Known)
			continue
		}
		viol = append(viol, a)
	}
	var samples []map[string]string
	step := len(order)/12 + 1
	for i, k := range order {
		a := m[k]
		if i%step == 0 || !a.OK {
			samples = append(samples, map[string]string{"rule": a.Rule, "construct": a.Construct, "where": a.Pos, "result": map[bool]string{true: "holds", false: "fails"}[a.OK]})
		}
	}
	var roots []string
	for r := range c.roots {
		roots = append(roots, r)
	}
	sort.Strings(roots)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"obligations":       len(order),
		"discharged":        discharged,
		"known_findings":    knownN,
		"instances":         len(c.obs),
		"rules":             rules,
		"functions_entered": roots,
		"analysed":          c.stats,
		"samples":           samples,
		"explanation":       ch.explain,
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": append(append([]string{}, commonAssume...), append(ch.assume, c.assume...)...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	if len(viol) == 0 {
		os.Remove(filepath.Join(out, "evidence", "replay", c.id+".txt"))
		fmt.Printf("%s: %d obligations, %d discharged, %d known; %.1fs\n", c.id, len(order), discharged, knownN, time.Since(t0).Seconds())
		return true
	}
	os.MkdirAll(filepath.Join(out, "evidence", "replay"), 0o755)
	path := filepath.Join(out, "evidence", "replay", c.id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violated obligation(s); re-run with: /verif/run.sh %s\n\n", c.id, len(viol), c.id)
	for _, a := range viol {
		fmt.Fprintf(&sb, "rule %s\nconstruct %s\nat %s\n%s\n\n", a.Rule, a.Construct, a.Pos, a.Detail)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, a := range viol {
		if i == 10 {
			fmt.Printf("  ... and %d more\n", len(viol)-10)
			break
		}
		fmt.Printf("  [%s] %s (%s)\n", a.Rule, clip(a.Construct, 300), a.Pos)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
	return false
}

var commonAssume = []string{
	"the Go type checker and golang.org/x/tools/go/ssa represent the program faithfully",
	"the standard library behaves as documented; sha256 and ECDSA P-256 are not broken",
	"facts about memory rest on the ownership rules that C10 and C11 check (one writer per structure)",
}
