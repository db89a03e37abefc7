package main

// Saving survives a crash at any point (C13): a file that matters is only ever replaced whole.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileOps: what changes a file, and which arguments are paths.
var fileOps = map[string]bool{
	"os.WriteFile": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "os.Rename": true,
	"os.Remove": true, "os.RemoveAll": true, "os.Truncate": true, "os.Link": true, "os.Symlink": true,
	"ioutil.WriteFile": true, "ioutil.TempFile": true, "os.CopyFS": true, "syscall.Rename": true, "syscall.Unlink": true, "syscall.Open": true,
}

// fileWriters lists the repo functions that change files, topmost in their package.
func (c *Ctx) fileWriters() map[*ssa.Function][]string {
	g := c.p.graph()
	out := map[*ssa.Function][]string{}
	for _, f := range c.p.funcs() {
		var ops []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && fileOps[shortName(cal)] {
						if shortName(cal) == "os.OpenFile" {
							if k, ok := ci.Common().Args[1].(*ssa.Const); ok && k.Int64()&3 == 0 {
								continue // read only
							}
						}
						ops = append(ops, shortName(cal))
					}
				}
			}
		}
		if len(ops) == 0 {
			continue
		}
		// climb to where the package is entered
		seen := map[*ssa.Function]bool{}
		var climb func(x *ssa.Function)
		climb = func(x *ssa.Function) {
			if seen[x] {
				return
			}
			seen[x] = true
			up := false
			if x.Parent() != nil {
				up = true
				climb(x.Parent())
			} else if x.Object() == nil || !x.Object().Exported() {
				for _, e := range g.in[x] {
					if e.from.Pkg == x.Pkg && e.from != x {
						up = true
						climb(e.from)
					}
				}
			}
			if !up {
				out[x] = append(out[x], ops...)
			}
		}
		climb(f)
	}
	return out
}

// replacedWhole checks the order of file operations on every path of a function that changes files.
func (c *Ctx) replacedWhole(f *ssa.Function) (dests int) {
	rule := "replaced-whole"
	name := shortName(f)
	r := c.runFn(f, runOpt{inline: []string{name}, key: "files"})
	var dst []*Term
	tmp := map[*Term]*Term{}
	for _, s := range r.in.sinks {
		if s.name == "os.Rename" {
			dst = append(dst, s.args[1])
			tmp[s.args[0]] = s.args[1]
		}
	}
	opened := func(t *Term) *Term { // the path a file was opened at
		if t.Op == "res" && (isCall(t.Args[0], "os.OpenFile") || isCall(t.Args[0], "os.Create")) {
			return t.Args[0].Args[0]
		}
		if t.Op == "res" && isCall(t.Args[0], "os.CreateTemp") || isCall(t, "os.File.Name") {
			return t
		}
		return nil
	}
	errOf := func(q Sink) *Term {
		switch q.name {
		case "os.File.Write", "os.File.WriteString", "os.OpenFile", "os.Create":
			return mk("res", "1", q.res)
		}
		return q.res
	}
	okOf := func(k K, name string, file *Term, pred func(q Sink) bool) bool {
		for _, q := range r.in.sinks {
			if q.name == name && len(q.args) > 0 && q.args[0] == file && pred(q) && k.has(mkEq(errOf(q), tNil)) {
				return true
			}
		}
		return false
	}
	any := func(Sink) bool { return true }
	for _, s := range r.in.sinks {
		k := s.k(r.in)
		switch s.name {
		case "os.WriteFile", "ioutil.WriteFile", "os.Truncate", "os.Link", "os.Symlink", "os.RemoveAll":
			c.ob(rule, name+": no file is written in place", false, s.pos, "%s %s: a crash in the middle leaves part of it", s.name, clip(s.args[0].String(), 200))
		case "os.OpenFile", "os.Create":
			p := s.args[0]
			d := tmp[p]
			ok := d != nil && d != p && besides(p, d)
			why := "it is not renamed to anything"
			if d != nil {
				why = fmt.Sprintf("it is renamed to %s", clip(d.String(), 200))
			}
			c.ob(rule, name+": what is written is a temporary file beside the one it replaces", ok, s.pos, "opens %s; %s", clip(p.String(), 200), why)
			if s.name == "os.OpenFile" {
				fl, ok := isInt(s.args[1])
				ok = ok && fl&0x400 == 0 && (fl&0x80 != 0 || fl&0x200 != 0) // O_APPEND; O_EXCL or O_TRUNC
				c.ob(rule, name+": the temporary file starts empty", ok, s.pos, "flags %#x", fl)
			}
		case "os.Remove":
			ok := true
			for _, d := range dst {
				ok = ok && s.args[0] != d
			}
			ok = ok && tmp[s.args[0]] != nil
			c.ob(rule, name+": only a temporary file is removed", ok, s.pos, "removes %s", clip(s.args[0].String(), 200))
		case "os.File.Sync":
			ok := okOf(k, "os.File.Write", s.args[0], any) || okOf(k, "os.File.WriteString", s.args[0], any)
			c.ob(rule, name+": synced after it was written", ok, s.pos, "Sync before the content is written%s", ifBad(ok, describeFacts(s.facts)))
		case "os.File.Write", "os.File.WriteString":
			ok := true
			for _, x := range []string{"os.File.Sync", "os.File.Close"} {
				ok = ok && !k.has(did(x, s.args[0]))
			}
			c.ob(rule, name+": nothing is written after syncing or closing", ok, s.pos, "%s", s.name)
		case "os.Rename":
			dests++
			src, d := s.args[0], s.args[1]
			good := false
			var data *Term
			for _, q := range r.in.sinks {
				file := q.res
				if q.name != "os.OpenFile" && q.name != "os.Create" || q.args[0] != src {
					continue
				}
				file = mk("res", "0", q.res)
				if opened(file) != src || !k.has(mkEq(errOf(q), tNil)) {
					continue
				}
				wrote := okOf(k, "os.File.Write", file, func(w Sink) bool { data = w.args[1]; return true }) ||
					okOf(k, "os.File.WriteString", file, func(w Sink) bool { data = w.args[1]; return true })
				n := 0
				for _, w := range r.in.sinks {
					if strings.HasPrefix(w.name, "os.File.Write") && w.args[0] == file {
						n++
						if w.args[1].Op == "slice" {
							wrote = false
						}
					}
				}
				good = wrote && n >= 1 && okOf(k, "os.File.Sync", file, any) && okOf(k, "os.File.Close", file, any)
			}
			c.ob(rule, name+": renamed only once written, synced and closed without error", good, s.pos, "renames %s to %s%s", clip(src.String(), 200), clip(d.String(), 200), ifBad(good, describeFacts(s.facts)))
			if f.Name() == "WriteFileAtomic" && data != nil {
				ps := r.args
				ok := len(ps) >= 2 && d == ps[0] && stripBytes(data) == ps[1]
				c.ob(rule, name+": the content given goes to the path given", ok, s.pos, "writes %s to %s", clip(data.String(), 200), clip(d.String(), 200))
			}
		}
	}
	// success means replaced
	if len(dst) > 0 {
		for _, o := range r.outs {
			if o.kind != "ret" || len(o.vals) == 0 {
				continue
			}
			k := r.k(o)
			v := r.in.resolve(o.st, o.vals[len(o.vals)-1])
			ok := k.has(mkNot(mkEq(v, tNil)))
			for _, q := range r.in.sinks {
				if q.name == "os.Rename" && (v == q.res || k.has(mkEq(q.res, tNil))) {
					ok = true
				}
			}
			c.ob(rule, name+": success is reported only when the file was replaced", ok, o.pos, "returns %s%s", clip(v.String(), 200), ifBad(ok, r.describe(o)))
		}
	}
	return dests
}

// besides: a path in the same directory as another, and never the same.
func besides(p, d *Term) bool {
	if p.Op == "cat" && p.Args[0] == d {
		for _, a := range p.Args[1:] {
			if a.Op == "str" && strings.Contains(unq(a), "/") {
				return false
			}
		}
		last := p.Args[len(p.Args)-1]
		return last.Op == "str" && unq(last) != ""
	}
	return p.Op == "cat" && d.Op == "cat" && mkAll(p.Args, func(i int, a *Term) bool {
		return i < len(d.Args) && a == d.Args[i] || i == len(p.Args)-1 && a.Op == "str" && !strings.Contains(unq(a), "/") && unq(a) != ""
	}) && len(p.Args) == len(d.Args)+1
}

func mkAll(l []*Term, f func(i int, a *Term) bool) bool {
	for i, a := range l {
		if !f(i, a) {
			return false
		}
	}
	return true
}

func init() {
	register("C13", "Every function of the module that changes a file is found through the call graph and each of its paths is checked against the protocol: write a temporary file beside the target, sync, close, and only then rename it over the target. What is saved is checked to refer only to what was saved before it.",
		[]string{"rename within a directory replaces a file atomically", "a file that was synced and closed without error is complete"}, func(c *Ctx) {
			ws := c.fileWriters()
			n := 0
			for f := range ws {
				n += c.replacedWhole(f)
			}
			c.ob("coverage", "functions that replace files", n >= 1, 0, "%d renames in %d functions", n, len(ws))
			c.savedInOrder()
		})
}

// savedInOrder: what a saved file refers to was saved before it.
func (c *Ctx) savedInOrder() {
	rule := "saved-before"
	g := c.p.graph()
	// storing in the disk map writes the file before it returns
	for _, n := range []string{"pkg/disksyncmap.DiskSyncMap.Store", "internal/inv.Inv.StoreBlock", "internal/inv.Inv.StoreMerkle", "internal/inv.Inv.StoreTx"} {
		f := c.p.fn(n)
		if !c.need(n, f != nil) {
			continue
		}
		bad := ""
		for x := range g.reach([]*ssa.Function{f}, nil) {
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.Go:
						bad = shortName(x) + " starts a goroutine"
					case *ssa.Send:
						bad = shortName(x) + " sends on a channel"
					}
				}
			}
		}
		c.ob(rule, shortName(f)+": has written its file when it returns", bad == "", f.Pos(), "%s", bad)
	}
	r := c.run("pkg/disksyncmap.DiskSyncMap.Store", runOpt{args: []*Term{mkSym("d"), mkSym("key"), mkSym("val")}, inline: []string{"disksyncmap.DiskSyncMap.Store"}})
	c.contractRets(r, rule, "the file is written whenever it is stored", func(k K, v []*Term) bool { return len(dids(k, "util.WriteFileAtomic")) > 0 })
	// the head is saved only once its block is stored
	l, ch := c.runLoop()
	if l == nil {
		return
	}
	n := 0
	for _, s := range l.in.sinks {
		if s.name != "util.WriteFileAtomic" {
			continue
		}
		n++
		k := s.k(l.in)
		st := l.in.resolve(k.st, l.in.loadShallow(k.st, mk("fld", "state", ch)))
		head := stripBytes(s.args[1])
		if isCall(head, "core.HashT.String") {
			head = head.Args[0]
		}
		ok := k.has(inv("HasBlock", head))
		for _, b := range k.lastApplied(st) {
			if k.has(inv("HasBlock", b)) && c.isHeadOf(k, b, st) && head == F(st, "head") {
				ok = true
			}
		}
		c.ob(rule, "a head is saved only when its block is stored", ok, s.pos, "saves %s%s", clip(s.args[1].String(), 200), ifBad(ok, describeFacts(s.facts)))
	}
	c.ob("coverage", "saving the head", n > 0, 0, "%d places", n)
}
