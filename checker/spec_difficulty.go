package main

import (
	"go/token"
	"strings"
)

// ---- the difficulty schedule a miner follows ----

// retarget: n is the parent's target scaled by the time the period took over the time it should.
func (k K) retarget(n, prev, ps *Term) bool {
	height, period := inv("GetBlockHeight", prev), F(ps, "DifficultyPeriod")
	pt := callTerm("core.HashT.BigInt", F(inv("GetBlock", prev), "Target"))
	start := mkMul(k.op(token.QUO, height, period, tU64), period)
	young := k.has(mkLt(height, period, true))
	old := k.has(mkNot(mkLt(height, period, true)))
	var blocks []*Term
	if young {
		blocks = append(blocks, mkSub(height, mkInt(1), true), mkSub(height, mkInt(1), false))
	}
	if old {
		blocks = append(blocks, mkSub(height, start, true), mkSub(height, start, false), k.op(token.REM, height, period, tU64))
	}
	now := F(inv("GetBlock", prev), "MinedTime")
	ok := false
	anyTerm(n, func(x *Term) bool {
		// the block at the start of the period
		if !(x.Op == "fld" && x.Aux == "MinedTime" && isCall(x.Args[0], "inv.Inv.GetBlock") && x != now) {
			return false
		}
		for _, nb := range blocks {
			if !k.isAncestor(x.Args[0].Args[0], prev, nb) {
				continue
			}
			want := mkMul(F(ps, "BlockTargetTime"), nb)
			for _, took := range []*Term{mkSub(now, x, true), mkSub(now, x, false)} {
				if n == k.op(token.QUO, mkMul(took, pt), want, tInt) && (k.has(mkLt(x, now, true)) || k.has(mkNot(mkLt(now, x, true)))) {
					ok = true
				}
			}
		}
		return ok
	})
	return ok
}

func (c *Ctx) schedule() {
	ps, iv, prev := mkSym("params"), mkSym("inv"), mkSym("prevBlockId")
	r := c.run("pkg/core.NextTarget", runOpt{args: []*Term{ps, iv, prev}, inline: []string{"core.ExpectedTargetAdjustment"}})
	if r == nil {
		return
	}
	c.contractInvReads("GetBlockAncestors", "GetBlockSpecificAncestor")
	height := inv("GetBlockHeight", prev)
	period := F(ps, "DifficultyPeriod")
	pt := F(inv("GetBlock", prev), "Target")
	H := func(n *Term) *Term { return callTerm("core.NewHashTFromBigInt", n) }
	low, high := callTerm("core.HashT.MinNextTarget", pt), callTerm("core.HashT.MaxNextTarget", pt, ps)
	full := mk("call", "big.parse", mkStr(strings.Repeat("f", 64)), mkInt(16))
	for _, o := range r.outs {
		if o.kind != "ret" || len(o.vals) != 1 {
			continue
		}
		k := r.k(o)
		v := r.in.resolve(o.st, o.vals[0])
		zero := k.has(mkEq(prev, tZero)) || k.has(mkEq(F(prev, "data"), tZero))
		at := k.op(token.REM, mkAdd(height, mkInt(1)), period, tU64)
		ob := func(kind, what string, ok bool) {
			c.ob("schedule-"+kind, "core.NextTarget: "+what, ok, o.pos, "gives %s; %s", clip(v.String(), 200), describeIf(!ok, k.st.facts))
		}
		switch v {
		case F(ps, "OriginalTarget"):
			ob("first", "the original target is for the first block only", zero)
			continue
		case pt:
			ob("same", "the target is kept inside a period only", k.has(mkNot(mkEq(at, mkInt(0)))))
			continue
		}
		ob("change", "the target changes at the end of a period only", k.has(mkEq(at, mkInt(0))) && !zero)
		// every number in sight that is the scaled target
		var raws []*Term
		look := func(t *Term) {
			anyTerm(t, func(x *Term) bool {
				if k.retarget(x, prev, ps) {
					raws = append(raws, x)
				}
				return false
			})
		}
		look(v)
		for f := range k.st.facts {
			if f.Op == "lt" || f.Op == "not" || f.Op == "eq" || strings.HasPrefix(f.Op, "lt") {
				look(f)
			}
		}
		ok := false
		for _, raw := range raws {
			fits := k.has(mkNot(mkLt(full, raw, false)))
			over := k.has(mkLt(full, raw, false))
			var base *Term
			switch {
			case fits:
				base = H(raw)
			case over:
				base = H(full)
			default:
				continue
			}
			notLow := k.has(mkNot(mkHashLt(base, low)))
			notHigh := k.has(mkNot(mkHashLt(high, base)))
			isLow, isHigh := k.has(mkHashLt(base, low)), k.has(mkHashLt(high, base))
			switch v {
			case base:
				ok = ok || notLow && notHigh
			case low:
				ok = ok || isLow
			case high:
				ok = ok || isHigh || isLow && k.has(mkHashLt(high, low))
			}
		}
		ob("value", "the new target is the old one scaled by measured over desired time, within a factor of four and the network's easiest", ok)
	}
	for _, s := range []string{"first", "same", "change", "value"} {
		c.atLeast("schedule-"+s, 1)
	}
}

func init() {
	register("C26",
		"every path through the computation of the next target: kept inside a period, otherwise the parent's target times the time the period took over the time it should have, limited on both sides; the limits, work and number conversions are checked on their bodies",
		nil, func(c *Ctx) {
			c.schedule()
			c.contractTargets()
			c.contractHashLt()
		})
}
