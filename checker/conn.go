package main

// A connection to another node as its callers see it. What is read may be
// anything; every operation may fail, and once one has failed the connection
// stays failed until the error is taken from it.

import (
	"go/token"
	"go/types"
)

// connErr is where the error of a connection is kept.
func connErr(c *callCtx) *Term { return mkField(locOf(c.args[0]), "err") }

// connOver gives the model of every exported method of a connection.
func connOver(p *Prog) map[string]primFn {
	over := map[string]primFn{}
	for _, f := range p.funcs() {
		if f.Signature.Recv() == nil || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		if n, ok := deref(f.Signature.Recv().Type()).(*types.Named); !ok || n.Obj().Name() != "Conn" || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "prot" {
			continue
		}
		n := shortName(f)
		over[n] = connOp
		switch f.Name() {
		case "PeerRuntimeId", "WeAreInitiator", "LocalAddr":
			over[n] = pureP
		case "Close", "CloseIfPossible":
			over[n] = opaqueP
		case "HasErr":
			over[n] = func(c *callCtx) []callRes {
				return connSplit(c, func(c *callCtx, failed bool) []callRes { return c.ret(mkBool(failed)) })
			}
		case "Err":
			over[n] = func(c *callCtx) []callRes {
				return connSplit(c, func(c *callCtx, failed bool) []callRes {
					e := c.in.load(c.ps.st, connErr(c), nil)
					c.in.store(c.ps.st, connErr(c), tNil)
					if failed {
						c.in.did(c.ps.st, c.name, c.vals(0)...)
					}
					return c.ret(e)
				})
			}
		case "TimeoutErrOrPanic":
			over[n] = func(c *callCtx) []callRes {
				return connSplit(c, func(c *callCtx, failed bool) []callRes {
					e := c.in.load(c.ps.st, connErr(c), nil)
					c.in.store(c.ps.st, connErr(c), tNil)
					if !failed {
						return c.ret(tNil)
					}
					c.in.did(c.ps.st, c.name, c.vals(0)...)
					q := c.ps.clone()
					c.in.panicOut(c.fr, q, c.pos)
					return c.ret(e)
				})
			}
		}
	}
	return over
}

func connOp(c *callCtx) []callRes {
	prev := c.in.load(c.ps.st, connErr(c), nil)
	res := c.opaque()
	c.in.store(c.ps.st, connErr(c), mk("connerr", "", c.site(), prev))
	return res
}

// connSplit goes on once with the connection failed and once with nothing failed since the error was last taken.
func connSplit(c *callCtx, f func(c *callCtx, failed bool) []callRes) []callRes {
	e := c.in.load(c.ps.st, connErr(c), nil)
	var out []callRes
	bad := c.ps.clone()
	if c.in.addFact(bad.st, mkNot(mkEq(e, tNil))) {
		d := *c
		d.ps = bad
		out = append(out, f(&d, true)...)
	}
	ok := true
	for x := e; ok; x = x.Args[1] {
		ok = c.in.addFact(c.ps.st, mkEq(x, tNil))
		if x.Op != "connerr" {
			break
		}
	}
	if ok {
		out = append(out, f(c, false)...)
	}
	return out
}
