package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// The harness interface: functions whose names start with "vp" in the packages under analysis.

type vpIntrinsic func(c *icall) value

var vpFns = map[string]vpIntrinsic{}

func vpLookup(name string) intrinsic {
	f, ok := vpFns[name]
	if !ok {
		return nil
	}
	return intrinsic(f)
}

func (ex *Exec) nondetTerm(name, kind string, w int) *Term {
	ex.nvar++
	t := ex.ctx.Var(fmt.Sprintf("v%d_%s", ex.nvar, sanitize(name)), w)
	ex.nondets = append(ex.nondets, nondet{Name: name, Kind: kind, t: t})
	return t
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func str(v value) string {
	s, ok := v.(string)
	if !ok {
		return textOf(v)
	}
	return s
}

func init() {
	for _, x := range []struct {
		n string
		w int
	}{{"vpU64", 64}, {"vpU32", 32}, {"vpU16", 16}, {"vpU8", 8}} {
		x := x
		vpFns[x.n] = func(c *icall) value { return c.ex.nondetTerm(str(c.args[0]), x.n[2:], x.w) }
	}
	vpFns["vpBool"] = func(c *icall) value { return c.ex.nondetTerm(str(c.args[0]), "Bool", 0) }
	vpFns["vpInt"] = func(c *icall) value {
		lo, hi := c.ex.concInt(c.args[1]), c.ex.concInt(c.args[2])
		if hi < lo {
			panic(pathEnd{kind: endAssume})
		}
		v := uint64(lo + c.ex.choose(hi-lo+1))
		c.ex.nondets = append(c.ex.nondets, nondet{Name: str(c.args[0]), Kind: "Int", t: v})
		return v
	}
	vpFns["vpIntSym"] = func(c *icall) value {
		lo, hi := c.ex.concInt(c.args[1]), c.ex.concInt(c.args[2])
		ex := c.ex
		// a narrow variable keeps the queries small
		if lo >= 0 {
			w := 1
			for hi>>uint(w) != 0 {
				w++
			}
			n := ex.nondetTerm(str(c.args[0]), "Int", w)
			ex.assume(ex.ctx.And(ex.ctx.Cmp(OpULe, ex.ctx.Const(w, uint64(lo)), n), ex.ctx.Cmp(OpULe, n, ex.ctx.Const(w, uint64(hi)))))
			if w < 64 {
				return fromTerm(ex.ctx.ZExt(n, 64))
			}
			return n
		}
		t := ex.nondetTerm(str(c.args[0]), "Int", 64)
		ex.assume(ex.ctx.And(ex.ctx.Cmp(OpSLe, ex.ctx.Const(64, uint64(lo)), t), ex.ctx.Cmp(OpSLe, t, ex.ctx.Const(64, uint64(hi)))))
		return t
	}
	vpFns["vpBytes"] = func(c *icall) value {
		n := c.ex.concInt(c.args[1])
		if n == 0 {
			c.ex.nondets = append(c.ex.nondets, nondet{Name: str(c.args[0]), Kind: "Bytes", t: []value{}})
			return []value{}
		}
		ex := c.ex
		ex.nvar++
		t := ex.ctx.Var(fmt.Sprintf("v%d_%s", ex.nvar, sanitize(str(c.args[0]))), 8*n)
		b := ex.termBytes(t, n)
		ex.nondets = append(ex.nondets, nondet{Name: str(c.args[0]), Kind: "Bytes", t: append([]value(nil), b...)})
		return b
	}
	vpFns["vpStr"] = func(c *icall) value {
		b := vpFns["vpBytes"](c).([]value)
		if len(b) == 0 {
			return ""
		}
		return mkStr(b)
	}
	vpFns["vpAssume"] = func(c *icall) value { c.ex.assume(c.ex.boolTerm(c.args[0])); return nil }
	vpFns["vpAssert"] = func(c *icall) value {
		t := c.ex.boolTerm(c.args[0])
		c.ex.assertProp(t, str(c.args[1]))
		return nil
	}
	vpFns["vpReach"] = func(c *icall) value { c.ex.reached[str(c.args[0])] = true; return nil }
	vpFns["vpObserve"] = func(c *icall) value {
		var vs []value
		s, _ := c.args[1].([]value)
		for _, e := range s {
			vs = append(vs, e)
		}
		c.ex.obs = append(c.ex.obs, obsRec{label: str(c.args[0]), vals: vs})
		return nil
	}
	vpFns["vpParam"] = func(c *icall) value {
		if v, ok := c.ex.param[str(c.args[0])]; ok {
			return uint64(int64(v))
		}
		return c.args[1]
	}
	vpFns["vpTempDir"] = func(c *icall) value {
		c.ex.tmpSeq++
		return "/vp/tmp" + strconv.Itoa(c.ex.tmpSeq)
	}
	vpFns["vpAnd"] = func(c *icall) value {
		t := c.ex.ctx.T
		for _, e := range variadic(c.args) {
			t = c.ex.ctx.And(t, c.ex.boolTerm(e))
		}
		return fromTerm(t)
	}
	vpFns["vpOr"] = func(c *icall) value {
		t := c.ex.ctx.F
		for _, e := range variadic(c.args) {
			t = c.ex.ctx.Or(t, c.ex.boolTerm(e))
		}
		return fromTerm(t)
	}
	vpFns["vpImplies"] = func(c *icall) value {
		return fromTerm(c.ex.ctx.Or(c.ex.ctx.Not(c.ex.boolTerm(c.args[0])), c.ex.boolTerm(c.args[1])))
	}
	ite := func(w int) vpIntrinsic {
		return func(c *icall) value {
			return fromTerm(c.ex.ctx.Ite(c.ex.boolTerm(c.args[0]), c.ex.term(c.args[1], w), c.ex.term(c.args[2], w)))
		}
	}
	vpFns["vpIteU64"] = ite(64)
	vpFns["vpIteInt"] = ite(64)
	vpFns["vpIteU32"] = ite(32)
	vpFns["vpEqBytes"] = func(c *icall) value {
		return fromTerm(c.ex.bytesEq(c.args[0].([]value), c.args[1].([]value)))
	}
	vpFns["vpSymbolic"] = func(c *icall) value { return true }
	vpFns["vpAdvance"] = func(c *icall) value {
		d := c.ex.dur(c.args[0])
		if !d.isConst() {
			if len(c.ex.activeTimers()) > 0 {
				panic(unsupported("symbolic clock advance with pending timers"))
			}
			c.ex.clock = c.ex.ctx.Bin(OpAdd, c.ex.clock, d)
			return nil
		}
		// sleep: lets timers fire in order on the way
		g := c.g
		fired := false
		c.ex.addTimer(bigSigned(d.bigv(), timeW), func() { fired = true; c.ex.ready(g) })
		for !fired {
			c.ex.block(g, "vpAdvance")
		}
		c.ex.quiesce(g)
		return nil
	}
	vpFns["vpWait"] = func(c *icall) value { c.ex.quiesce(c.g); return nil }
	vpFns["vpSetClock"] = func(c *icall) value { // seconds and nanoseconds since 1970, possibly symbolic
		ex := c.ex
		ns := ex.ctx.Bin(OpAdd, ex.scaled(c.args[0], nsPerSec), ex.tconst(new(big.Int).Mul(bigInt(unixToYear1), nsPerSec)))
		ex.clock = ns
		return nil
	}
	vpFns["vpGo"] = func(c *icall) value {
		g := c.ex.spawn(c.args[1], nil, nil)
		g.label = c.ex.concInt(c.args[0])
		return nil
	}
	vpFns["vpHTTP"] = func(c *icall) value { c.ex.httpServe, c.ex.httpStop = c.args[0], c.args[1]; return nil }
	vpFns["vpSignals"] = func(c *icall) value { c.ex.notify = c.args[0]; return nil }
	reg("(*net/http.Server).ListenAndServe", func(c *icall) value {
		if c.ex.httpServe == nil {
			panic(unsupported("HTTP server"))
		}
		return c.ex.callFn(c.g, c.ex.httpServe, c.args)
	})
	reg("(*net/http.Server).Shutdown", func(c *icall) value {
		if c.ex.httpStop == nil {
			panic(unsupported("HTTP server"))
		}
		return c.ex.callFn(c.g, c.ex.httpStop, c.args)
	})
	reg("os/signal.NotifyContext", func(c *icall) value {
		if c.ex.notify == nil {
			panic(unsupported("signals"))
		}
		return c.ex.callFn(c.g, c.ex.notify, c.args)
	})
	reg("github.com/wavesplatform/gowaves/pkg/logging.SetupLogger", func(c *icall) value { return &host{kind: "zap"} })
	vpFns["vpNetListen"] = func(c *icall) value { c.ex.netListen = c.args[0]; return nil }
	vpFns["vpNetDial"] = func(c *icall) value { c.ex.netDial = c.args[0]; return nil }
	reg("(*net.ListenConfig).Listen", func(c *icall) value {
		if c.ex.netListen == nil {
			panic(unsupported("network"))
		}
		return c.ex.callFn(c.g, c.ex.netListen, c.args[1:])
	})
	reg("(*net.Dialer).DialContext", func(c *icall) value {
		if c.ex.netDial == nil {
			panic(unsupported("network"))
		}
		return c.ex.callFn(c.g, c.ex.netDial, c.args[1:])
	})
	vpFns["vpYield"] = func(c *icall) value { c.ex.yield(c.g, "harness"); return nil }
	vpFns["vpExplore"] = func(c *icall) value {
		n := c.ex.concInt(c.args[0])
		c.ex.maxPre = n
		c.ex.preempt = 0
		c.ex.explore = n >= 0
		return nil
	}
	vpFns["vpRace"] = func(c *icall) value { c.ex.raceOn = c.ex.truth(c.args[0]); return nil }
	vpFns["vpMapOrders"] = func(c *icall) value { c.ex.mapOrders = c.ex.truth(c.args[0]); return nil }
	vpFns["vpFairRand"] = func(c *icall) value { c.ex.fairRand = c.ex.truth(c.args[0]); return nil }
	vpFns["vpSelOrders"] = func(c *icall) value { c.ex.selOrders = c.ex.truth(c.args[0]); return nil }
	vpFns["vpFault"] = func(c *icall) value {
		k := c.ex.concInt(c.args[0])
		c.ex.dbWrites = 0
		c.ex.writeFaultAt = k
		c.ex.faultKind = str(c.args[1])
		return nil
	}
	vpFns["vpReadFault"] = func(c *icall) value {
		c.ex.dbReads = 0
		c.ex.readFaultAt = c.ex.concInt(c.args[0])
		return nil
	}
	vpFns["vpWrites"] = func(c *icall) value { return uint64(c.ex.dbWrites) }
	vpFns["vpClosedUses"] = func(c *icall) value { return uint64(c.ex.dbClosedUses) }
	vpFns["vpReads"] = func(c *icall) value { return uint64(c.ex.dbReads) }
	vpFns["vpCrashRun"] = func(c *icall) (res value) {
		ex := c.ex
		top := c.g.top
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(crashPanic); ok {
					c.g.top = top
					res = true
					return
				}
				panic(r)
			}
		}()
		ex.callFn(c.g, c.args[0], nil)
		return false
	}
	vpFns["vpSnapshotDir"] = func(c *icall) value {
		src := str(c.args[0])
		c.ex.tmpSeq++
		dst := "/vp/tmp" + strconv.Itoa(c.ex.tmpSeq)
		for p, f := range c.ex.dbs {
			if p == src || strings.HasPrefix(p, src+"/") {
				np := dst + strings.TrimPrefix(p, src)
				c.ex.dbs[np] = &dbFile{path: np, cur: f.cur.clone()}
			}
		}
		return dst
	}
	vpFns["vpTypeOf"] = func(c *icall) value {
		i := c.args[0].(iface)
		if i.t == nil {
			return "nil"
		}
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	vpFns["vpJSONKind"] = func(c *icall) value { // kind of the top-level JSON value of a document
		n, e := c.ex.jsonParse(c.args[0].([]value))
		if e != nil {
			return "invalid"
		}
		switch n.k {
		case "num", "big", "float":
			return "number"
		case "str":
			return "string"
		}
		return n.k
	}
	vpFns["vpDebug"] = func(c *icall) value {
		s, _ := c.args[0].([]value)
		var sb strings.Builder
		for _, e := range s {
			if i, ok := e.(iface); ok {
				sb.WriteString(showVal(i.v) + " ")
			}
		}
		fmt.Println("vpDebug:", sb.String())
		return nil
	}
}

func (ex *Exec) activeTimers() []*timerObj {
	var r []*timerObj
	for _, t := range ex.timers {
		if t.active {
			r = append(r, t)
		}
	}
	return r
}

// variadic returns the elements of a call with a variadic parameter only.
func variadic(a []value) []value {
	if len(a) == 1 {
		if s, ok := a[0].([]value); ok {
			return s
		}
	}
	return a
}

// renderObs evaluates an observation for comparison with a native run.
func renderObs(ev *evaluator, v value) string {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		if w, signed, ok := intInfo(i.t); ok {
			switch x := i.v.(type) {
			case uint64:
				if signed {
					return strconv.FormatInt(sx(x, w), 10)
				}
				return strconv.FormatUint(x, 10)
			case *Term:
				b := ev.eval(x)
				if signed {
					b = bigSigned(b, w)
				}
				return b.String()
			}
		}
		return renderObs(ev, i.v)
	}
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case *Term:
		if x.w == 0 {
			return strconv.FormatBool(ev.bool(x))
		}
		return ev.eval(x).String()
	case string:
		return strconv.Quote(x)
	case array:
		return evalNondet(ev, []value(x))
	case []value:
		return evalNondet(ev, x)
	case *symStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(ev.eval(y).Uint64())
			}
		}
		return strconv.Quote(string(b))
	}
	return "?"
}
