package main

import (
	"math/big"
	"time"
)

// timeCell stands in the wall field of a time.Time for its instant, in nanoseconds since year 1.
type timeCell struct{ ns *Term }

const unixToYear1 = 62135596800 // seconds

func bigInt(v int64) *big.Int { return big.NewInt(v) }

var nsPerSec = big.NewInt(1_000_000_000)

func (ex *Exec) tconst(v *big.Int) *Term { return ex.ctx.BigConst(timeW, v) }

func (ex *Exec) timeNS(v value) *Term {
	st, ok := v.(structure)
	if !ok {
		if p, isP := v.(*value); isP && p != nil {
			return ex.timeNS(*p)
		}
		panic(unsupported("time representation"))
	}
	switch w := st[0].(type) {
	case *timeCell:
		return w.ns
	case uint64:
		if w == 0 {
			if e, ok := st[1].(uint64); ok && e == 0 {
				return ex.tconst(new(big.Int))
			}
		}
	}
	panic(unsupported("time representation"))
}

func (ex *Exec) mkTime(ns *Term) value {
	return structure{&timeCell{ns}, uint64(0), (*value)(nil)}
}

func (ex *Exec) initialClock() *Term {
	v := new(big.Int).Mul(big.NewInt(unixToYear1+946_684_800), nsPerSec)
	return ex.ctx.BigConst(timeW, v)
}

// durClamp converts a difference to a 64-bit duration, saturating.
func (ex *Exec) durClamp(d *Term) value {
	c := ex.ctx
	mx := ex.tconst(big.NewInt(1<<63 - 1))
	mn := ex.tconst(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)))
	lo := c.Extract(d, 63, 0)
	return fromTerm(c.Ite(c.Cmp(OpSLt, mx, d), c.Const(64, 1<<63-1), c.Ite(c.Cmp(OpSLt, d, mn), c.Const(64, 1<<63), lo)))
}

func (ex *Exec) dur(v value) *Term { return ex.ctx.SExt(ex.term(v, 64), timeW) }

func (ex *Exec) scaled(v value, f *big.Int) *Term {
	return ex.ctx.Bin(OpMul, ex.ctx.SExt(ex.term(v, 64), timeW), ex.tconst(f))
}

// floorDiv divides by a positive constant rounding towards minus infinity.
func (ex *Exec) floorDiv(t *Term, d *big.Int) *Term {
	c := ex.ctx
	if t.isConst() {
		v := bigSigned(t.bigv(), t.w)
		q, m := new(big.Int), new(big.Int)
		q.DivMod(v, d, m)
		return c.BigConst(t.w, q)
	}
	// shift into the non-negative range
	off := new(big.Int).Lsh(big.NewInt(1), 80)
	off.Div(off, d)
	off.Mul(off, d)
	s := c.Bin(OpAdd, t, c.BigConst(t.w, off))
	q := c.Bin(OpUDiv, s, c.BigConst(t.w, d))
	return c.Bin(OpSub, q, c.BigConst(t.w, new(big.Int).Div(off, d)))
}

func init() {
	T := func(m string) string { return "(time.Time)." + m }
	reg("time.Now", func(c *icall) value { return c.ex.mkTime(c.ex.clock) })
	reg("time.runtimeNano", func(c *icall) value { return uint64(1) })
	reg("time.Since", func(c *icall) value {
		return c.ex.durClamp(c.ex.ctx.Bin(OpSub, c.ex.clock, c.ex.timeNS(c.args[0])))
	})
	reg("time.Until", func(c *icall) value {
		return c.ex.durClamp(c.ex.ctx.Bin(OpSub, c.ex.timeNS(c.args[0]), c.ex.clock))
	})
	reg("time.Unix", func(c *icall) value {
		ns := c.ex.ctx.Bin(OpAdd, c.ex.scaled(c.args[0], nsPerSec), c.ex.dur(c.args[1]))
		return c.ex.mkTime(c.ex.ctx.Bin(OpAdd, ns, c.ex.tconst(new(big.Int).Mul(bigInt(unixToYear1), nsPerSec))))
	})
	reg("time.UnixMilli", func(c *icall) value {
		ns := c.ex.scaled(c.args[0], bigInt(1_000_000))
		return c.ex.mkTime(c.ex.ctx.Bin(OpAdd, ns, c.ex.tconst(new(big.Int).Mul(bigInt(unixToYear1), nsPerSec))))
	})
	reg("time.UnixMicro", func(c *icall) value {
		ns := c.ex.scaled(c.args[0], bigInt(1_000))
		return c.ex.mkTime(c.ex.ctx.Bin(OpAdd, ns, c.ex.tconst(new(big.Int).Mul(bigInt(unixToYear1), nsPerSec))))
	})
	reg(T("Add"), func(c *icall) value {
		return c.ex.mkTime(c.ex.ctx.Bin(OpAdd, c.ex.timeNS(c.args[0]), c.ex.dur(c.args[1])))
	})
	reg(T("Sub"), func(c *icall) value {
		return c.ex.durClamp(c.ex.ctx.Bin(OpSub, c.ex.timeNS(c.args[0]), c.ex.timeNS(c.args[1])))
	})
	reg(T("After"), func(c *icall) value {
		return fromTerm(c.ex.ctx.Cmp(OpSLt, c.ex.timeNS(c.args[1]), c.ex.timeNS(c.args[0])))
	})
	reg(T("Before"), func(c *icall) value {
		return fromTerm(c.ex.ctx.Cmp(OpSLt, c.ex.timeNS(c.args[0]), c.ex.timeNS(c.args[1])))
	})
	reg(T("Equal"), func(c *icall) value {
		return fromTerm(c.ex.ctx.Eq(c.ex.timeNS(c.args[0]), c.ex.timeNS(c.args[1])))
	})
	reg(T("Compare"), func(c *icall) value {
		ct := c.ex.ctx
		x, y := c.ex.timeNS(c.args[0]), c.ex.timeNS(c.args[1])
		return fromTerm(ct.Ite(ct.Eq(x, y), ct.Const(64, 0), ct.Ite(ct.Cmp(OpSLt, x, y), ct.Const(64, ^uint64(0)), ct.Const(64, 1))))
	})
	reg(T("IsZero"), func(c *icall) value {
		return fromTerm(c.ex.ctx.Eq(c.ex.timeNS(c.args[0]), c.ex.tconst(new(big.Int))))
	})
	since := func(unit int64) intrinsic {
		return func(c *icall) value {
			ct := c.ex.ctx
			rel := ct.Bin(OpSub, c.ex.timeNS(c.args[0]), c.ex.tconst(new(big.Int).Mul(bigInt(unixToYear1), nsPerSec)))
			return fromTerm(ct.Extract(c.ex.floorDiv(rel, bigInt(unit)), 63, 0))
		}
	}
	reg(T("Unix"), since(1_000_000_000))
	reg(T("UnixMilli"), since(1_000_000))
	reg(T("UnixMicro"), since(1_000))
	reg(T("UnixNano"), since(1))
	same := func(c *icall) value { return copyVal(c.args[0]) }
	reg(T("UTC"), same)
	reg(T("Local"), same)
	reg(T("In"), same)
	reg("(*time.Time).stripMono", func(c *icall) value { return nil })
	trunc := func(round bool) intrinsic {
		return func(c *icall) value {
			d, ok := c.args[1].(uint64)
			if !ok {
				panic(unsupported("rounding to a symbolic duration"))
			}
			if int64(d) <= 0 {
				return copyVal(c.args[0])
			}
			t := c.ex.timeNS(c.args[0])
			if round {
				t = c.ex.ctx.Bin(OpAdd, t, c.ex.tconst(bigInt(int64(d)/2)))
			}
			bd := bigInt(int64(d))
			return c.ex.mkTime(c.ex.ctx.Bin(OpMul, c.ex.floorDiv(t, bd), c.ex.tconst(bd)))
		}
	}
	reg(T("Round"), trunc(true))
	reg(T("Truncate"), trunc(false))
	str := func(c *icall) value {
		if p, ok := c.args[0].(*value); ok && p == nil {
			c.ex.panicRuntime(nilDeref)
		}
		return &opaqueStr{kind: "time", payload: []value{c.ex.timeNS(c.args[0])}}
	}
	reg(T("Format"), str)
	reg(T("String"), str)
	reg("(time.Duration).String", func(c *icall) value {
		if d, ok := c.args[0].(uint64); ok {
			return time.Duration(int64(d)).String()
		}
		return &opaqueStr{kind: "dur", payload: []value{c.args[0]}}
	})
	year := func(c *icall) value {
		t := c.ex.timeNS(c.args[0])
		if !t.isConst() {
			panic(unsupported("calendar date of a symbolic time"))
		}
		v := bigSigned(t.bigv(), timeW)
		sec, ns := new(big.Int).DivMod(v, nsPerSec, new(big.Int))
		return uint64(int64(time.Unix(sec.Int64()-unixToYear1, ns.Int64()).UTC().Year()))
	}
	reg(T("Year"), year)
	reg(T("Nanosecond"), func(c *icall) value {
		t := c.ex.timeNS(c.args[0])
		ct := c.ex.ctx
		return fromTerm(ct.Extract(ct.Bin(OpSub, t, ct.Bin(OpMul, c.ex.floorDiv(t, nsPerSec), c.ex.tconst(nsPerSec))), 63, 0))
	})

	// ---- sleeping and timers on the virtual clock
	reg("time.Sleep", func(c *icall) value {
		d := c.ex.concInt(c.args[0])
		if d <= 0 {
			c.ex.pass(c.g)
			return nil
		}
		fired := false
		g := c.g
		c.ex.addTimer(bigInt(int64(d)), func() { fired = true; c.ex.ready(g) })
		for !fired {
			c.ex.block(g, "sleep")
		}
		return nil
	})
	sendNow := func(ex *Exec, ch *chanObj) func() {
		return func() {
			v := ex.mkTime(ex.clock)
			if w := ch.popRecv(); w != nil {
				ex.deliver(w, v, true, nil)
				return
			}
			if len(ch.buf) < ch.cap {
				ch.buf = append(ch.buf, v)
				ch.bufvc = append(ch.bufvc, nil)
			}
		}
	}
	timeChan := func(ex *Exec) *chanObj {
		ex.chanSeq++
		return &chanObj{cap: 1, id: ex.chanSeq, elemT: ex.namedType("time", "Time")}
	}
	type tstate struct {
		t  *timerObj
		ch *chanObj
		f  func()
	}
	newTimer := func(ex *Exec, structT string, d int64, period bool) (*value, *tstate) {
		p := new(value)
		*p = zero(ex.namedType("time", structT))
		ch := timeChan(ex)
		(*p).(structure)[0] = ch
		st := &tstate{ch: ch, f: sendNow(ex, ch)}
		st.t = ex.addTimer(bigInt(d), st.f)
		if period {
			st.t.period = bigInt(d)
		}
		ex.objs[p] = st
		return p, st
	}
	reg("time.NewTimer", func(c *icall) value {
		p, _ := newTimer(c.ex, "Timer", int64(c.ex.concInt(c.args[0])), false)
		return p
	})
	reg("time.NewTicker", func(c *icall) value {
		p, _ := newTimer(c.ex, "Ticker", int64(c.ex.concInt(c.args[0])), true)
		return p
	})
	reg("time.After", func(c *icall) value {
		_, st := newTimer(c.ex, "Timer", int64(c.ex.concInt(c.args[0])), false)
		return st.ch
	})
	reg("time.AfterFunc", func(c *icall) value {
		p := new(value)
		*p = zero(c.ex.namedType("time", "Timer"))
		ex := c.ex
		fv := c.args[1]
		st := &tstate{f: func() { ex.spawn(fv, nil, nil) }}
		st.t = ex.addTimer(bigInt(int64(ex.concInt(c.args[0]))), st.f)
		ex.objs[p] = st
		return p
	})
	stop := func(c *icall) value {
		st, ok := c.ex.objs[c.ex.derefPtr(c.args[0])].(*tstate)
		if !ok {
			panic(unsupported("timer not created by NewTimer"))
		}
		if st.ch != nil {
			st.ch.buf, st.ch.bufvc = nil, nil
		}
		return st.t.stop()
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(c *icall) value { stop(c); return nil })
	reset := func(c *icall) value {
		st, ok := c.ex.objs[c.ex.derefPtr(c.args[0])].(*tstate)
		if !ok {
			panic(unsupported("timer not created by NewTimer"))
		}
		was := st.t.stop()
		if st.ch != nil {
			st.ch.buf, st.ch.bufvc = nil, nil
		}
		d := bigInt(int64(c.ex.concInt(c.args[1])))
		per := st.t.period
		st.t = c.ex.addTimer(d, st.f)
		if per != nil {
			st.t.period = d
		}
		return was
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", func(c *icall) value { reset(c); return nil })

	// ---- kairos timers: channel of capacity one; Reset drains it, Stop does not
	const K = "github.com/rhansen/go-kairos/kairos"
	kt := func(ex *Exec) (*value, *tstate) {
		p := new(value)
		*p = zero(ex.namedType(K, "Timer"))
		ch := timeChan(ex)
		(*p).(structure)[0] = ch
		st := &tstate{ch: ch, f: sendNow(ex, ch)}
		st.t = &timerObj{}
		ex.objs[p] = st
		return p, st
	}
	reg(K+".NewStoppedTimer", func(c *icall) value { p, _ := kt(c.ex); return p })
	reg(K+".NewTimer", func(c *icall) value {
		p, st := kt(c.ex)
		st.t = c.ex.addTimer(bigInt(int64(c.ex.concInt(c.args[0]))), st.f)
		return p
	})
	reg("(*"+K+".Timer).Stop", func(c *icall) value {
		st := c.ex.objs[c.ex.derefPtr(c.args[0])].(*tstate)
		return st.t.stop()
	})
	reg("(*"+K+".Timer).Reset", func(c *icall) value {
		st := c.ex.objs[c.ex.derefPtr(c.args[0])].(*tstate)
		was := st.t.stop()
		st.ch.buf, st.ch.bufvc = nil, nil
		st.t = c.ex.addTimer(bigInt(int64(c.ex.concInt(c.args[1]))), st.f)
		return was
	})
}
