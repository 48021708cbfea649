package main

import (
	"math/big"
)

const bigW = 192

// bigCell is the magnitude slice element standing for the value of a big.Int (two's complement, bigW bits).
type bigCell struct{ t *Term }

func (ex *Exec) bigTerm(p value) *Term {
	q := ex.derefPtr(p)
	st, ok := (*q).(structure)
	if !ok {
		panic(unsupported("big.Int representation"))
	}
	abs, _ := st[1].([]value)
	if len(abs) == 0 {
		return ex.ctx.BigConst(bigW, new(big.Int))
	}
	c, ok := abs[0].(*bigCell)
	if !ok {
		panic(unsupported("big.Int representation"))
	}
	return c.t
}

func (ex *Exec) setBig(p value, t *Term) value {
	q := ex.derefPtr(p)
	st := (*q).(structure)
	st[0] = false
	st[1] = []value{&bigCell{t}}
	return p
}

func (ex *Exec) newBig(t *Term) value {
	p := new(value)
	*p = structure{false, []value{&bigCell{t}}}
	return p
}

// unsignedBits bounds the number of significant bits of a non-negative term; bigW if unknown.
func unsignedBits(t *Term) int {
	switch t.op {
	case OpConst:
		v := bigSigned(t.bigv(), t.w)
		if v.Sign() < 0 {
			return bigW
		}
		return v.BitLen()
	case OpZExt:
		return t.a.w
	case OpIte:
		return max(unsignedBits(t.b), unsignedBits(t.c))
	case OpAdd:
		n := max(unsignedBits(t.a), unsignedBits(t.b)) + 1
		return min(n, t.w)
	case OpUDiv:
		return unsignedBits(t.a)
	case OpConcat:
		if isZero(t.a) {
			return min(t.b.w, unsignedBits(t.b))
		}
	}
	return t.w
}

// signedBits bounds the number of significant bits of a term, with its sign.
func signedBits(t *Term) int {
	switch t.op {
	case OpConst:
		return bigSigned(t.bigv(), t.w).BitLen() + 1
	case OpSExt:
		return t.a.w
	case OpIte:
		return max(signedBits(t.b), signedBits(t.c))
	case OpAdd, OpSub:
		return min(max(signedBits(t.a), signedBits(t.b))+1, t.w)
	}
	return min(unsignedBits(t)+1, t.w)
}

func init() {
	const I = "(*math/big.Int)."
	reg("math/big.NewInt", func(c *icall) value {
		return c.ex.newBig(c.ex.ctx.SExt(c.ex.term(c.args[0], 64), bigW))
	})
	reg(I+"Set", func(c *icall) value { return c.ex.setBig(c.args[0], c.ex.bigTerm(c.args[1])) })
	reg(I+"SetInt64", func(c *icall) value {
		return c.ex.setBig(c.args[0], c.ex.ctx.SExt(c.ex.term(c.args[1], 64), bigW))
	})
	reg(I+"SetUint64", func(c *icall) value {
		return c.ex.setBig(c.args[0], c.ex.ctx.ZExt(c.ex.term(c.args[1], 64), bigW))
	})
	fits := func(c *icall, v *big.Int) *Term {
		if v.BitLen() > bigW-2 {
			panic(unsupported("big integer too wide"))
		}
		return c.ex.ctx.BigConst(bigW, v)
	}
	reg(I+"SetString", func(c *icall) value {
		s, ok := c.args[1].(string)
		if !ok {
			panic(unsupported("SetString of a symbolic string"))
		}
		v, good := new(big.Int).SetString(s, c.ex.concInt(c.args[2]))
		if !good {
			return tuple{(*value)(nil), false}
		}
		return tuple{c.ex.setBig(c.args[0], fits(c, v)), true}
	})
	reg(I+"SetBytes", func(c *icall) value {
		b := c.args[1].([]value)
		for len(b) > 0 {
			if u, ok := b[0].(uint64); ok && u == 0 {
				b = b[1:]
			} else {
				break
			}
		}
		if len(b)*8 > bigW-2 {
			panic(unsupported("big integer too wide"))
		}
		if len(b) == 0 {
			return c.ex.setBig(c.args[0], c.ex.ctx.BigConst(bigW, new(big.Int)))
		}
		return c.ex.setBig(c.args[0], c.ex.ctx.ZExt(c.ex.bytesTerm(b), bigW))
	})
	reg(I+"Bytes", func(c *icall) value {
		t := c.ex.bigTerm(c.args[0])
		if !t.isConst() {
			panic(unsupported("bytes of a symbolic big integer"))
		}
		var r []value
		for _, b := range bigSigned(t.bigv(), bigW).Bytes() {
			r = append(r, uint64(b))
		}
		return r
	})
	bin := func(name string, op Op) {
		reg(I+name, func(c *icall) value {
			return c.ex.setBig(c.args[0], c.ex.ctx.Bin(op, c.ex.bigTerm(c.args[1]), c.ex.bigTerm(c.args[2])))
		})
	}
	bin("Add", OpAdd)
	bin("Sub", OpSub)
	bin("Mul", OpMul)
	neg := func(c *icall, t *Term) *Term { return c.ex.ctx.Cmp(OpSLt, t, c.ex.ctx.BigConst(bigW, new(big.Int))) }
	// div divides: euclidean tells the kind of rounding for negative operands, rem what is wanted.
	div := func(c *icall, euclidean, rem bool) value {
		ct := c.ex.ctx
		x, y := c.ex.bigTerm(c.args[1]), c.ex.bigTerm(c.args[2])
		zero := ct.BigConst(bigW, new(big.Int))
		if c.ex.decide(ct.Eq(y, zero)) {
			c.ex.panicPlain("division by zero")
		}
		bx, by := unsignedBits(x), unsignedBits(y)
		sx, sy := false, false
		if bx >= bigW {
			bx = signedBits(x)
			if sx = c.ex.decide(neg(c, x)); sx {
				x = ct.Bin(OpSub, zero, x)
			}
		}
		if by >= bigW {
			by = signedBits(y)
			if sy = c.ex.decide(neg(c, y)); sy {
				y = ct.Bin(OpSub, zero, y)
			}
		}
		n := min(max(bx, by)+1, bigW)
		un := func(op Op) *Term {
			return ct.ZExt(ct.Bin(op, ct.Extract(x, n-1, 0), ct.Extract(y, n-1, 0)), bigW)
		}
		minus := func(t *Term) *Term { return ct.Bin(OpSub, zero, t) }
		if !sx && !sy {
			if rem {
				return c.ex.setBig(c.args[0], un(OpURem))
			}
			return c.ex.setBig(c.args[0], un(OpUDiv))
		}
		q, r := un(OpUDiv), un(OpURem)
		exact := ct.Eq(r, zero)
		switch {
		case rem && !euclidean && sx:
			r = minus(r)
		case rem && euclidean && sx:
			r = ct.Ite(exact, zero, ct.Bin(OpSub, y, r))
		}
		if rem {
			return c.ex.setBig(c.args[0], r)
		}
		if euclidean && sx {
			q = ct.Ite(exact, q, ct.Bin(OpAdd, q, ct.BigConst(bigW, big.NewInt(1))))
		}
		if sx != sy {
			q = minus(q)
		}
		return c.ex.setBig(c.args[0], q)
	}
	reg(I+"Div", func(c *icall) value { return div(c, true, false) })
	reg(I+"Quo", func(c *icall) value { return div(c, false, false) })
	reg(I+"Mod", func(c *icall) value { return div(c, true, true) })
	reg(I+"Rem", func(c *icall) value { return div(c, false, true) })
	both := func(euclidean bool) intrinsic {
		return func(c *icall) value {
			x, y := c.ex.newBig(c.ex.bigTerm(c.args[1])), c.ex.newBig(c.ex.bigTerm(c.args[2]))
			div(&icall{ex: c.ex, args: []value{c.args[0], x, y}}, euclidean, false)
			div(&icall{ex: c.ex, args: []value{c.args[3], x, y}}, euclidean, true)
			return tuple{c.args[0], c.args[3]}
		}
	}
	reg(I+"DivMod", both(true))
	reg(I+"QuoRem", both(false))
	reg(I+"Neg", func(c *icall) value {
		return c.ex.setBig(c.args[0], c.ex.ctx.Bin(OpSub, c.ex.ctx.BigConst(bigW, new(big.Int)), c.ex.bigTerm(c.args[1])))
	})
	reg(I+"Abs", func(c *icall) value {
		t := c.ex.bigTerm(c.args[1])
		ct := c.ex.ctx
		return c.ex.setBig(c.args[0], ct.Ite(neg(c, t), ct.Bin(OpSub, ct.BigConst(bigW, new(big.Int)), t), t))
	})
	shift := func(left bool) intrinsic {
		return func(c *icall) value {
			t := c.ex.bigTerm(c.args[1])
			k := c.ex.concInt(c.args[2])
			op := OpShl
			if !left {
				op = OpAShr
			} else if unsignedBits(t)+k > bigW-2 && !t.isConst() {
				panic(unsupported("big integer shift too wide"))
			}
			return c.ex.setBig(c.args[0], c.ex.ctx.Bin(op, t, c.ex.ctx.Const(bigW, uint64(k))))
		}
	}
	reg(I+"Lsh", shift(true))
	reg(I+"Rsh", shift(false))
	cmp := func(ex *Exec, x, y *Term) value {
		ct := ex.ctx
		return fromTerm(ct.Ite(ct.Eq(x, y), ct.Const(64, 0), ct.Ite(ct.Cmp(OpSLt, x, y), ct.Const(64, ^uint64(0)), ct.Const(64, 1))))
	}
	reg(I+"Cmp", func(c *icall) value { return cmp(c.ex, c.ex.bigTerm(c.args[0]), c.ex.bigTerm(c.args[1])) })
	reg(I+"Sign", func(c *icall) value {
		return cmp(c.ex, c.ex.bigTerm(c.args[0]), c.ex.ctx.BigConst(bigW, new(big.Int)))
	})
	reg(I+"IsInt64", func(c *icall) value {
		t := c.ex.bigTerm(c.args[0])
		ct := c.ex.ctx
		return fromTerm(ct.Eq(ct.SExt(ct.Extract(t, 63, 0), bigW), t))
	})
	reg(I+"IsUint64", func(c *icall) value {
		t := c.ex.bigTerm(c.args[0])
		ct := c.ex.ctx
		return fromTerm(ct.Eq(ct.ZExt(ct.Extract(t, 63, 0), bigW), t))
	})
	low := func(c *icall) value { return fromTerm(c.ex.ctx.Extract(c.ex.bigTerm(c.args[0]), 63, 0)) }
	reg(I+"Int64", low)
	abs := func(c *icall, t *Term) *Term {
		ct := c.ex.ctx
		return ct.Ite(neg(c, t), ct.Bin(OpSub, ct.BigConst(bigW, new(big.Int)), t), t)
	}
	reg(I+"Uint64", func(c *icall) value { // the low bits of the magnitude
		return fromTerm(c.ex.ctx.Extract(abs(c, c.ex.bigTerm(c.args[0])), 63, 0))
	})
	reg(I+"CmpAbs", func(c *icall) value {
		return cmp(c.ex, abs(c, c.ex.bigTerm(c.args[0])), abs(c, c.ex.bigTerm(c.args[1])))
	})
	reg(I+"FillBytes", func(c *icall) value {
		b := c.args[1].([]value)
		t := abs(c, c.ex.bigTerm(c.args[0]))
		ct := c.ex.ctx
		if n := 8 * len(b); n < bigW && !c.ex.decide(ct.Eq(ct.Bin(OpLShr, t, ct.Const(bigW, uint64(n))), ct.BigConst(bigW, new(big.Int)))) {
			c.ex.panicPlain("math/big: buffer too small to fit value")
		}
		for i := range b {
			k := 8 * (len(b) - 1 - i)
			if k+7 < bigW {
				b[i] = fromTerm(ct.Extract(t, k+7, k))
			} else {
				b[i] = uint64(0)
			}
		}
		return b
	})
	reg(I+"BitLen", func(c *icall) value {
		t := c.ex.bigTerm(c.args[0])
		if !t.isConst() {
			t = abs(c, t)
			ct := c.ex.ctx
			r := ct.Const(64, 0)
			for i := 0; i < min(bigW, unsignedBits(t)); i++ {
				r = ct.Ite(ct.Eq(ct.Extract(t, i, i), ct.Const(1, 1)), ct.Const(64, uint64(i+1)), r)
			}
			return fromTerm(r)
		}
		return uint64(bigSigned(t.bigv(), bigW).BitLen())
	})
	str := func(c *icall) value {
		p, _ := c.args[0].(*value)
		if p == nil {
			return "<nil>"
		}
		t := c.ex.bigTerm(p)
		if t.isConst() {
			return bigSigned(t.bigv(), bigW).String()
		}
		return &opaqueStr{kind: "bigdec", payload: []value{t}}
	}
	reg(I+"String", str)
	reg(I+"Text", str)
}
