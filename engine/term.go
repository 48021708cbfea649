package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Op is a term operator. Terms of width 0 are booleans, all others bit-vectors.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bitwise not, or boolean not for width 0
	OpShl
	OpLShr
	OpAShr
	OpEq
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpIte
	OpConcat
	OpExtract
	OpZExt
	OpSExt
	OpBAnd
	OpBOr
	OpUF
)

var smtOps = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv",
	OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr",
	OpAShr: "bvashr", OpEq: "=", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpIte: "ite",
	OpConcat: "concat", OpBAnd: "and", OpBOr: "or",
}

type Term struct {
	op      Op
	w       int
	a, b, c *Term
	v       uint64   // constant value for w<=64, or lo for extract
	big     *big.Int // constant value for w>64
	name    string   // variable or function name
	id      int
	defined int // solver epoch in which a define-fun was sent
	leaves  int // number of constant leaves if this is an ite tree over constants, 0 otherwise
}

type termKey struct {
	op      Op
	w       int
	a, b, c *Term
	v       uint64
	name    string
}

// TermCtx hash-conses terms; one per worker.
type TermCtx struct {
	tab    map[termKey]*Term
	nextID int
	T, F   *Term
	vars   []*Term
	ufs    map[string][2]int // name -> arg width, result width
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, ufs: map[string][2]int{}}
	c.T = c.mk(termKey{op: OpConst, w: 0, v: 1}, nil)
	c.F = c.mk(termKey{op: OpConst, w: 0, v: 0}, nil)
	return c
}

func (c *TermCtx) mk(k termKey, bg *big.Int) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.nextID++
	t := &Term{op: k.op, w: k.w, a: k.a, b: k.b, c: k.c, v: k.v, name: k.name, id: c.nextID, big: bg}
	switch k.op {
	case OpConst:
		t.leaves = 1
	case OpIte:
		if k.b.leaves > 0 && k.c.leaves > 0 && k.w > 0 {
			t.leaves = k.b.leaves + k.c.leaves
		}
	}
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	return c.mk(termKey{op: OpConst, w: w, v: v & mask(w)}, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) BigConst(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.Const(w, v.Uint64())
	}
	return c.mk(termKey{op: OpConst, w: w, name: v.Text(16)}, v)
}

func (t *Term) isConst() bool { return t.op == OpConst }

// bigv returns the unsigned value of a constant.
func (t *Term) bigv() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.v)
}

func (c *TermCtx) Var(name string, w int) *Term {
	name = fmt.Sprintf("%s_%d", name, w)
	k := termKey{op: OpVar, w: w, name: name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(k, nil)
	c.vars = append(c.vars, t)
	return t
}

func (c *TermCtx) UF(name string, arg *Term, w int) *Term {
	name = fmt.Sprintf("%s_%d_%d", name, arg.w, w)
	c.ufs[name] = [2]int{arg.w, w}
	return c.mk(termKey{op: OpUF, w: w, a: arg, name: name}, nil)
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func foldBin(op Op, w int, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return 0, false
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return 0, false
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpAnd:
		return a & b, true
	case OpOr:
		return a | b, true
	case OpXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

func bigSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func foldBigBin(op Op, w int, a, b *big.Int) (*big.Int, bool) {
	r := new(big.Int)
	switch op {
	case OpAdd:
		return r.Add(a, b), true
	case OpSub:
		return r.Sub(a, b), true
	case OpMul:
		return r.Mul(a, b), true
	case OpUDiv:
		if b.Sign() == 0 {
			return nil, false
		}
		return r.Div(a, b), true
	case OpURem:
		if b.Sign() == 0 {
			return nil, false
		}
		return r.Mod(a, b), true
	case OpSDiv:
		if b.Sign() == 0 {
			return nil, false
		}
		return r.Quo(bigSigned(a, w), bigSigned(b, w)), true
	case OpSRem:
		if b.Sign() == 0 {
			return nil, false
		}
		return r.Rem(bigSigned(a, w), bigSigned(b, w)), true
	case OpAnd:
		return r.And(a, b), true
	case OpOr:
		return r.Or(a, b), true
	case OpXor:
		return r.Xor(a, b), true
	case OpShl:
		if b.Cmp(big.NewInt(int64(w))) >= 0 {
			return r, true
		}
		return r.Lsh(a, uint(b.Uint64())), true
	case OpLShr:
		if b.Cmp(big.NewInt(int64(w))) >= 0 {
			return r, true
		}
		return r.Rsh(a, uint(b.Uint64())), true
	}
	return nil, false
}

const maxLeaves = 24

// mapLeaves rebuilds an ite tree over constants applying f to each leaf.
func (c *TermCtx) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpConst {
		return f(t)
	}
	return c.Ite(t.a, c.mapLeaves(t.b, f), c.mapLeaves(t.c, f))
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isConst() && b.isConst() {
		if w <= 64 {
			if v, ok := foldBin(op, w, a.v, b.v); ok {
				return c.Const(w, v)
			}
		} else if v, ok := foldBigBin(op, w, a.bigv(), b.bigv()); ok {
			return c.BigConst(w, v)
		}
	}
	if a.isConst() && b.leaves > 1 && b.leaves <= maxLeaves {
		return c.mapLeaves(b, func(x *Term) *Term { return c.Bin(op, a, x) })
	}
	if b.isConst() && a.leaves > 1 && a.leaves <= maxLeaves {
		return c.mapLeaves(a, func(x *Term) *Term { return c.Bin(op, x, b) })
	}
	az := a.isConst() && isZero(a)
	bz := b.isConst() && isZero(b)
	switch op {
	case OpAdd:
		if az {
			return b
		}
		if bz {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		// (x + c1) + c2
		if b.isConst() && a.op == OpAdd && a.b.isConst() {
			return c.Bin(OpAdd, a.a, c.Bin(OpAdd, a.b, b))
		}
	case OpSub:
		if bz {
			return a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			return c.Bin(OpAdd, a, c.Bin(OpSub, c.Const(w, 0), b))
		}
		// (x + c) - x
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
		// (x + c1) - (x + c2)
		if a.op == OpAdd && b.op == OpAdd && a.a == b.a {
			return c.Bin(OpSub, a.b, b.b)
		}
	case OpMul:
		if az || bz {
			return c.Const(w, 0)
		}
		if a.isConst() && isOne(a) {
			return b
		}
		if b.isConst() && isOne(b) {
			return a
		}
	case OpUDiv, OpSDiv:
		if b.isConst() && isOne(b) {
			return a
		}
	case OpURem:
		if b.isConst() && isOne(b) {
			return c.Const(w, 0)
		}
	case OpAnd:
		if az || bz {
			return c.Const(w, 0)
		}
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && w <= 64 {
			if b.v == mask(w) {
				return a
			}
			if a.op == OpZExt {
				if b.v&mask(a.a.w) == mask(a.a.w) {
					return a
				}
				if b.v&mask(a.a.w) == 0 {
					return c.Const(w, 0)
				}
			}
			// low mask
			if b.v&(b.v+1) == 0 {
				n := bits.Len64(b.v)
				return c.ZExt(c.Extract(a, n-1, 0), w)
			}
		}
	case OpOr, OpXor:
		if az {
			return b
		}
		if bz {
			return a
		}
		if a == b {
			if op == OpOr {
				return a
			}
			return c.Const(w, 0)
		}
		// disjoint or: zext(x) | (zext(y) << k)  -> concat
		if op == OpOr {
			if r := c.orConcat(a, b); r != nil {
				return r
			}
		}
	case OpShl, OpLShr, OpAShr:
		if bz {
			return a
		}
		if az {
			return a
		}
		if b.isConst() && w <= 64 {
			k := int(b.v)
			if b.v >= uint64(w) {
				if op != OpAShr {
					return c.Const(w, 0)
				}
			} else if op == OpLShr {
				return c.ZExt(c.Extract(a, w-1, k), w)
			} else if op == OpShl {
				return c.Concat(c.Extract(a, w-1-k, 0), c.Const(k, 0))
			}
		}
	}
	return c.mk(termKey{op: op, w: w, a: a, b: b}, nil)
}

// bitsUsed returns the half-open interval [lo,hi) outside of which the term is known to be zero.
func bitsUsed(t *Term) (int, int) {
	switch t.op {
	case OpZExt:
		_, h := bitsUsed(t.a)
		l, _ := bitsUsed(t.a)
		return l, h
	case OpConcat:
		l2, h2 := bitsUsed(t.b)
		l1, h1 := bitsUsed(t.a)
		if h1 == l1 {
			return l2, h2
		}
		if h2 == l2 {
			return l1 + t.b.w, h1 + t.b.w
		}
		return l2, h1 + t.b.w
	case OpConst:
		if isZero(t) {
			return 0, 0
		}
		v := t.bigv()
		return int(v.TrailingZeroBits()), v.BitLen()
	}
	return 0, t.w
}

func (c *TermCtx) orConcat(a, b *Term) *Term {
	la, ha := bitsUsed(a)
	lb, hb := bitsUsed(b)
	if la < lb {
		a, b = b, a
		la, ha, lb, hb = lb, hb, la, ha
	}
	if la < hb || la == 0 {
		return nil
	}
	w := a.w
	return c.Concat(c.Extract(a, w-1, la), c.Extract(b, la-1, 0))
}

func isZero(t *Term) bool {
	if t.big != nil {
		return t.big.Sign() == 0
	}
	return t.v == 0
}

func isOne(t *Term) bool {
	if t.big != nil {
		return t.big.IsUint64() && t.big.Uint64() == 1
	}
	return t.v == 1
}

func (c *TermCtx) BVNot(a *Term) *Term {
	if a.isConst() {
		if a.w <= 64 {
			return c.Const(a.w, ^a.v)
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), big.NewInt(1))
		return c.BigConst(a.w, m.Xor(m, a.bigv()))
	}
	return c.mk(termKey{op: OpNot, w: a.w, a: a}, nil)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.w != 0 {
		panic("Not on bv")
	}
	if a == c.T {
		return c.F
	}
	if a == c.F {
		return c.T
	}
	if a.op == OpNot {
		return a.a
	}
	return c.mk(termKey{op: OpNot, w: 0, a: a}, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if a == c.Not(b) {
		return c.F
	}
	return c.mk(termKey{op: OpBAnd, a: a, b: b}, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if a == c.Not(b) {
		return c.T
	}
	return c.mk(termKey{op: OpBOr, a: a, b: b}, nil)
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if a.w != b.w {
		panic("ite width")
	}
	if a.w == 0 {
		if a == c.T && b == c.F {
			return g
		}
		if a == c.F && b == c.T {
			return c.Not(g)
		}
		return c.Or(c.And(g, a), c.And(c.Not(g), b))
	}
	return c.mk(termKey{op: OpIte, w: a.w, a: g, b: a, c: b}, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.isConst() && b.isConst() {
		return c.F // hash-consed and different
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.leaves > 1 && a.leaves <= maxLeaves*4 {
		return c.mapLeavesBool(a, func(x *Term) *Term { return c.Bool(x == b) })
	}
	if a.leaves > 1 && b.leaves > 1 && a.leaves*b.leaves <= 64 {
		return c.mapLeavesBool(a, func(x *Term) *Term {
			return c.mapLeavesBool(b, func(y *Term) *Term { return c.Bool(x == y) })
		})
	}
	// split on constant or aligned concats
	if a.op == OpConcat {
		lo := a.b.w
		if b.isConst() || (b.op == OpConcat && b.b.w == lo) {
			return c.And(c.Eq(a.a, c.Extract(b, b.w-1, lo)), c.Eq(a.b, c.Extract(b, lo-1, 0)))
		}
	}
	if b.op == OpConcat && (a.isConst()) {
		lo := b.b.w
		return c.And(c.Eq(b.a, c.Extract(a, a.w-1, lo)), c.Eq(b.b, c.Extract(a, lo-1, 0)))
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpZExt && b.isConst() {
		lo := c.Extract(b, a.a.w-1, 0)
		if hi := c.Extract(b, b.w-1, a.a.w); !isZero(hi) {
			return c.F
		}
		return c.Eq(a.a, lo)
	}
	if a.op == OpAdd && a.b.isConst() && b.isConst() {
		return c.Eq(a.a, c.Bin(OpSub, b, a.b))
	}
	if a.op == OpAdd && b.op == OpAdd && a.b.isConst() && a.b == b.b {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OpEq, a: a, b: b}, nil)
}

func (c *TermCtx) mapLeavesBool(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpConst {
		return f(t)
	}
	return c.Ite(t.a, c.mapLeavesBool(t.b, f), c.mapLeavesBool(t.c, f))
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width")
	}
	if a.isConst() && b.isConst() {
		var r bool
		if a.w <= 64 {
			switch op {
			case OpULt:
				r = a.v < b.v
			case OpULe:
				r = a.v <= b.v
			case OpSLt:
				r = sx(a.v, a.w) < sx(b.v, b.w)
			case OpSLe:
				r = sx(a.v, a.w) <= sx(b.v, b.w)
			}
		} else {
			x, y := a.bigv(), b.bigv()
			if op == OpSLt || op == OpSLe {
				x, y = bigSigned(x, a.w), bigSigned(y, b.w)
			}
			k := x.Cmp(y)
			r = k < 0 || (k == 0 && (op == OpULe || op == OpSLe))
		}
		return c.Bool(r)
	}
	if a == b {
		return c.Bool(op == OpULe || op == OpSLe)
	}
	if a.isConst() && b.leaves > 1 && b.leaves <= maxLeaves*4 {
		return c.mapLeavesBool(b, func(x *Term) *Term { return c.Cmp(op, a, x) })
	}
	if b.isConst() && a.leaves > 1 && a.leaves <= maxLeaves*4 {
		return c.mapLeavesBool(a, func(x *Term) *Term { return c.Cmp(op, x, b) })
	}
	if a.leaves > 1 && b.leaves > 1 && a.leaves*b.leaves <= 64 {
		return c.mapLeavesBool(a, func(x *Term) *Term {
			return c.mapLeavesBool(b, func(y *Term) *Term { return c.Cmp(op, x, y) })
		})
	}
	switch op {
	case OpULt:
		if b.isConst() && isZero(b) {
			return c.F
		}
	case OpULe:
		if a.isConst() && isZero(a) {
			return c.T
		}
	}
	// zero-extended operands: range reasoning and signed -> unsigned
	if (op == OpSLt || op == OpSLe) && nonNeg(a) && nonNeg(b) {
		if op == OpSLt {
			op = OpULt
		} else {
			op = OpULe
		}
	}
	if op == OpULt || op == OpULe {
		_, ha := bitsUsed(a)
		lb, hb := bitsUsed(b)
		if b.isConst() && hb > ha {
			return c.T // a < 2^ha <= b
		}
		la, hA := bitsUsed(a)
		_ = la
		_ = lb
		if a.isConst() && hA > hb {
			return c.F
		}
	}
	return c.mk(termKey{op: op, a: a, b: b}, nil)
}

func nonNeg(t *Term) bool {
	if t.isConst() {
		return t.bigv().Bit(t.w-1) == 0
	}
	_, h := bitsUsed(t)
	return h < t.w
}

func (c *TermCtx) Concat(hi, lo *Term) *Term {
	if hi.w == 0 || lo.w == 0 {
		panic("concat of bool")
	}
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		v := new(big.Int).Lsh(hi.bigv(), uint(lo.w))
		return c.BigConst(w, v.Or(v, lo.bigv()))
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.a == lo.a && int(hi.v) == int(lo.v)+lo.w {
		return c.Extract(hi.a, int(hi.v)+hi.w-1, int(lo.v))
	}
	// extract(x, top..k) ++ rest where lo is concat starting with matching extract
	if lo.op == OpConcat && hi.op == OpExtract && lo.a.op == OpExtract && hi.a == lo.a.a && int(hi.v) == int(lo.a.v)+lo.a.w {
		return c.Concat(c.Extract(hi.a, int(hi.v)+hi.w-1, int(lo.a.v)), lo.b)
	}
	if hi.op == OpConcat && lo.op == OpExtract && hi.b.op == OpExtract && hi.b.a == lo.a && int(hi.b.v) == int(lo.v)+lo.w {
		return c.Concat(hi.a, c.Extract(lo.a, int(hi.b.v)+hi.b.w-1, int(lo.v)))
	}
	if hi.isConst() && isZero(hi) {
		return c.ZExt(lo, w)
	}
	// right-assoc normal form: (x ++ y) ++ z -> x ++ (y ++ z)
	if hi.op == OpConcat {
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	if hi.isConst() && lo.op == OpConcat && lo.a.isConst() {
		return c.Concat(c.Concat(hi, lo.a), lo.b)
	}
	return c.mk(termKey{op: OpConcat, w: w, a: hi, b: lo}, nil)
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if w <= 0 || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	switch a.op {
	case OpConst:
		return c.BigConst(w, new(big.Int).Rsh(a.bigv(), uint(lo)))
	case OpExtract:
		return c.Extract(a.a, int(a.v)+hi, int(a.v)+lo)
	case OpConcat:
		lw := a.b.w
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a, hi-lw, 0), c.Extract(a.b, lw-1, lo))
	case OpZExt:
		iw := a.a.w
		if lo >= iw {
			return c.Const(w, 0)
		}
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		return c.ZExt(c.Extract(a.a, iw-1, lo), w)
	case OpSExt:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
	case OpIte:
		if a.leaves > 0 && a.leaves <= maxLeaves {
			return c.mapLeaves(a, func(x *Term) *Term { return c.Extract(x, hi, lo) })
		}
	case OpAnd, OpOr, OpXor:
		return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	}
	return c.mk(termKey{op: OpExtract, w: w, a: a, v: uint64(lo)}, nil)
}

func (c *TermCtx) ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrower")
	}
	if a.isConst() {
		return c.BigConst(w, a.bigv())
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	if a.leaves > 1 && a.leaves <= maxLeaves {
		return c.mapLeaves(a, func(x *Term) *Term { return c.ZExt(x, w) })
	}
	return c.mk(termKey{op: OpZExt, w: w, a: a}, nil)
}

func (c *TermCtx) SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.BigConst(w, bigSigned(a.bigv(), a.w))
	}
	if nonNeg(a) {
		return c.ZExt(a, w)
	}
	if a.leaves > 1 && a.leaves <= maxLeaves {
		return c.mapLeaves(a, func(x *Term) *Term { return c.SExt(x, w) })
	}
	return c.mk(termKey{op: OpSExt, w: w, a: a}, nil)
}

// ---- evaluation under a model

type Model map[*Term]*big.Int

type evaluator struct {
	m    Model
	memo map[*Term]*big.Int
	uf   func(name string, arg *big.Int) *big.Int
}

func newEvaluator(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]*big.Int{}} }

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func (e *evaluator) bool(t *Term) bool { return e.eval(t).Sign() != 0 }

func (e *evaluator) eval(t *Term) *big.Int {
	if t.op == OpConst {
		return t.bigv()
	}
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.eval1(t)
	e.memo[t] = r
	return r
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func modw(v *big.Int, w int) *big.Int {
	if v.Sign() >= 0 && v.BitLen() <= w {
		return v
	}
	m := new(big.Int).Lsh(bigOne, uint(w))
	return new(big.Int).Mod(v, m)
}

func (e *evaluator) eval1(t *Term) *big.Int {
	switch t.op {
	case OpVar:
		if v, ok := e.m[t]; ok {
			return v
		}
		return bigZero
	case OpUF:
		arg := e.eval(t.a)
		if e.uf != nil {
			return e.uf(t.name, arg)
		}
		return bigZero
	case OpNot:
		if t.w == 0 {
			return b2i(!e.bool(t.a))
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(t.w)), bigOne)
		return m.Xor(m, e.eval(t.a))
	case OpEq:
		return b2i(e.eval(t.a).Cmp(e.eval(t.b)) == 0)
	case OpULt:
		return b2i(e.eval(t.a).Cmp(e.eval(t.b)) < 0)
	case OpULe:
		return b2i(e.eval(t.a).Cmp(e.eval(t.b)) <= 0)
	case OpSLt:
		return b2i(bigSigned(e.eval(t.a), t.a.w).Cmp(bigSigned(e.eval(t.b), t.b.w)) < 0)
	case OpSLe:
		return b2i(bigSigned(e.eval(t.a), t.a.w).Cmp(bigSigned(e.eval(t.b), t.b.w)) <= 0)
	case OpIte:
		if e.bool(t.a) {
			return e.eval(t.b)
		}
		return e.eval(t.c)
	case OpBAnd:
		return b2i(e.bool(t.a) && e.bool(t.b))
	case OpBOr:
		return b2i(e.bool(t.a) || e.bool(t.b))
	case OpConcat:
		v := new(big.Int).Lsh(e.eval(t.a), uint(t.b.w))
		return v.Or(v, e.eval(t.b))
	case OpExtract:
		return modw(new(big.Int).Rsh(e.eval(t.a), uint(t.v)), t.w)
	case OpZExt:
		return e.eval(t.a)
	case OpSExt:
		return modw(bigSigned(e.eval(t.a), t.a.w), t.w)
	}
	a, b := e.eval(t.a), e.eval(t.b)
	switch t.op {
	case OpAShr:
		x := bigSigned(a, t.w)
		k := uint(t.w)
		if b.IsUint64() && b.Uint64() < uint64(t.w) {
			k = uint(b.Uint64())
		}
		return modw(new(big.Int).Rsh(x, k), t.w)
	case OpUDiv:
		if b.Sign() == 0 {
			return modw(big.NewInt(-1), t.w)
		}
	case OpURem, OpSRem:
		if b.Sign() == 0 {
			return a
		}
	case OpSDiv:
		if b.Sign() == 0 {
			if bigSigned(a, t.w).Sign() < 0 {
				return bigOne
			}
			return modw(big.NewInt(-1), t.w)
		}
	}
	r, ok := foldBigBin(t.op, t.w, a, b)
	if !ok {
		panic("eval: op")
	}
	return modw(r, t.w)
}

// ---- SMT-LIB printing

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.v != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.bigv().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(s)) + s
	}
	s := t.bigv().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return smtConst(t)
	case OpVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes the definitions needed for t that are not yet defined in this solver epoch.
func emit(sb *strings.Builder, t *Term, epoch int) {
	if t.op == OpConst || t.defined == epoch {
		return
	}
	t.defined = epoch
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortName(t.w))
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			emit(sb, x, epoch)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OpNot:
		if t.w == 0 {
			fmt.Fprintf(sb, "(not %s)", ref(t.a))
		} else {
			fmt.Fprintf(sb, "(bvnot %s)", ref(t.a))
		}
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", int(t.v)+t.w-1, t.v, ref(t.a))
	case OpZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpIte:
		fmt.Fprintf(sb, "(ite %s %s %s)", ref(t.a), ref(t.b), ref(t.c))
	case OpUF:
		fmt.Fprintf(sb, "(%s %s)", t.name, ref(t.a))
	default:
		fmt.Fprintf(sb, "(%s %s %s)", smtOps[t.op], ref(t.a), ref(t.b))
	}
	sb.WriteString(")\n")
}

// varsOf collects variables of a term.
func varsOf(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		*out = append(*out, t)
		return
	}
	varsOf(t.a, seen, out)
	varsOf(t.b, seen, out)
	varsOf(t.c, seen, out)
}

func (t *Term) String() string {
	switch t.op {
	case OpConst, OpVar:
		return ref(t)
	case OpExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a, int(t.v)+t.w-1, t.v)
	case OpNot:
		return "!" + t.a.String()
	case OpZExt, OpSExt:
		return fmt.Sprintf("ext%d(%s)", t.w, t.a)
	case OpIte:
		return fmt.Sprintf("ite(%s,%s,%s)", t.a, t.b, t.c)
	case OpUF:
		return fmt.Sprintf("%s(%s)", t.name, t.a)
	}
	return fmt.Sprintf("(%s %s %s)", smtOps[t.op], t.a, t.b)
}
