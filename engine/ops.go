package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const nilDeref = "invalid memory address or nil pointer dereference"

func (ex *Exec) unop(fr *frame, in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(*value)
		if !ok {
			panic(unsupported(fmt.Sprintf("load through %T in %s", x, fr.fi.name)))
		}
		if p == nil {
			ex.panicRuntime(nilDeref)
		}
		v := *p
		switch y := v.(type) {
		case structure, array:
			return copyVal(v)
		case *poison:
			panic(unsupported("use of uninitialised value: " + y.why))
		}
		return v
	case token.ARROW:
		v, ok := ex.chanRecv(fr.g, x)
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return fromTerm(ex.ctx.Not(b))
		}
	case token.SUB:
		switch b := x.(type) {
		case float64:
			return -b
		case uint64:
			w, _, _ := intInfo(in.X.Type())
			return (-b) & mask(w)
		case *Term:
			return fromTerm(ex.ctx.Bin(OpSub, ex.ctx.Const(b.w, 0), b))
		}
	case token.XOR:
		switch b := x.(type) {
		case uint64:
			w, _, _ := intInfo(in.X.Type())
			return (^b) & mask(w)
		case *Term:
			return fromTerm(ex.ctx.BVNot(b))
		}
	}
	panic(unsupported(fmt.Sprintf("unary %s on %T", in.Op, x)))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) binop(op token.Token, tx, ty types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return fromTerm(ex.eqMixed(tx, ty, x, y))
	case token.NEQ:
		return fromTerm(ex.ctx.Not(ex.eqMixed(tx, ty, x, y)))
	}
	if w, signed, ok := intInfo(tx); ok {
		return ex.intBin(op, w, signed, ty, x, y)
	}
	if isString(tx) {
		return ex.strBin(op, x, y)
	}
	switch a := x.(type) {
	case float64:
		b, ok := y.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool, *Term:
		ta, tb := ex.boolTerm(x), ex.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return fromTerm(ex.ctx.And(ta, tb))
		case token.OR, token.LOR:
			return fromTerm(ex.ctx.Or(ta, tb))
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T, %T", op, x, y)))
}

func (ex *Exec) eqMixed(tx, ty types.Type, x, y value) *Term {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if _, isP := x.(*poison); isP {
		panic(unsupported("comparison with uninitialised value"))
	}
	if ix && !iy {
		if _, isI := y.(iface); !isI {
			y = iface{t: ty, v: y}
		}
		return ex.eqVal(tx, x, y)
	}
	if iy && !ix {
		if _, isI := x.(iface); !isI {
			x = iface{t: tx, v: x}
		}
		return ex.eqVal(ty, x, y)
	}
	if _, isSl := tx.Underlying().(*types.Slice); isSl {
		return ex.ctx.Bool(isNilPtr(x) && isNilPtr(y))
	}
	return ex.eqVal(tx, x, y)
}

func (ex *Exec) intBin(op token.Token, w int, signed bool, ty types.Type, x, y value) value {
	a, ok1 := x.(uint64)
	b, ok2 := y.(uint64)
	if op == token.SHL || op == token.SHR {
		return ex.shift(op, w, signed, ty, x, y)
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return (a + b) & mask(w)
		case token.SUB:
			return (a - b) & mask(w)
		case token.MUL:
			return (a * b) & mask(w)
		case token.QUO, token.REM:
			if b == 0 {
				ex.panicRuntime("integer divide by zero")
			}
			if signed {
				p, q := sx(a, w), sx(b, w)
				if q == -1 {
					if op == token.QUO {
						return uint64(-p) & mask(w)
					}
					return uint64(0)
				}
				if op == token.QUO {
					return uint64(p/q) & mask(w)
				}
				return uint64(p%q) & mask(w)
			}
			if op == token.QUO {
				return a / b
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if signed {
				p, q := sx(a, w), sx(b, w)
				switch op {
				case token.LSS:
					return p < q
				case token.LEQ:
					return p <= q
				case token.GTR:
					return p > q
				default:
					return p >= q
				}
			}
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			default:
				return a >= b
			}
		}
	}
	c := ex.ctx
	s, t := ex.term(x, w), ex.term(y, w)
	switch op {
	case token.ADD:
		return fromTerm(c.Bin(OpAdd, s, t))
	case token.SUB:
		return fromTerm(c.Bin(OpSub, s, t))
	case token.MUL:
		return fromTerm(c.Bin(OpMul, s, t))
	case token.QUO, token.REM:
		if ex.decide(c.Eq(t, c.Const(w, 0))) {
			ex.panicRuntime("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case signed && op == token.QUO:
			o = OpSDiv
		case signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		if signed && nonNeg(s) && nonNeg(t) {
			if op == token.QUO {
				o = OpUDiv
			} else {
				o = OpURem
			}
		}
		return fromTerm(c.Bin(o, s, t))
	case token.AND:
		return fromTerm(c.Bin(OpAnd, s, t))
	case token.OR:
		return fromTerm(c.Bin(OpOr, s, t))
	case token.XOR:
		return fromTerm(c.Bin(OpXor, s, t))
	case token.AND_NOT:
		return fromTerm(c.Bin(OpAnd, s, c.BVNot(t)))
	}
	lt, le := OpULt, OpULe
	if signed {
		lt, le = OpSLt, OpSLe
	}
	switch op {
	case token.LSS:
		return fromTerm(c.Cmp(lt, s, t))
	case token.LEQ:
		return fromTerm(c.Cmp(le, s, t))
	case token.GTR:
		return fromTerm(c.Cmp(lt, t, s))
	case token.GEQ:
		return fromTerm(c.Cmp(le, t, s))
	}
	panic(unsupported("integer operator " + op.String()))
}

func (ex *Exec) shift(op token.Token, w int, signed bool, ty types.Type, x, y value) value {
	wy, sy, _ := intInfo(ty)
	if b, ok := y.(uint64); ok {
		if sy && sx(b, wy) < 0 {
			ex.panicRuntime("negative shift amount")
		}
		if a, ok := x.(uint64); ok {
			if op == token.SHL {
				if b >= uint64(w) {
					return uint64(0)
				}
				return (a << b) & mask(w)
			}
			if signed {
				p := sx(a, w)
				if b >= 64 {
					b = 63
				}
				return uint64(p>>b) & mask(w)
			}
			if b >= uint64(w) {
				return uint64(0)
			}
			return a >> b
		}
		if b > uint64(w) {
			b = uint64(w)
		}
		return ex.shiftTerm(op, w, signed, ex.term(x, w), ex.ctx.Const(w, b))
	}
	t := ex.term(y, wy)
	if sy && ex.decide(ex.ctx.Cmp(OpSLt, t, ex.ctx.Const(wy, 0))) {
		ex.panicRuntime("negative shift amount")
	}
	if wy < w {
		t = ex.ctx.ZExt(t, w)
	} else if wy > w {
		big := ex.ctx.Cmp(OpULt, ex.ctx.Const(wy, uint64(w)), t)
		t = ex.ctx.Ite(big, ex.ctx.Const(w, uint64(w)), ex.ctx.Extract(t, w-1, 0))
	}
	return ex.shiftTerm(op, w, signed, ex.term(x, w), t)
}

func (ex *Exec) shiftTerm(op token.Token, w int, signed bool, s, t *Term) value {
	o := OpShl
	if op == token.SHR {
		o = OpLShr
		if signed {
			o = OpAShr
		}
	}
	return fromTerm(ex.ctx.Bin(o, s, t))
}

func (ex *Exec) strBin(op token.Token, x, y value) value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	if op == token.ADD {
		if ok1 && a == "" {
			return y
		}
		if ok2 && b == "" {
			return x
		}
		if _, o := x.(*opaqueStr); o {
			return &opaqueStr{kind: "cat", payload: []value{x, y}}
		}
		if _, o := y.(*opaqueStr); o {
			return &opaqueStr{kind: "cat", payload: []value{x, y}}
		}
		return mkStr(append(append([]value(nil), strBytes(x)...), strBytes(y)...))
	}
	switch op {
	case token.LSS:
		return ex.truthTerm(ex.strLess(x, y))
	case token.GTR:
		return ex.truthTerm(ex.strLess(y, x))
	case token.LEQ:
		return ex.truthTerm(ex.ctx.Not(ex.strLess(y, x)))
	case token.GEQ:
		return ex.truthTerm(ex.ctx.Not(ex.strLess(x, y)))
	}
	panic(unsupported("string operator " + op.String()))
}

func (ex *Exec) truthTerm(t *Term) value { return fromTerm(t) }

func (ex *Exec) strLess(x, y value) *Term { return ex.bytesLess(strBytes(x), strBytes(y)) }

// bytesLess builds lexicographic a < b.
func (ex *Exec) bytesLess(a, b []value) *Term {
	c := ex.ctx
	n := min(len(a), len(b))
	r := c.Bool(len(a) < len(b))
	if len(a) == len(b) && n > 0 {
		ta, tb := ex.bytesTerm(a), ex.bytesTerm(b)
		if ta != nil && tb != nil {
			return c.Cmp(OpULt, ta, tb)
		}
	}
	for i := n - 1; i >= 0; i-- {
		p, q := ex.term(a[i], 8), ex.term(b[i], 8)
		r = c.Or(c.Cmp(OpULt, p, q), c.And(c.Eq(p, q), r))
	}
	return r
}

// ---- conversions

func (ex *Exec) convert(to, from types.Type, x value) value {
	tu, fu := to.Underlying(), from.Underlying()
	if tp, ok := tu.(*types.TypeParam); ok {
		panic(unsupported("conversion to type parameter " + tp.String()))
	}
	wf, sf, fi := intInfo(from)
	wt, _, ti := intInfo(to)
	if fi && ti {
		switch a := x.(type) {
		case uint64:
			if sf {
				return uint64(sx(a, wf)) & mask(wt)
			}
			return a & mask(wt)
		case *Term:
			if wt == wf {
				return a
			}
			if wt < wf {
				return fromTerm(ex.ctx.Extract(a, wt-1, 0))
			}
			if sf {
				return fromTerm(ex.ctx.SExt(a, wt))
			}
			return fromTerm(ex.ctx.ZExt(a, wt))
		}
		return x
	}
	tb, isTB := tu.(*types.Basic)
	fb, isFB := fu.(*types.Basic)
	if isTB && tb.Info()&types.IsFloat != 0 {
		if fi {
			switch a := x.(type) {
			case uint64:
				if sf {
					return float64(sx(a, wf))
				}
				return float64(a)
			case *Term:
				return &symFloat{op: "int", t: a}
			}
		}
		if f, ok := x.(float64); ok {
			if tb.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		return x
	}
	if isFB && fb.Info()&types.IsFloat != 0 && ti {
		switch f := x.(type) {
		case float64:
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return uint64(1) << 63 & mask(wt)
			}
			if f < 0 {
				return uint64(int64(f)) & mask(wt)
			}
			if f >= 9.3e18 {
				return uint64(f) & mask(wt)
			}
			return uint64(int64(f)) & mask(wt)
		case *symFloat:
			return ex.symFloatToInt(f, wt)
		}
	}
	// strings
	if isTB && tb.Info()&types.IsString != 0 {
		switch a := x.(type) {
		case uint64:
			return string(rune(int64(sx(a, wf))))
		case *Term:
			return string(rune(ex.concInt(a)))
		case string, *symStr, *opaqueStr:
			return x
		case []value:
			el := fu.(*types.Slice).Elem()
			if w, _, _ := intInfo(el); w == 8 {
				return mkStr(a)
			}
			var sb strings.Builder
			for _, e := range a {
				sb.WriteRune(rune(ex.concInt(e)))
			}
			return sb.String()
		}
	}
	if isFB && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				if o, ok := x.(*opaqueStr); ok {
					return []value{o}
				}
				b := strBytes(x)
				r := make([]value, len(b))
				copy(r, b)
				return r
			}
			r := []value{}
			switch s := x.(type) {
			case string:
				for _, c := range s {
					r = append(r, uint64(uint32(c)))
				}
				return r
			default:
				it := &strIter{s: s}
				for {
					t := ex.nextStr(ex.cur, it, s)
					if t[0] == false {
						break
					}
					r = append(r, t[2])
				}
				return r
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	if isTB && tb.Kind() == types.UnsafePointer || isFB && fb.Kind() == types.UnsafePointer {
		return x
	}
	if isTB && tb.Info()&types.IsBoolean != 0 {
		return x
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func (ex *Exec) symFloatToInt(f *symFloat, wt int) value {
	c := ex.ctx
	t := f.t
	switch f.op {
	case "int":
		if t.w < wt {
			return fromTerm(c.ZExt(t, wt))
		}
		return fromTerm(c.Extract(t, wt-1, 0))
	case "ceillog2": // smallest k with 2^k >= t, for t >= 1
		if ex.decide(c.Eq(t, c.Const(t.w, 0))) {
			return uint64(1) << 63 & mask(wt)
		}
		r := c.Const(wt, uint64(t.w))
		for k := t.w - 1; k >= 0; k-- {
			r = c.Ite(c.Cmp(OpULe, t, c.Const(t.w, uint64(1)<<uint(k))), c.Const(wt, uint64(k)), r)
		}
		return fromTerm(r)
	case "floorlog2", "log2":
		if ex.decide(c.Eq(t, c.Const(t.w, 0))) {
			return uint64(1) << 63 & mask(wt)
		}
		r := c.Const(wt, 0)
		for k := 1; k < t.w; k++ {
			r = c.Ite(c.Cmp(OpULe, c.Const(t.w, uint64(1)<<uint(k)), t), c.Const(wt, uint64(k)), r)
		}
		return fromTerm(r)
	}
	panic(unsupported("symbolic float " + f.op))
}

// ---- slices and indexing

func (ex *Exec) bounds(i value, n int) int {
	switch x := i.(type) {
	case uint64:
		if x >= uint64(n) {
			ex.panicRuntime(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n))
		}
		return int(x)
	case *Term:
		ok := ex.ctx.Cmp(OpULt, x, ex.ctx.Const(x.w, uint64(n)))
		if x.w < 64 && uint64(n) > mask(x.w) {
			ok = ex.ctx.T
		}
		if !ex.decide(ok) {
			ex.panicRuntime(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(ex.concretize(x))
	}
	panic(unsupported(fmt.Sprintf("index %T", i)))
}

// idx64 widens an index operand to a uint64-compatible value, treating negative values as out of range.
func (ex *Exec) idxVal(t types.Type, i value) value {
	w, signed, _ := intInfo(t)
	if w == 64 || !signed {
		return i
	}
	switch x := i.(type) {
	case uint64:
		return uint64(sx(x, w))
	case *Term:
		return fromTerm(ex.ctx.SExt(x, 64))
	}
	return i
}

func onlyLoaded(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
	}
	return true
}

func (ex *Exec) indexAddr(in *ssa.IndexAddr, x, i value) value {
	var s []value
	switch a := x.(type) {
	case []value:
		s = a
	case *value:
		if a == nil {
			ex.panicRuntime(nilDeref)
		}
		arr, ok := (*a).(array)
		if !ok {
			panic(unsupported(fmt.Sprintf("index of %T", *a)))
		}
		s = arr
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	i = ex.idxVal(in.Index.Type(), i)
	if t, ok := i.(*Term); ok && len(s) <= 512 && onlyLoaded(in) {
		if v, ok := ex.selectIte(s, t); ok {
			p := new(value)
			*p = v
			return p
		}
	}
	return &s[ex.bounds(i, len(s))]
}

// selectIte reads s[t] as an if-then-else chain when all elements are scalars.
func (ex *Exec) selectIte(s []value, t *Term) (value, bool) {
	w := -1
	for _, e := range s {
		switch y := e.(type) {
		case *Term:
			w = y.w
		case uint64:
		case bool:
			w = 0
		default:
			return nil, false
		}
	}
	if len(s) == 0 {
		return nil, false
	}
	if w == -1 {
		w = 64
		return nil, false // width unknown for purely concrete integers; handled by the caller's concretisation
	}
	ok := ex.ctx.T
	if t.w >= 64 || uint64(len(s)) <= mask(t.w) {
		ok = ex.ctx.Cmp(OpULt, t, ex.ctx.Const(t.w, uint64(len(s))))
	}
	if !ex.decide(ok) {
		ex.panicRuntime(fmt.Sprintf("index out of range with length %d", len(s)))
	}
	r := ex.term(s[len(s)-1], w)
	for k := len(s) - 2; k >= 0; k-- {
		r = ex.ctx.Ite(ex.ctx.Eq(t, ex.ctx.Const(t.w, uint64(k))), ex.term(s[k], w), r)
	}
	return fromTerm(r), true
}

func (ex *Exec) index(in *ssa.Index, x, i value) value {
	i = ex.idxVal(in.Index.Type(), i)
	switch a := x.(type) {
	case array:
		return a[ex.bounds(i, len(a))]
	case string:
		return uint64(a[ex.bounds(i, len(a))])
	case *symStr:
		return a.b[ex.bounds(i, len(a.b))]
	case *opaqueStr:
		panic(unsupported("byte of rendered string " + a.kind))
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (ex *Exec) lookup(in *ssa.Lookup, x, i value) value {
	switch m := x.(type) {
	case *mapObj:
		ex.raceMap(m, false)
		e := ex.mapFind(m, i)
		if e == nil {
			z := zero(in.X.Type().Underlying().(*types.Map).Elem())
			if in.CommaOk {
				return tuple{z, false}
			}
			return z
		}
		if in.CommaOk {
			return tuple{copyVal(e.v), true}
		}
		return copyVal(e.v)
	case string:
		return uint64(m[ex.bounds(ex.idxVal(in.Index.Type(), i), len(m))])
	case *symStr:
		return m.b[ex.bounds(ex.idxVal(in.Index.Type(), i), len(m.b))]
	}
	panic(unsupported(fmt.Sprintf("lookup in %T", x)))
}

const maxAlloc = 1 << 24 // elements; anything larger counts as exhausting memory

func (ex *Exec) sizeArg(t types.Type, v value, what string) int {
	w, signed, _ := intInfo(t)
	switch x := v.(type) {
	case uint64:
		n := int64(x)
		if signed {
			n = sx(x, w)
		}
		if n < 0 || !signed && x > 1<<62 {
			ex.panicRuntime("makeslice: " + what + " out of range")
		}
		if n > maxAlloc {
			ex.exhaust(fmt.Sprintf("allocation of %d elements", n))
		}
		return int(n)
	case *Term:
		c := ex.ctx
		if signed && ex.decide(c.Cmp(OpSLt, x, c.Const(w, 0))) {
			ex.panicRuntime("makeslice: " + what + " out of range")
		}
		if w > 24 && ex.decide(c.Cmp(OpULt, c.Const(w, maxAlloc), x)) {
			ex.exhaust("allocation of an input-controlled number of elements")
		}
		return -1
	}
	panic(unsupported(fmt.Sprintf("size %T", v)))
}

// exhaust ends the path with a resource violation: the program would run out of memory or panic.
func (ex *Exec) exhaust(msg string) {
	ex.panicRuntime("makeslice: out of range: " + msg)
}

func (ex *Exec) makeSlice(in *ssa.MakeSlice, ln, cp value) value {
	n := ex.sizeArg(in.Len.Type(), ln, "len")
	if n < 0 {
		n = ex.concInt(ln)
	}
	c := ex.sizeArg(in.Cap.Type(), cp, "cap")
	if c < 0 { // symbolic capacity: any value within limits behaves alike
		c = n
		w, _, _ := intInfo(in.Cap.Type())
		if n > 0 && ex.decide(ex.ctx.Cmp(OpULt, ex.term(cp, w), ex.ctx.Const(w, uint64(n)))) {
			ex.panicRuntime("makeslice: cap out of range")
		}
	}
	if c < n {
		ex.panicRuntime("makeslice: cap out of range")
	}
	if c > 1<<16 && n < 1<<12 {
		c = n // the capacity itself is not observable except through aliasing of appends
	}
	el := in.Type().Underlying().(*types.Slice).Elem()
	r := make([]value, n, c)
	fill(r, el)
	return r
}

func fill(r []value, el types.Type) {
	if len(r) == 0 {
		return
	}
	z := zero(el)
	switch z.(type) {
	case structure, array:
		r[0] = z
		for i := 1; i < len(r); i++ {
			r[i] = zero(el)
		}
	default:
		for i := range r {
			r[i] = z
		}
	}
}

// extendZero fills the elements of s between its length and hi when reslicing beyond the length.
func extendZero(full []value, from, to int, el types.Type) {
	for i := from; i < to; i++ {
		if full[i] == nil {
			full[i] = zero(el)
		}
	}
}

func (ex *Exec) slice(fr *frame, in *ssa.Slice, ops []opnd) value {
	x := fr.get(&ops[0])
	k := 1
	var lo, hi, mx value
	if in.Low != nil {
		lo = ex.idxVal(in.Low.Type(), fr.get(&ops[k]))
	}
	k++
	if in.High != nil {
		hi = ex.idxVal(in.High.Type(), fr.get(&ops[k]))
	}
	k++
	if in.Max != nil {
		mx = ex.idxVal(in.Max.Type(), fr.get(&ops[k]))
	}
	bound := func(v value, n int) int {
		switch y := v.(type) {
		case uint64:
			if y > uint64(n) {
				ex.panicRuntime(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", int64(y), n))
			}
			return int(y)
		case *Term:
			if !ex.decide(ex.ctx.Cmp(OpULe, y, ex.ctx.Const(y.w, uint64(n)))) {
				ex.panicRuntime(fmt.Sprintf("slice bounds out of range with capacity %d", n))
			}
			return int(ex.concretize(y))
		}
		panic(unsupported("slice bound"))
	}
	switch a := x.(type) {
	case string, *symStr:
		n := strLen(a)
		h := n
		if hi != nil {
			h = bound(hi, n)
		}
		l := 0
		if lo != nil {
			l = bound(lo, h)
		}
		if s, ok := a.(string); ok {
			return s[l:h]
		}
		return mkStr(a.(*symStr).b[l:h])
	case *opaqueStr:
		panic(unsupported("slice of rendered string " + a.kind))
	}
	var s []value
	var el types.Type
	switch a := x.(type) {
	case []value:
		s = a
		el = in.X.Type().Underlying().(*types.Slice).Elem()
	case *value:
		if a == nil {
			ex.panicRuntime(nilDeref)
		}
		arr, ok := (*a).(array)
		if !ok {
			panic(unsupported("slice of non-array"))
		}
		s = arr[:len(arr):len(arr)]
		el = in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	m := cap(s)
	if mx != nil {
		m = bound(mx, cap(s))
	}
	h := len(s)
	if hi != nil {
		h = bound(hi, m)
	} else if h > m {
		ex.panicRuntime("slice bounds out of range")
	}
	l := 0
	if lo != nil {
		l = bound(lo, h)
	}
	if h > len(s) {
		extendZero(s[:m:m], len(s), h, el)
	}
	if s == nil {
		return []value(nil)
	}
	return s[l:h:m]
}

// ---- type assertions

func (ex *Exec) typeAssert(in *ssa.TypeAssert, x value) value {
	v, ok := x.(iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", x)))
	}
	var good bool
	var res value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		good = v.t != nil && ex.w.run.prog.implements(v.t, it)
		res = v
	} else {
		good = v.t != nil && types.Identical(v.t, in.AssertedType)
		res = v.v
		if good {
			res = copyVal(v.v)
		}
	}
	if in.CommaOk {
		if !good {
			return tuple{zero(in.AssertedType), false}
		}
		return tuple{res, true}
	}
	if !good {
		have := "nil"
		if v.t != nil {
			have = v.t.String()
		}
		ex.panicRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType))
	}
	return res
}

// ---- range

type strIter struct {
	s   value
	pos int
}

type mapIter struct {
	m    *mapObj
	keys []*mapEntry
	pos  int
}

func (ex *Exec) rangeIter(x value, t types.Type) value {
	switch a := x.(type) {
	case *mapObj:
		if a == nil {
			return &mapIter{}
		}
		ex.raceMap(a, false)
		keys := append([]*mapEntry(nil), a.entries...)
		if ex.mapOrders && len(keys) > 1 && len(keys) <= 4 {
			for i := 0; i < len(keys)-1; i++ {
				j := i + ex.choose(len(keys)-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		return &mapIter{m: a, keys: keys}
	case string, *symStr:
		return &strIter{s: x}
	case *opaqueStr:
		panic(unsupported("range over rendered string"))
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

// nextStr yields the next rune of a string with symbolic bytes.
func (ex *Exec) nextStr(g *gor, r *strIter, x value) tuple {
	bs := strBytes(x)
	if r.pos >= len(bs) {
		return tuple{false, uint64(0), uint64(0)}
	}
	p := r.pos
	switch b := bs[p].(type) {
	case uint64:
		if b < utf8.RuneSelf {
			r.pos++
			return tuple{true, uint64(p), b}
		}
	case *Term:
		if ex.decide(ex.ctx.Cmp(OpULt, b, ex.ctx.Const(8, 128))) {
			r.pos++
			return tuple{true, uint64(p), fromTerm(ex.ctx.ZExt(b, 32))}
		}
	}
	fn := ex.w.run.prog.fnOf("unicode/utf8", "DecodeRuneInString")
	if fn == nil {
		panic(unsupported("range over symbolic non-ASCII string"))
	}
	t := ex.callSSA(g, fn, []value{mkStr(bs[p:])}, nil).(tuple)
	r.pos += ex.concInt(t[1])
	return tuple{true, uint64(p), t[0]}
}

func (ex *Exec) nextIter(g *gor, it value, in *ssa.Next) value {
	switch r := it.(type) {
	case *strIter:
		switch s := r.s.(type) {
		case string:
			if r.pos >= len(s) {
				return tuple{false, uint64(0), uint64(0)}
			}
			c, n := utf8.DecodeRuneInString(s[r.pos:])
			p := r.pos
			r.pos += n
			return tuple{true, uint64(p), uint64(uint32(c))}
		case *symStr:
			return ex.nextStr(g, r, s)
		}
	case *mapIter:
		for r.pos < len(r.keys) {
			e := r.keys[r.pos]
			r.pos++
			if e.dead {
				continue
			}
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		return tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	}
	panic(unsupported("next"))
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// ---- builtins

func (ex *Exec) builtin(fr *frame, b *ssa.Builtin, args []value) value {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case []value:
			if len(a) == 1 {
				if bl, ok := a[0].(*blob); ok {
					panic(unsupported("length of " + bl.codec + " encoding"))
				}
			}
			return uint64(len(a))
		case string, *symStr, *opaqueStr:
			return uint64(strLen(a))
		case *mapObj:
			if a == nil {
				return uint64(0)
			}
			ex.raceMap(a, false)
			return uint64(a.n)
		case *chanObj:
			if a == nil {
				return uint64(0)
			}
			return uint64(len(a.buf))
		case array:
			return uint64(len(a))
		case *value:
			return uint64(len((*a).(array)))
		}
	case "cap":
		switch a := args[0].(type) {
		case []value:
			return uint64(cap(a))
		case *chanObj:
			if a == nil {
				return uint64(0)
			}
			return uint64(a.cap)
		case array:
			return uint64(len(a))
		case *value:
			return uint64(len((*a).(array)))
		}
	case "append":
		s, ok := args[0].([]value)
		if !ok {
			break
		}
		if len(args) == 1 {
			return s
		}
		switch t := args[1].(type) {
		case []value:
			if len(t) == 0 {
				return s
			}
			n := len(s)
			if n+len(t) <= cap(s) {
				s = s[:n+len(t)]
			} else {
				c := growCap(cap(s), n+len(t))
				ns := make([]value, n+len(t), c)
				copy(ns, s)
				s = ns
			}
			// copy through a temporary in case of overlap
			for i := range t {
				s[n+i] = copyVal(t[i])
			}
			return s
		case string, *symStr:
			bs := strBytes(t)
			if len(bs) == 0 {
				return s
			}
			return append(s, bs...)
		case *opaqueStr:
			if len(s) == 0 {
				return []value{t}
			}
			panic(unsupported("append of rendered string"))
		}
	case "copy":
		d := args[0].([]value)
		switch t := args[1].(type) {
		case []value:
			n := min(len(d), len(t))
			if n == 0 {
				return uint64(0)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(t[i])
			}
			for i := 0; i < n; i++ {
				switch tmp[i].(type) {
				case structure, array:
					store(&d[i], tmp[i])
				default:
					d[i] = tmp[i]
				}
			}
			return uint64(n)
		case string, *symStr:
			bs := strBytes(t)
			return uint64(copy(d, bs))
		}
	case "delete":
		m, _ := args[0].(*mapObj)
		if m != nil {
			ex.raceMap(m, true)
			ex.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *mapObj:
			if a != nil {
				for _, e := range a.entries {
					e.dead = true
				}
				a.entries, a.n, a.symN = nil, 0, 0
				a.idx = map[string]*mapEntry{}
			}
			return nil
		case []value:
			if len(a) > 0 {
				for i := range a {
					a[i] = zeroLike(a[i])
				}
			}
			return nil
		}
	case "close":
		ex.chanClose(args[0])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], trace: ex.where()})
	case "recover":
		// fr is the deferred function's frame; its caller is panicking
		if c := fr.caller; c != nil && c.panicking {
			c.panicking = false
			r := c.panicVal
			c.panicVal = nil
			if tp, ok := r.(targetPanic); ok {
				if i, ok := tp.v.(iface); ok {
					return i
				}
				return iface{t: types.Typ[types.String], v: fmt.Sprint(tp.v)}
			}
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		sig := b.Type().(*types.Signature)
		t := sig.Params().At(0).Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := ex.binop(op, t, t, a, r)
			if ct, ok := c.(*Term); ok {
				if w, _, isInt := intInfo(t); isInt {
					r = fromTerm(ex.ctx.Ite(ct, ex.term(a, w), ex.term(r, w)))
					continue
				}
			}
			if ex.truth(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			ex.panicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := ex.concInt(args[1])
		if n == 0 {
			return ""
		}
		if sp, ok := args[0].(*slicePtr); ok {
			return mkStr(sp.s[:n])
		}
		if p, ok := args[0].(*value); ok {
			return mkStr(unsafe.Slice(p, n)) // A pointer to the first of at least n bytes.
		}
	case "StringData":
		b := strBytes(args[0])
		return &slicePtr{s: b}
	case "SliceData":
		s, _ := args[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return &slicePtr{s: s[:cap(s)]}
	case "Slice":
		n := ex.concInt(args[1])
		if sp, ok := args[0].(*slicePtr); ok {
			return sp.s[:n]
		}
		if p, ok := args[0].(*value); ok && p == nil && n == 0 {
			return []value(nil)
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0])))
}

type slicePtr struct{ s []value }

func growCap(old, need int) int {
	c := old
	if c == 0 {
		c = need
		if c < 4 {
			c = need
		}
		return roundCap(c)
	}
	for c < need {
		if c < 256 {
			c *= 2
		} else {
			c += (c + 768) / 4
		}
	}
	return roundCap(c)
}

func roundCap(c int) int { return c }

func zeroLike(v value) value {
	switch x := v.(type) {
	case uint64:
		return uint64(0)
	case bool:
		return false
	case *Term:
		if x.w == 0 {
			return false
		}
		return uint64(0)
	case string, *symStr, *opaqueStr:
		return ""
	case float64:
		return float64(0)
	case structure:
		r := make(structure, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case array:
		r := make(array, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case *value:
		return (*value)(nil)
	case []value:
		return []value(nil)
	case iface:
		return iface{}
	case *mapObj:
		return (*mapObj)(nil)
	case *chanObj:
		return (*chanObj)(nil)
	case *closure, *ssa.Function, *nativeFn:
		return (*closure)(nil)
	}
	return nil
}
