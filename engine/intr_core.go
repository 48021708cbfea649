package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	ex   *Exec
	g    *gor
	fn   *ssa.Function
	args []value
	skip bool
}

type intrinsic func(c *icall) value

var intrinsics = map[string]intrinsic{}
var hostMethods = map[string]func(ex *Exec, g *gor, a []value) value{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// prefixIntrinsic covers whole families of functions.
func prefixIntrinsic(name string) intrinsic {
	switch {
	case name == "go.uber.org/zap.LevelFlag":
		return nil
	case strings.HasPrefix(name, "(*go.uber.org/zap."), strings.HasPrefix(name, "go.uber.org/zap."):
		return zapIntrinsic(name)
	case strings.HasPrefix(name, "(*math/big."), strings.HasPrefix(name, "math/big."):
		return func(c *icall) value { panic(unsupported("big integer operation " + name)) }
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "log."), strings.HasPrefix(name, "(*log."):
		return func(c *icall) value { return zeroResult(c.fn) }
	case strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "(*reflect."):
		return func(c *icall) value { panic(unsupported("reflection: " + name)) }
	}
	return nil
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (ex *Exec) callIntrinsic(g *gor, fi *fnInfo, args []value) (value, bool) {
	c := &icall{ex: ex, g: g, fn: fi.fn, args: args}
	r := fi.intr(c)
	if c.skip {
		return nil, false
	}
	return r, true
}

func zapIntrinsic(name string) intrinsic {
	base := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(base, "Fatal") {
		return func(c *icall) value {
			panic(fatalPanic{msg: "program terminated by a fatal log message", trace: c.ex.where()})
		}
	}
	if strings.HasPrefix(base, "Panic") {
		return func(c *icall) value {
			c.ex.panicPlain("panic by log message")
			return nil
		}
	}
	switch name {
	case "go.uber.org/zap.S", "go.uber.org/zap.L":
		return func(c *icall) value { return &host{kind: "zap"} }
	}
	return func(c *icall) value {
		res := c.fn.Signature.Results()
		if res.Len() == 1 {
			if _, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
				return &host{kind: "zap"}
			}
		}
		return zeroResult(c.fn)
	}
}

func asPtr(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected a pointer, got %T", v)))
	}
	return p
}

func (ex *Exec) derefPtr(v value) *value {
	p := asPtr(v)
	if p == nil {
		ex.panicRuntime(nilDeref)
	}
	return p
}

// errorf builds an error value.
func (ex *Exec) newError(msg value) value {
	p := new(value)
	*p = structure{msg}
	return iface{t: types.NewPointer(ex.namedType("errors", "errorString")), v: p}
}

var ptrTypes = map[string]types.Type{}

func (ex *Exec) namedType(pkg, name string) types.Type {
	t := ex.w.run.prog.typ(pkg, name)
	if t == nil {
		panic(unsupported("type " + pkg + "." + name + " not loaded"))
	}
	return t
}

func (ex *Exec) ptrTo(pkg, name string) types.Type { return types.NewPointer(ex.namedType(pkg, name)) }

// globalIface reads a package-level error variable.
func (ex *Exec) globalVal(g *gor, pkg, name string) value {
	sp := ex.w.run.prog.pkgs[pkg]
	if sp == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	gl := sp.Var(name)
	if gl == nil {
		panic(unsupported("variable " + pkg + "." + name))
	}
	return copyVal(*ex.globalAddr(g, gl))
}

// callMethod calls a method by name on a dynamic value; ok is false if the type has none.
func (ex *Exec) callMethod(g *gor, v iface, name string, args ...value) (value, bool) {
	if v.t == nil {
		return nil, false
	}
	if h, isHost := v.v.(*host); isHost {
		if m := hostMethods[h.kind+"."+name]; m != nil {
			return m(ex, g, append([]value{v.v}, args...)), true
		}
	}
	fn := ex.w.run.prog.methodByName(v.t, nil, name)
	if fn == nil {
		return nil, false
	}
	return ex.callSSA(g, fn, append([]value{v.v}, args...), nil), true
}

// panicText renders a panic value for messages.
func (ex *Exec) panicText(v value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		if i.t == ex.w.run.prog.runtimeErrorString {
			return "runtime error: " + textOf(i.v)
		}
		switch x := i.v.(type) {
		case string, *opaqueStr, *symStr:
			return textOf(x)
		}
		if p, ok := i.v.(*value); ok && p != nil {
			if st, ok := (*p).(structure); ok && len(st) > 0 {
				return textOf(st[0])
			}
		}
		return i.t.String()
	}
	return textOf(v)
}

func textOf(v value) string {
	switch x := v.(type) {
	case string:
		return x
	case *opaqueStr:
		if x.kind == "fmt" {
			s := textOf(x.payload[0])
			return s
		}
		return "<" + x.kind + ">"
	case *symStr:
		return "<symbolic string>"
	}
	return fmt.Sprintf("%T", v)
}

func intArg(ex *Exec, v value) int { return ex.concInt(v) }

func init() {
	// ---- sync
	lockFns := func(typ string) {
		reg("(*sync."+typ+").Lock", func(c *icall) value { c.ex.lock(c.g, c.args[0], true); return nil })
		reg("(*sync."+typ+").Unlock", func(c *icall) value { c.ex.unlock(c.g, c.args[0], true); return nil })
		reg("(*sync."+typ+").TryLock", func(c *icall) value { return c.ex.tryLock(c.g, c.args[0], true) })
	}
	lockFns("Mutex")
	lockFns("RWMutex")
	reg("(*sync.RWMutex).RLock", func(c *icall) value { c.ex.lock(c.g, c.args[0], false); return nil })
	reg("(*sync.RWMutex).RUnlock", func(c *icall) value { c.ex.unlock(c.g, c.args[0], false); return nil })
	reg("(*sync.RWMutex).TryRLock", func(c *icall) value { return c.ex.tryLock(c.g, c.args[0], false) })
	reg("(*sync.WaitGroup).Add", func(c *icall) value { c.ex.wgAdd(c.g, c.args[0], c.ex.concInt(c.args[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(c *icall) value { c.ex.wgAdd(c.g, c.args[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(c *icall) value { c.ex.wgWait(c.g, c.args[0]); return nil })
	reg("(*sync.Pool).Get", func(c *icall) value {
		p := c.ex.derefPtr(c.args[0])
		st := (*p).(structure)
		nf := st[len(st)-1]
		if isNilPtr(nf) {
			return iface{}
		}
		return c.ex.callFn(c.g, nf, nil)
	})
	reg("(*sync.Pool).Put", func(c *icall) value { return nil })
	// sync.Map as an engine map
	smap := func(c *icall) *mapObj {
		p := c.ex.derefPtr(c.args[0])
		if m, ok := c.ex.objs[p].(*mapObj); ok {
			return m
		}
		m := newMap(types.NewInterfaceType(nil, nil))
		c.ex.objs[p] = m
		return m
	}
	reg("(*sync.Map).Load", func(c *icall) value {
		if e := c.ex.mapFind(smap(c), c.args[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Store", func(c *icall) value { c.ex.mapSet(smap(c), c.args[1], c.args[2]); return nil })
	reg("(*sync.Map).Delete", func(c *icall) value { c.ex.mapDelete(smap(c), c.args[1]); return nil })
	reg("(*sync.Map).LoadOrStore", func(c *icall) value {
		if e := c.ex.mapFind(smap(c), c.args[1]); e != nil {
			return tuple{e.v, true}
		}
		c.ex.mapSet(smap(c), c.args[1], c.args[2])
		return tuple{c.args[2], false}
	})

	// ---- atomics
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []struct {
			n string
			w int
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
			t := t
			ld := func(c *icall) value { c.ex.yield(c.g, "atomic"); return copyVal(*c.ex.derefPtr(c.args[0])) }
			reg(pk+".Load"+t.n, ld)
			reg(pk+".Store"+t.n, func(c *icall) value {
				c.ex.yield(c.g, "atomic")
				*c.ex.derefPtr(c.args[0]) = c.args[1]
				return nil
			})
			reg(pk+".Swap"+t.n, func(c *icall) value {
				c.ex.yield(c.g, "atomic")
				p := c.ex.derefPtr(c.args[0])
				o := *p
				*p = c.args[1]
				return o
			})
			reg(pk+".CompareAndSwap"+t.n, func(c *icall) value {
				c.ex.yield(c.g, "atomic")
				p := c.ex.derefPtr(c.args[0])
				var eq bool
				if t.w == 0 {
					eq = ptrEq(*p, c.args[1])
				} else {
					eq = c.ex.truth(fromTerm(c.ex.ctx.Eq(c.ex.term(*p, t.w), c.ex.term(c.args[1], t.w))))
				}
				if eq {
					*p = c.args[2]
				}
				return eq
			})
			if t.w != 0 {
				reg(pk+".Add"+t.n, func(c *icall) value {
					c.ex.yield(c.g, "atomic")
					p := c.ex.derefPtr(c.args[0])
					*p = fromTerm(c.ex.ctx.Bin(OpAdd, c.ex.term(*p, t.w), c.ex.term(c.args[1], t.w)))
					return *p
				})
			}
		}
	}
	reg("(*sync/atomic.Value).Load", func(c *icall) value {
		c.ex.yield(c.g, "atomic")
		p := c.ex.derefPtr(c.args[0])
		if v, ok := c.ex.objs[p].(iface); ok {
			return v
		}
		return iface{}
	})
	reg("(*sync/atomic.Value).Store", func(c *icall) value {
		c.ex.yield(c.g, "atomic")
		c.ex.objs[c.ex.derefPtr(c.args[0])] = c.args[1].(iface)
		return nil
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(c *icall) value {
		p := c.ex.derefPtr(c.args[0])
		cur, _ := c.ex.objs[p].(iface)
		if c.ex.decide(c.ex.ifaceEq(cur, c.args[1].(iface))) {
			c.ex.objs[p] = c.args[2].(iface)
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Swap", func(c *icall) value {
		p := c.ex.derefPtr(c.args[0])
		cur, _ := c.ex.objs[p].(iface)
		c.ex.objs[p] = c.args[1].(iface)
		return cur
	})

	// ---- runtime
	reg("runtime.NumGoroutine", func(c *icall) value { return uint64(7) })
	reg("runtime.Gosched", func(c *icall) value { c.ex.pass(c.g); return nil })
	reg("runtime.Goexit", func(c *icall) value { panic(goexitPanic{}) })
	reg("runtime.KeepAlive", func(c *icall) value { return nil })
	reg("runtime.SetFinalizer", func(c *icall) value { return nil })
	reg("runtime.Callers", func(c *icall) value { return uint64(0) })
	reg("runtime.Caller", func(c *icall) value { return tuple{uint64(0), "", uint64(0), false} })
	reg("runtime/debug.Stack", func(c *icall) value { return []value{} })
	reg("runtime/debug.PrintStack", func(c *icall) value { return nil })
	reg("runtime.GC", func(c *icall) value { return nil })
	reg("runtime.GOMAXPROCS", func(c *icall) value { return uint64(8) })
	reg("os.Getenv", func(c *icall) value { return "" })
	reg("os.LookupEnv", func(c *icall) value { return tuple{"", false} })
	reg("os.Getpid", func(c *icall) value { return uint64(1) })
	reg("os.Hostname", func(c *icall) value { return tuple{"host", iface{}} })
	reg("os.Exit", func(c *icall) value {
		panic(fatalPanic{msg: "os.Exit called", trace: c.ex.where()})
	})
	reg("internal/godebug.New", func(c *icall) value { return &host{kind: "godebug"} })
	reg("(*internal/godebug.Setting).Value", func(c *icall) value { return "" })
	reg("(*internal/godebug.Setting).Name", func(c *icall) value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", func(c *icall) value { return nil })
	reg("internal/abi.NoEscape", func(c *icall) value { return c.args[0] })
	reg("internal/abi.Escape", func(c *icall) value { return c.args[0] })
	reg("internal/race.Enabled", func(c *icall) value { return false })
	reg("internal/runtime/sys.GetCallerPC", func(c *icall) value { return uint64(0) })
	reg("internal/cpu.Initialize", func(c *icall) value { return nil })
	reg("internal/itoa.Itoa", nil)
	delete(intrinsics, "internal/itoa.Itoa")

	// ---- bytealg
	reg("internal/bytealg.MakeNoZero", func(c *icall) value {
		n := c.ex.concInt(c.args[0])
		r := make([]value, n)
		for i := range r {
			r[i] = uint64(0)
		}
		return r
	})
	byteEq := func(c *icall, a value, b value) bool {
		return c.ex.decide(c.ex.ctx.Eq(c.ex.term(a, 8), c.ex.term(b, 8)))
	}
	indexByte := func(c *icall, b []value, x value) value {
		for i := range b {
			if byteEq(c, b[i], x) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}
	reg("internal/bytealg.IndexByte", func(c *icall) value { return indexByte(c, c.args[0].([]value), c.args[1]) })
	reg("internal/bytealg.IndexByteString", func(c *icall) value { return indexByte(c, strBytes(c.args[0]), c.args[1]) })
	lastIndexByte := func(c *icall, b []value, x value) value {
		for i := len(b) - 1; i >= 0; i-- {
			if byteEq(c, b[i], x) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}
	reg("internal/bytealg.LastIndexByte", func(c *icall) value { return lastIndexByte(c, c.args[0].([]value), c.args[1]) })
	reg("internal/bytealg.LastIndexByteString", func(c *icall) value { return lastIndexByte(c, strBytes(c.args[0]), c.args[1]) })
	countByte := func(c *icall, b []value, x value) value {
		n := 0
		for i := range b {
			if byteEq(c, b[i], x) {
				n++
			}
		}
		return uint64(n)
	}
	reg("internal/bytealg.Count", func(c *icall) value { return countByte(c, c.args[0].([]value), c.args[1]) })
	reg("internal/bytealg.CountString", func(c *icall) value { return countByte(c, strBytes(c.args[0]), c.args[1]) })
	index := func(c *icall, a, b []value) value {
		for i := 0; i+len(b) <= len(a); i++ {
			if c.ex.decide(c.ex.bytesEq(a[i:i+len(b)], b)) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}
	reg("internal/bytealg.Index", func(c *icall) value { return index(c, c.args[0].([]value), c.args[1].([]value)) })
	reg("internal/bytealg.IndexString", func(c *icall) value { return index(c, strBytes(c.args[0]), strBytes(c.args[1])) })
	reg("strings.Index", func(c *icall) value { return index(c, strBytes(c.args[0]), strBytes(c.args[1])) })
	reg("bytes.Equal", func(c *icall) value {
		return fromTerm(c.ex.bytesEq(c.args[0].([]value), c.args[1].([]value)))
	})
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	cmp := func(c *icall, a, b []value) value {
		ct := c.ex.ctx
		eq := c.ex.bytesEq(a, b)
		lt := c.ex.bytesLess(a, b)
		return fromTerm(ct.Ite(eq, ct.Const(64, 0), ct.Ite(lt, ct.Const(64, math.MaxUint64), ct.Const(64, 1))))
	}
	reg("bytes.Compare", func(c *icall) value { return cmp(c, c.args[0].([]value), c.args[1].([]value)) })
	reg("internal/bytealg.Compare", intrinsics["bytes.Compare"])
	reg("internal/bytealg.CompareString", func(c *icall) value { return cmp(c, strBytes(c.args[0]), strBytes(c.args[1])) })
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])

	// ---- math
	mf := func(name string, f func(float64) float64) {
		reg("math."+name, func(c *icall) value {
			if x, ok := c.args[0].(float64); ok {
				return f(x)
			}
			sf := c.args[0].(*symFloat)
			switch {
			case name == "Log2" && sf.op == "int":
				return &symFloat{op: "log2", t: sf.t}
			case name == "Ceil" && sf.op == "log2":
				return &symFloat{op: "ceillog2", t: sf.t}
			case name == "Floor" && sf.op == "log2":
				return &symFloat{op: "floorlog2", t: sf.t}
			case (name == "Ceil" || name == "Floor" || name == "Trunc" || name == "Round") && (sf.op == "int" || sf.op == "ceillog2" || sf.op == "floorlog2"):
				return sf
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		})
	}
	mf("Log2", math.Log2)
	mf("Ceil", math.Ceil)
	mf("Floor", math.Floor)
	mf("Trunc", math.Trunc)
	mf("Round", math.Round)
	mf("Sqrt", math.Sqrt)
	mf("Log", math.Log)
	mf("Log10", math.Log10)
	mf("Abs", math.Abs)
	reg("math.Float64bits", func(c *icall) value {
		if f, ok := c.args[0].(float64); ok {
			return math.Float64bits(f)
		}
		panic(unsupported("bits of symbolic float"))
	})
	reg("math.Float64frombits", func(c *icall) value {
		if f, ok := c.args[0].(uint64); ok {
			return math.Float64frombits(f)
		}
		panic(unsupported("symbolic float bits"))
	})
	lenN := func(w int) intrinsic {
		return func(c *icall) value {
			switch x := c.args[0].(type) {
			case uint64:
				return uint64(bits.Len64(x))
			case *Term:
				ct := c.ex.ctx
				r := ct.Const(64, 0)
				for k := 0; k < x.w; k++ {
					r = ct.Ite(ct.Cmp(OpULe, ct.Const(x.w, uint64(1)<<uint(k)), x), ct.Const(64, uint64(k+1)), r)
				}
				return fromTerm(r)
			}
			return nil
		}
	}
	reg("math/bits.Len", lenN(64))
	reg("math/bits.Len64", lenN(64))
	reg("math/bits.Len32", lenN(32))
	reg("math/bits.Len16", lenN(16))
	reg("math/bits.Len8", lenN(8))
	conc1 := func(name string, f func(uint64) uint64) {
		reg("math/bits."+name, func(c *icall) value {
			if x, ok := c.args[0].(uint64); ok {
				return f(x)
			}
			c.skip = true
			return nil
		})
	}
	conc1("TrailingZeros64", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	conc1("TrailingZeros", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	conc1("TrailingZeros32", func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) })
	conc1("OnesCount64", func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })
	conc1("OnesCount", func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })

	// ---- unique: canonical handles
	reg("unique.Make", func(c *icall) value {
		k, ok := keyOf(c.args[0])
		if !ok {
			panic(unsupported("unique.Make of a symbolic value"))
		}
		k = c.fn.Signature.Params().At(0).Type().String() + "|" + k
		if p, ok := c.ex.w.uniq[k]; ok {
			return structure{p}
		}
		p := new(value)
		*p = copyVal(c.args[0])
		c.ex.w.uniq[k] = p
		return structure{p}
	})

	// ---- errors
	reg("errors.New", func(c *icall) value { return c.ex.newError(c.args[0]) })
	reg("errors.Is", func(c *icall) value {
		return c.ex.errorsIs(c.g, c.args[0].(iface), c.args[1].(iface))
	})
	reg("errors.As", func(c *icall) value {
		return c.ex.errorsAs(c.g, c.args[0].(iface), c.args[1].(iface))
	})
	reg("github.com/pkg/errors.callers", func(c *icall) value { return (*value)(nil) })
	reg("errors.Join", func(c *icall) value {
		var last value = iface{}
		for _, e := range c.args[0].([]value) {
			if e.(iface).t != nil {
				last = e
			}
		}
		return last
	})

	// ---- fmt
	reg("fmt.Errorf", func(c *icall) value { return c.ex.fmtErrorf(c.g, c.args[0], c.args[1].([]value)) })
	reg("fmt.Sprintf", func(c *icall) value { return c.ex.fmtSprintf(c.g, c.args[0], c.args[1].([]value)) })
	reg("fmt.Sprint", func(c *icall) value {
		a := c.args[0].([]value)
		return c.ex.fmtSprintf(c.g, strings.Repeat("%v", len(a)), a)
	})
	reg("fmt.Sprintln", func(c *icall) value {
		a := c.args[0].([]value)
		return c.ex.fmtSprintf(c.g, strings.Repeat("%v ", len(a))+"\n", a)
	})

	// ---- sorting by reflection
	sortSlice := func(c *icall) value {
		s := c.args[0].(iface).v.([]value)
		less := c.args[1]
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !c.ex.truth(c.ex.callFn(c.g, less, []value{uint64(j), uint64(j - 1)})) {
					break
				}
				a, b := copyVal(s[j]), copyVal(s[j-1])
				store(&s[j], b)
				store(&s[j-1], a)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("slices.Contains", func(c *icall) value {
		// without early exit the comparison stays one formula
		s := c.args[0].([]value)
		el := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		if _, isTP := el.(*types.TypeParam); isTP {
			c.skip = true
			return nil
		}
		r := c.ex.ctx.F
		for _, e := range s {
			r = c.ex.ctx.Or(r, c.ex.eqVal(el, e, c.args[1]))
		}
		return fromTerm(r)
	})

	// ---- randomness: every outcome
	for _, n := range []string{"math/rand/v2.IntN", "math/rand.Intn"} {
		reg(n, func(c *icall) value {
			k := c.ex.concInt(c.args[0])
			if k <= 0 {
				c.ex.panicPlain("invalid argument to IntN")
			}
			if c.ex.fairRand {
				c.ex.randNo++
				return uint64(c.ex.randNo % k)
			}
			return uint64(c.ex.choose(k))
		})
	}
	reg("math/rand/v2.N", nil)
	delete(intrinsics, "math/rand/v2.N")
	reg("math/rand/v2.Shuffle", func(c *icall) value {
		n := c.ex.concInt(c.args[0])
		for i := n - 1; i > 0; i-- {
			j := c.ex.choose(i + 1)
			c.ex.callFn(c.g, c.args[1], []value{uint64(i), uint64(j)})
		}
		return nil
	})
	reg("crypto/rand.Read", func(c *icall) value { return tuple{uint64(len(c.args[0].([]value))), iface{}} })

	// ---- reflection used by the state machine library
	reg("reflect.TypeOf", func(c *icall) value {
		i := c.args[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return iface{t: c.ex.rtypeType(), v: &host{kind: "rtype", obj: i.t}}
	})
	reg("internal/reflectlite.TypeOf", func(c *icall) value {
		i := c.args[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return iface{t: c.ex.rtypeType(), v: &host{kind: "rtype", obj: i.t}}
	})
	hostMethods["rtype.Comparable"] = func(ex *Exec, g *gor, a []value) value {
		return types.Comparable(a[0].(*host).obj.(types.Type))
	}
	hostMethods["rtype.ConvertibleTo"] = func(ex *Exec, g *gor, a []value) value {
		x, y := a[0].(*host).obj.(types.Type), a[1].(iface).v.(*host).obj.(types.Type)
		return types.ConvertibleTo(x, y)
	}
	hostMethods["rtype.AssignableTo"] = func(ex *Exec, g *gor, a []value) value {
		x, y := a[0].(*host).obj.(types.Type), a[1].(iface).v.(*host).obj.(types.Type)
		return types.AssignableTo(x, y)
	}
	hostMethods["rtype.String"] = func(ex *Exec, g *gor, a []value) value { return a[0].(*host).obj.(types.Type).String() }
	reg("github.com/qmuntal/stateless.newinvocationInfo", func(c *icall) value { return zeroResult(c.fn) })
}

func (ex *Exec) rtypeType() types.Type {
	return types.NewPointer(ex.namedType("reflect", "rtype"))
}

func (ex *Exec) errorsIs(g *gor, err, target iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	comparable := types.Comparable(target.t)
	for n := 0; n < 100; n++ {
		if comparable && ex.decide(ex.ifaceEq(err, target)) {
			return true
		}
		if r, ok := ex.callMethod(g, err, "Is", target); ok {
			if b, isB := r.(bool); isB && b {
				return true
			} else if t, isT := r.(*Term); isT && ex.decide(t) {
				return true
			}
		}
		r, ok := ex.callMethod(g, err, "Unwrap")
		if !ok {
			return false
		}
		switch u := r.(type) {
		case iface:
			if u.t == nil {
				return false
			}
			err = u
		case []value:
			for _, e := range u {
				if e.(iface).t != nil && ex.errorsIs(g, e.(iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (ex *Exec) errorsAs(g *gor, err, target iface) bool {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		ex.panicPlain("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	it, isI := tt.Underlying().(*types.Interface)
	for n := 0; n < 100 && err.t != nil; n++ {
		if isI && ex.w.run.prog.implements(err.t, it) {
			*ex.derefPtr(target.v) = err
			return true
		}
		if !isI && types.Identical(err.t, tt) {
			store(ex.derefPtr(target.v), err.v)
			return true
		}
		if r, ok := ex.callMethod(g, err, "As", target); ok {
			if b, isB := r.(bool); isB && b {
				return true
			}
		}
		r, ok := ex.callMethod(g, err, "Unwrap")
		if !ok {
			return false
		}
		switch u := r.(type) {
		case iface:
			err = u
		case []value:
			for _, e := range u {
				if e.(iface).t != nil && ex.errorsAs(g, e.(iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- formatting

// verbsOf lists the verbs of a format in argument order; ok is false for anything fancy.
func verbsOf(format string) (vs []byte, ok bool) {
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			return vs, false
		}
		if format[i] == '[' || format[i] == '*' {
			return vs, false
		}
		if format[i] != '%' {
			vs = append(vs, format[i])
		}
	}
	return vs, true
}

func (ex *Exec) fmtErrorf(g *gor, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported("Errorf with a symbolic format"))
	}
	msg := ex.fmtSprintf(g, f, args)
	vs, _ := verbsOf(f)
	var wrapped []value
	for i, v := range vs {
		if v == 'w' && i < len(args) {
			a := args[i].(iface)
			if a.t != nil && ex.isError(a.t) {
				wrapped = append(wrapped, a)
			} else {
				wrapped = append(wrapped, iface{})
			}
		}
	}
	switch len(wrapped) {
	case 0:
		return ex.newError(msg)
	case 1:
		p := new(value)
		*p = structure{msg, wrapped[0]}
		return iface{t: ex.ptrTo("fmt", "wrapError"), v: p}
	}
	var live []value
	for _, w := range wrapped {
		if w.(iface).t != nil {
			live = append(live, w)
		}
	}
	p := new(value)
	*p = structure{msg, live}
	return iface{t: ex.ptrTo("fmt", "wrapErrors"), v: p}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (ex *Exec) isError(t types.Type) bool { return ex.w.run.prog.implements(t, errorIface) }

// fmtSprintf renders the text when every argument is concrete and simple, and keeps an opaque string otherwise.
func (ex *Exec) fmtSprintf(g *gor, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		return &opaqueStr{kind: "fmt", payload: append([]value{format}, args...)}
	}
	vs, simple := verbsOf(f)
	if simple && len(vs) == len(args) {
		nat := make([]any, len(args))
		for i, a := range args {
			n, ok := ex.nativeArg(g, a.(iface), vs[i])
			if !ok {
				simple = false
				break
			}
			nat[i] = n
		}
		if simple {
			return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), nat...)
		}
	}
	if r := ex.fmtPieces(g, f, args); r != nil {
		return r
	}
	return &opaqueStr{kind: "fmt", payload: append([]value{f}, args...)}
}

// fmtPieces renders a format of plain verbs whose arguments are strings, possibly symbolic, and concrete scalars.
func (ex *Exec) fmtPieces(g *gor, f string, args []value) value {
	var out []value
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uint64(f[i]))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if n >= len(args) {
			return nil
		}
		a, ok := args[n].(iface)
		n++
		if !ok || a.t == nil {
			return nil
		}
		if _, plain := a.t.(*types.Basic); plain && isString(a.t) && (f[i] == 's' || f[i] == 'v') {
			switch x := a.v.(type) {
			case string, *symStr:
				out = append(out, strBytes(x)...)
				continue
			case *opaqueStr:
				if f == "%s" {
					return x
				}
			}
			return nil
		}
		if strings.IndexByte("sdvxqtc", f[i]) < 0 {
			return nil
		}
		v, ok := ex.nativeArg(g, a, f[i])
		if !ok {
			return nil
		}
		for _, b := range []byte(fmt.Sprintf("%"+f[i:i+1], v)) {
			out = append(out, uint64(b))
		}
	}
	if n != len(args) {
		return nil
	}
	return mkStr(out)
}

func (ex *Exec) nativeArg(g *gor, i iface, verb byte) (any, bool) {
	if i.t == nil {
		return nil, true
	}
	if verb == 'T' {
		return nil, false
	}
	if _, isNamed := i.t.(*types.Basic); !isNamed {
		// Stringer and error are left unrendered unless they are plain
		if verb == 's' || verb == 'v' || verb == 'w' || verb == 'q' {
			p := ex.w.run.prog
			m := p.methodByName(i.t, nil, "Error")
			if m == nil {
				m = p.methodByName(i.t, nil, "String")
			}
			if m != nil {
				return nil, false
			}
		}
	}
	switch v := i.v.(type) {
	case string:
		return v, true
	case bool:
		return v, true
	case uint64:
		w, signed, ok := intInfo(i.t)
		if !ok {
			return nil, false
		}
		if signed {
			if verb == 'c' {
				return rune(v), true
			}
			return sx(v, w), true
		}
		if w == 8 {
			return uint8(v), true
		}
		return v, true
	case float64:
		return v, true
	}
	return nil, false
}
