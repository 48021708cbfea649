package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions

type opKind uint8

const (
	oNone opKind = iota
	oReg
	oConst
	oAgg // aggregate constant, copied on use
	oGlobal
	oFunc
)

type opnd struct {
	kind opKind
	idx  int
	val  value
	glob *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	res int
	ops []opnd
}

type cblock struct {
	b      *ssa.BasicBlock
	instrs []cinstr
	phis   int
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	once   sync.Once
	intr   intrinsic
	intrOK bool
	name   string
	repo   bool
	rec    *cblock
}

var fnCache sync.Map // *ssa.Function -> *fnInfo

func infoOf(p *Program, fn *ssa.Function) *fnInfo {
	if v, ok := fnCache.Load(fn); ok {
		fi := v.(*fnInfo)
		return fi
	}
	v, _ := fnCache.LoadOrStore(fn, &fnInfo{fn: fn})
	fi := v.(*fnInfo)
	return fi
}

func (fi *fnInfo) prepare(p *Program) {
	fi.once.Do(func() {
		fn := fi.fn
		fi.name = fnName(fn)
		fi.intr = intrinsics[fi.name]
		if fi.intr == nil {
			fi.intr = prefixIntrinsic(fi.name)
		}
		fi.repo = p.isRepoFn(fn)
		if p.isRepoPkg(pkgOf(fn)) && strings.HasPrefix(filepath.Base(p.fset.Position(fn.Pos()).Filename), "zz_vp_") {
			if fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "vp") {
				if f := vpLookup(fn.Name()); f != nil {
					fi.intr = f
				}
			}
		}
		if fi.intr != nil && !fi.intrOK {
			fi.intrOK = true
		}
		p.build(fn)
		if len(fn.Blocks) == 0 {
			return
		}
		idx := map[ssa.Value]int{}
		n := 0
		add := func(v ssa.Value) {
			idx[v] = n
			n++
		}
		for _, v := range fn.Params {
			add(v)
		}
		for _, v := range fn.FreeVars {
			add(v)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
		fi.nregs = n
		fi.blocks = make([]cblock, len(fn.Blocks))
		for i, b := range fn.Blocks {
			cb := &fi.blocks[i]
			cb.b = b
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					cb.phis++
				}
				ci := cinstr{in: in, res: -1}
				if v, ok := in.(ssa.Value); ok {
					ci.res = idx[v]
				}
				for _, op := range in.Operands(nil) {
					var o opnd
					switch v := (*op).(type) {
					case nil:
					case *ssa.Const:
						o.kind = oConst
						o.val = constVal(v)
						switch o.val.(type) {
						case structure, array:
							o.kind = oAgg
						}
					case *ssa.Global:
						o.kind = oGlobal
						o.glob = v
					case *ssa.Function:
						o.kind = oConst
						o.val = v
					case *ssa.Builtin:
						o.kind = oConst
						o.val = v
					default:
						o.kind = oReg
						k, ok := idx[v]
						if !ok {
							panic(fmt.Sprintf("no register for %s in %s", v, fn))
						}
						o.idx = k
					}
					ci.ops = append(ci.ops, o)
				}
				cb.instrs = append(cb.instrs, ci)
			}
		}
		if fn.Recover != nil {
			fi.rec = &fi.blocks[fn.Recover.Index]
		}
	})
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(t)
		if u, exact := constant.Uint64Val(constant.ToInt(c.Value)); exact {
			return u & mask(w)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return uint64(i) & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	if b.Info()&types.IsComplex != 0 {
		return complex128(0)
	}
	panic(unsupported("constant " + c.String()))
}

// ---- frames

type deferred struct {
	fn   value
	args []value
	in   *ssa.Defer
}

type frame struct {
	g        *gor
	ex       *Exec
	fi       *fnInfo
	fn       *ssa.Function
	env      []value
	block    *cblock
	prev     *ssa.BasicBlock
	defers   []deferred
	result   value
	panicking bool
	panicVal any
	recovered bool
	caller   *frame
	pos      token.Pos
	depth    int
	tolerant bool
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case oReg:
		return fr.env[o.idx]
	case oConst:
		return o.val
	case oAgg:
		return copyVal(o.val)
	case oGlobal:
		return fr.ex.globalAddr(fr.g, o.glob)
	}
	return nil
}

func (g *gor) trace() string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 12; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" <- ")
		}
		p := g.ex.w.run.prog.fset.Position(fr.pos)
		f := p.Filename
		if i := strings.LastIndex(f, "/"); i >= 0 {
			f = f[i+1:]
		}
		fmt.Fprintf(&sb, "%s(%s:%d)", fr.fn.Name(), f, p.Line)
		n++
	}
	return sb.String()
}

func (ex *Exec) panicRuntime(msg string) {
	panic(targetPanic{v: ex.runtimeErr(msg), trace: ex.where()})
}

func (ex *Exec) runtimeErr(msg string) value {
	t := ex.w.run.prog.runtimeErrorString
	if t == nil {
		return iface{t: types.Typ[types.String], v: "runtime error: " + msg}
	}
	return iface{t: t, v: msg}
}

// callFn calls a function value with arguments.
func (ex *Exec) callFn(g *gor, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		return ex.callSSA(g, f, args, nil)
	case *closure:
		if f == nil {
			ex.panicRuntime("invalid memory address or nil pointer dereference")
		}
		return ex.callSSA(g, f.fn, args, f.env)
	case *nativeFn:
		return f.f(g, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

const maxDepth = 600

func (ex *Exec) callSSA(g *gor, fn *ssa.Function, args []value, env []value) value {
	p := ex.w.run.prog
	fi := infoOf(p, fn)
	fi.prepare(p)
	if fi.intr != nil {
		if r, ok := ex.callIntrinsic(g, fi, args); ok {
			return r
		}
	}
	if len(fi.blocks) == 0 {
		panic(unsupported("external function " + fi.name))
	}
	if fi.repo && !ex.funcs[fn] {
		ex.funcs[fn] = true
	}
	fr := &frame{g: g, ex: ex, fi: fi, fn: fn, caller: g.top}
	if g.top != nil {
		fr.depth = g.top.depth + 1
		if fr.depth > maxDepth {
			panic(unsupported("call depth exceeded in " + fi.name))
		}
	}
	fr.env = make([]value, fi.nregs)
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	fr.block = &fi.blocks[0]
	fr.pos = fn.Pos()
	g.top = fr
	fr.run()
	g.top = fr.caller
	return fr.result
}

// run executes the frame to completion, running deferred calls on panics.
func (fr *frame) run() {
	for fr.block != nil {
		fr.runBlocks()
	}
}

func (fr *frame) runBlocks() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case targetPanic, goexitPanic:
		default:
			panic(r) // engine-level condition, unwinds everything
		}
		fr.g.top = fr
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers()
		// recovered: continue at the recover block
		if fr.fi.rec != nil {
			fr.block = fr.fi.rec
			fr.prev = nil
		} else {
			fr.block = nil
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	ex := fr.ex
	for {
		blk := fr.block
		instrs := blk.instrs
		i := 0
		if blk.phis > 0 {
			// parallel phi assignment
			var edge int
			for e, p := range blk.b.Preds {
				if p == fr.prev {
					edge = e
					break
				}
			}
			var tmp [8]value
			vals := tmp[:0]
			for ; i < blk.phis; i++ {
				vals = append(vals, fr.get(&instrs[i].ops[edge]))
			}
			for k := 0; k < blk.phis; k++ {
				fr.env[instrs[k].res] = vals[k]
			}
		}
		jumped := false
	loop:
		for ; i < len(instrs); i++ {
			ex.steps++
			if ex.steps > ex.maxSteps {
				panic(pathEnd{kind: endBudget, msg: "instruction budget exhausted in " + fr.fi.name})
			}
			if ex.steps&0xfff == 0 && ex.w.run.expired() {
				panic(pathEnd{kind: endBudget, msg: "time"})
			}
			ci := &instrs[i]
			if p := ci.in.Pos(); p.IsValid() {
				fr.pos = p
			}
			if fr.tolerant {
				k, ok := fr.execTolerant(ci)
				if !ok || k == kReturn {
					fr.block = nil
					return
				}
				if k == kJump {
					jumped = true
					break loop
				}
				continue
			}
			switch fr.exec(ci) {
			case kNext:
			case kReturn:
				fr.block = nil
				return
			case kJump:
				jumped = true
				break loop
			}
		}
		if !jumped {
			panic("fell off block")
		}
	}
}

func (fr *frame) execTolerant(ci *cinstr) (k cont, ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case targetPanic:
			fr.g.top = fr
			if ci.res >= 0 {
				fr.env[ci.res] = &poison{why: "panic in initialiser"}
			}
			ok = true
		case pathEnd:
			if x.kind != endUnsupported {
				panic(r)
			}
			fr.g.top = fr
			if ci.res >= 0 {
				fr.env[ci.res] = poisonFor(ci, x.msg)
			}
			ok = true
		default:
			if _, isErr := r.(error); isErr { // host type assertion on poison
				fr.g.top = fr
				if ci.res >= 0 {
					fr.env[ci.res] = &poison{why: fmt.Sprint(r)}
				}
				ok = true
				return
			}
			panic(r)
		}
		switch ci.in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			ok = false
		}
	}()
	return fr.exec(ci), true
}

func poisonFor(ci *cinstr, why string) value { return &poison{why: why} }

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			switch r.(type) {
			case targetPanic, goexitPanic:
				fr.g.top = fr
				fr.panicking = true
				fr.panicVal = r
			default:
				panic(r)
			}
		}
	}()
	fr.ex.callAny(fr, d.fn, d.args, d.in.Call.Signature())
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

// callAny dispatches on builtins as well.
func (ex *Exec) callAny(fr *frame, fv value, args []value, sig *types.Signature) value {
	if b, ok := fv.(*ssa.Builtin); ok {
		return ex.builtin(fr, b, args)
	}
	return ex.callFn(fr.g, fv, args)
}

// prepCall evaluates the callee and arguments of a call.
func (fr *frame) prepCall(c *ssa.CallCommon, ops []opnd) (value, []value) {
	ex := fr.ex
	if c.IsInvoke() {
		recv := fr.get(&ops[0])
		rv, ok := recv.(iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if rv.t == nil {
			ex.panicRuntime("invalid memory address or nil pointer dereference")
		}
		args := make([]value, 1, len(ops))
		for i := 1; i < len(ops); i++ {
			args = append(args, fr.get(&ops[i]))
		}
		args[0] = rv.v
		if h, isHost := rv.v.(*host); isHost {
			m := hostMethods[h.kind+"."+c.Method.Name()]
			if m == nil {
				if fn := ex.lookupMethod(rv.t, c.Method); fn != nil {
					return fn, args
				}
				panic(unsupported("method " + h.kind + "." + c.Method.Name()))
			}
			return &nativeFn{name: h.kind + "." + c.Method.Name(), f: func(g *gor, a []value) value { return m(ex, g, a) }}, args
		}
		fn := ex.lookupMethod(rv.t, c.Method)
		if fn == nil {
			panic(unsupported(fmt.Sprintf("no method %s on %s", c.Method.Name(), rv.t)))
		}
		return fn, args
	}
	f := fr.get(&ops[0])
	args := make([]value, 0, len(ops)-1)
	for i := 1; i < len(ops); i++ {
		args = append(args, fr.get(&ops[i]))
	}
	return f, args
}

func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return ex.w.run.prog.method(t, m)
}

func (fr *frame) exec(ci *cinstr) cont {
	ex := fr.ex
	ops := ci.ops
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.env[ci.res] = ex.unop(fr, in, fr.get(&ops[0]))
	case *ssa.BinOp:
		fr.env[ci.res] = ex.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.Call:
		fv, args := fr.prepCall(&in.Call, ops)
		if b, ok := fv.(*ssa.Builtin); ok {
			fr.env[ci.res] = ex.builtin(fr, b, args)
		} else {
			if fr.tolerant && isInitFn(fv) {
				return kNext
			}
			fr.env[ci.res] = ex.callFn(fr.g, fv, args)
		}
	case *ssa.ChangeInterface:
		fr.env[ci.res] = fr.get(&ops[0])
	case *ssa.ChangeType:
		fr.env[ci.res] = fr.get(&ops[0])
	case *ssa.Convert:
		fr.env[ci.res] = ex.convert(in.Type(), in.X.Type(), fr.get(&ops[0]))
	case *ssa.MultiConvert:
		fr.env[ci.res] = ex.convert(in.Type(), in.X.Type(), fr.get(&ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ops[0]).([]value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			ex.panicRuntime("cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			fr.env[ci.res] = (*value)(nil)
		} else {
			p := new(value)
			*p = array(s[:n:n])
			fr.env[ci.res] = p
		}
	case *ssa.MakeInterface:
		fr.env[ci.res] = iface{t: in.X.Type(), v: fr.get(&ops[0])}
	case *ssa.Extract:
		fr.env[ci.res] = fr.get(&ops[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.env[ci.res] = ex.slice(fr, in, ops)
	case *ssa.Return:
		switch len(ops) {
		case 0:
		case 1:
			fr.result = fr.get(&ops[0])
		default:
			res := make(tuple, len(ops))
			for i := range ops {
				res[i] = fr.get(&ops[i])
			}
			fr.result = res
		}
		return kReturn
	case *ssa.RunDefers:
		fr.panicking = false
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{v: fr.get(&ops[0]), trace: ex.where()})
	case *ssa.Send:
		ex.chanSend(fr.g, fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.Store:
		v := fr.get(&ops[1])
		p, ok := fr.get(&ops[0]).(*value)
		if !ok {
			panic(unsupported("store through engine object"))
		}
		if p == nil {
			ex.panicRuntime("invalid memory address or nil pointer dereference")
		}
		store(p, v)
	case *ssa.If:
		succ := 1
		if ex.truth(fr.get(&ops[0])) {
			succ = 0
		}
		fr.prev = fr.block.b
		fr.block = &fr.fi.blocks[fr.block.b.Succs[succ].Index]
		return kJump
	case *ssa.Jump:
		fr.prev = fr.block.b
		fr.block = &fr.fi.blocks[fr.block.b.Succs[0].Index]
		return kJump
	case *ssa.Defer:
		fv, args := fr.prepCall(&in.Call, ops)
		fr.defers = append(fr.defers, deferred{fn: fv, args: args, in: in})
	case *ssa.Go:
		fv, args := fr.prepCall(&in.Call, ops)
		ex.spawn(fv, args, in.Call.Signature())
	case *ssa.MakeChan:
		n := ex.concInt(fr.get(&ops[0]))
		ex.chanSeq++
		fr.env[ci.res] = &chanObj{cap: n, id: ex.chanSeq, elemT: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Alloc:
		p := new(value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ci.res] = p
	case *ssa.MakeSlice:
		fr.env[ci.res] = ex.makeSlice(in, fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.MakeMap:
		fr.env[ci.res] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		fr.env[ci.res] = ex.rangeIter(fr.get(&ops[0]), in.X.Type())
	case *ssa.Next:
		fr.env[ci.res] = ex.nextIter(fr.g, fr.get(&ops[0]), in)
	case *ssa.FieldAddr:
		p, ok := fr.get(&ops[0]).(*value)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of engine object %s in %s", showVal(fr.get(&ops[0])), fr.fi.name)))
		}
		if p == nil {
			ex.panicRuntime("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", *p, fr.fi.name)))
		}
		fr.env[ci.res] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ops[0]).(structure)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", fr.get(&ops[0]), fr.fi.name)))
		}
		fr.env[ci.res] = s[in.Field]
	case *ssa.IndexAddr:
		fr.env[ci.res] = ex.indexAddr(in, fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.Index:
		fr.env[ci.res] = ex.index(in, fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.Lookup:
		fr.env[ci.res] = ex.lookup(in, fr.get(&ops[0]), fr.get(&ops[1]))
	case *ssa.MapUpdate:
		m := fr.get(&ops[0]).(*mapObj)
		ex.mapSet(m, fr.get(&ops[1]), fr.get(&ops[2]))
	case *ssa.TypeAssert:
		fr.env[ci.res] = ex.typeAssert(in, fr.get(&ops[0]))
	case *ssa.MakeClosure:
		var env []value
		for i := 1; i < len(ops); i++ {
			env = append(env, fr.get(&ops[i]))
		}
		fr.env[ci.res] = &closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.Select:
		fr.env[ci.res] = ex.selectStmt(fr, in, ops)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return kNext
}

func isInitFn(fv value) bool {
	f, ok := fv.(*ssa.Function)
	return ok && f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != ""
}

// globalAddr returns the cell of a global, running its package's initialiser on first use.
func (ex *Exec) globalAddr(g *gor, gl *ssa.Global) *value {
	pkg := gl.Pkg
	p := ex.w.run.prog
	var cells map[*ssa.Global]*value
	var inited map[*ssa.Package]bool
	if p.isRepoPkg(pkg) {
		cells, inited = ex.globals, ex.inited
	} else {
		cells, inited = ex.w.sharedGlobals, ex.w.sharedInited
	}
	if !inited[pkg] {
		inited[pkg] = true
		p.buildPkg(pkg)
		ex.runInit(g, pkg)
	}
	c, ok := cells[gl]
	if !ok {
		c = new(value)
		*c = zero(gl.Type().Underlying().(*types.Pointer).Elem())
		cells[gl] = c
	}
	return c
}

func (ex *Exec) runInit(g *gor, pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	steps, max := ex.steps, ex.maxSteps
	ex.maxSteps = steps + 50_000_000
	fi := infoOf(ex.w.run.prog, fn)
	fi.prepare(ex.w.run.prog)
	if len(fi.blocks) > 0 {
		saved := g.top
		fr := &frame{g: g, ex: ex, fi: fi, fn: fn, caller: g.top, tolerant: true}
		fr.env = make([]value, fi.nregs)
		fr.block = &fi.blocks[0]
		g.top = fr
		fr.run()
		g.top = saved
	}
	ex.steps, ex.maxSteps = steps, max
	if !ex.w.run.prog.isRepoPkg(pkg) {
		for k, v := range ex.objs {
			ex.w.objs[k] = v
		}
	}
}
