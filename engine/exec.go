package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice on a path; a prefix of decisions identifies a subtree of executions.
type Decision struct {
	N   int32  // chosen alternative
	Val uint64 // value guessed by a concretisation (binary decision "t == Val")
}

type frameTrace struct {
	fn  *ssa.Function
	pos string
}

type nondet struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	t    value
	Val  string `json:"v"`
}

type obsRec struct {
	label string
	vals  []value
}

// Exec is one symbolic execution path.
type Exec struct {
	w     *Worker
	ctx   *TermCtx
	sol   *Solver
	h     *Harness
	param map[string]int

	prefix    []Decision
	decisions []Decision
	pos       int
	newWork   [][]Decision

	pc      []*Term
	lits    map[*Term]bool // literals known true/false on the path
	model   Model
	ev      *evaluator
	modelOK bool
	suspect bool // an unknown query was treated as feasible

	nondets []nondet
	nvar    int
	obs     []obsRec
	reached map[string]bool
	asserts int

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool

	gors                        []*gor
	cur                         *gor
	nextGor                     int
	mainG                       *gor
	done                        chan any
	aborted                     bool
	preempt                     int
	maxPre                      int
	netListen, netDial          value // stand-ins for the network
	httpServe, httpStop, notify value // stand-ins for the HTTP server and signals
	explore                     bool
	rr                          int
	switches                    int

	clock      *Term // nanoseconds since year 1, signed, timeW bits
	wg         sync.WaitGroup
	quiescer   *gor
	sched      []int
	raceOn     bool
	fairRand   bool // random choices take turns
	randNo     int
	selOrders  bool
	timerFires int
	timers     []*timerObj
	timerSeq   int

	dbs                       map[string]*dbFile
	dbWrites                  int
	dbClosedUses              int
	dbReads                   int
	writeFaultAt, readFaultAt int // index of the failing operation, -1 if none
	faultKind                 string
	objs                      map[any]any // side table keyed by *value
	fs                        map[string]bool
	mapOrders                 bool
	uniq                      map[string]*value
	steps                     int64
	maxSteps                  int64
	tmpSeq                    int
	chanSeq                   int
	funcs                     map[*ssa.Function]bool
	violations                []*Violation
	hangMsg                   string
	sample                    *Sample
}

type Violation struct {
	Harness   string
	Msg       string
	Kind      string // assert, panic, deadlock, resource
	Where     string
	Values    []nondet
	Params    map[string]int
	Sched     []int
	Confirmed bool
	ReplayOut string
}

func (ex *Exec) where() string {
	if ex.cur == nil {
		return ""
	}
	return ex.cur.trace()
}

// ---- decisions

func (ex *Exec) addPC(t *Term) {
	if t == ex.ctx.T {
		return
	}
	ex.pc = append(ex.pc, t)
	ex.sol.assert(t)
	ex.learn(t, true)
}

func (ex *Exec) learn(t *Term, v bool) {
	for t.op == OpNot && t.w == 0 {
		t = t.a
		v = !v
	}
	ex.lits[t] = v
	if v && t.op == OpBAnd {
		ex.learn(t.a, true)
		ex.learn(t.b, true)
	}
	if !v && t.op == OpBOr {
		ex.learn(t.a, false)
		ex.learn(t.b, false)
	}
}

// known reports the truth value of t if it follows syntactically from the path condition.
func (ex *Exec) known(t *Term) (bool, bool) {
	neg := false
	for t.op == OpNot && t.w == 0 {
		t = t.a
		neg = !neg
	}
	if t == ex.ctx.T {
		return !neg, true
	}
	if t == ex.ctx.F {
		return neg, true
	}
	if v, ok := ex.lits[t]; ok {
		return v != neg, true
	}
	switch t.op {
	case OpBAnd:
		a, ok1 := ex.known(t.a)
		b, ok2 := ex.known(t.b)
		if ok1 && !a || ok2 && !b {
			return neg, true
		}
		if ok1 && ok2 {
			return !neg, true
		}
	case OpBOr:
		a, ok1 := ex.known(t.a)
		b, ok2 := ex.known(t.b)
		if ok1 && a || ok2 && b {
			return !neg, true
		}
		if ok1 && ok2 {
			return neg, true
		}
	}
	return false, false
}

func (ex *Exec) setModel(m Model) {
	ex.model = m
	ex.ev = newEvaluator(m)
	ex.modelOK = m != nil
}

// ensureModel finds a model of the path condition; ends the path if there is none.
func (ex *Exec) ensureModel() {
	if ex.modelOK {
		return
	}
	r, m := ex.sol.check(nil, true)
	switch r {
	case Sat:
		ex.setModel(m)
	case Unsat:
		panic(pathEnd{kind: endAssume, msg: "infeasible prefix"})
	default:
		panic(pathEnd{kind: endInconclusive, msg: "solver gave no answer for the path condition"})
	}
}

func (ex *Exec) replaying() bool { return ex.pos < len(ex.prefix) }

// decide picks a truth value for c, forking when both are feasible.
func (ex *Exec) decide(c *Term) bool {
	if v, ok := ex.known(c); ok {
		return v
	}
	if ex.replaying() {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.decisions = append(ex.decisions, d)
		switch d.N {
		case 0:
			ex.addPC(ex.ctx.Not(c))
			return false
		case 1:
			ex.addPC(c)
			return true
		case 2, 3: // implied by the path condition
			ex.learn(c, d.N == 3)
			return d.N == 3
		}
		panic("gosym: replay out of step")
	}
	ex.ensureModel()
	v := ex.ev.bool(c)
	t, nt := c, ex.ctx.Not(c)
	if !v {
		t, nt = nt, t
	}
	r, _ := ex.sol.check([]*Term{nt}, false)
	if r == Unsat {
		n := int32(2)
		if v {
			n = 3
		}
		ex.decisions = append(ex.decisions, Decision{N: n})
		ex.learn(c, v)
		return v
	}
	if r == Unknown {
		ex.w.run.unknowns.Add(1)
	}
	taken, other := int32(0), int32(1)
	if v {
		taken, other = 1, 0
	}
	ex.fork(Decision{N: other})
	ex.decisions = append(ex.decisions, Decision{N: taken})
	ex.addPC(t)
	return v
}

func (ex *Exec) fork(d Decision) {
	p := make([]Decision, len(ex.decisions)+1)
	copy(p, ex.decisions)
	p[len(ex.decisions)] = d
	ex.newWork = append(ex.newWork, p)
	ex.w.run.forks.Add(1)
	if debugMode {
		forkMu.Lock()
		forkAt[ex.where()]++
		forkMu.Unlock()
	}
}

var (
	forkMu sync.Mutex
	forkAt = map[string]int{}
)

// choose makes an n-ary unconstrained decision.
func (ex *Exec) choose(n int) int { return ex.chooseFrom(n, false) }

// chooseFrom explores all alternatives. Half of the workers start with random ones, so that an exploration that does not
// finish in time has seen different parts of the space; sticky alternatives prefer the first one.
func (ex *Exec) chooseFrom(n int, sticky bool) int {
	if n <= 1 {
		return 0
	}
	if ex.replaying() {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.decisions = append(ex.decisions, d)
		return int(d.N)
	}
	k := 0
	if ex.w.wild && !sticky || ex.w.wild && ex.w.rng.Intn(8) == 0 {
		k = ex.w.rng.Intn(n)
	}
	for i := n - 1; i >= 0; i-- {
		if i != k {
			ex.fork(Decision{N: int32(i)})
		}
	}
	ex.decisions = append(ex.decisions, Decision{N: int32(k)})
	return k
}

func (ex *Exec) assume(c *Term) {
	if v, ok := ex.known(c); ok {
		if !v {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	if ex.replaying() {
		ex.addPC(c)
		return
	}
	if ex.modelOK && ex.ev.bool(c) {
		ex.addPC(c)
		return
	}
	r, m := ex.sol.check([]*Term{c}, true)
	if r == Unsat {
		panic(pathEnd{kind: endAssume})
	}
	ex.addPC(c)
	if r == Sat {
		ex.setModel(m)
	} else {
		ex.w.run.unknowns.Add(1)
		ex.modelOK = false
	}
}

// concretize forces a symbolic integer to a concrete value, forking over the alternatives.
func (ex *Exec) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.v
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(unsupported("too many values in concretisation"))
		}
		var val uint64
		if ex.replaying() {
			val = ex.prefix[ex.pos].Val
			k := ex.ctx.Eq(t, ex.ctx.Const(t.w, val))
			d := ex.prefix[ex.pos]
			ex.pos++
			ex.decisions = append(ex.decisions, d)
			if d.N == 2 { // implied
				ex.learn(k, true)
				return val
			}
			if d.N == 1 {
				ex.addPC(k)
				return val
			}
			ex.addPC(ex.ctx.Not(k))
			continue
		}
		ex.ensureModel()
		val = ex.ev.eval(t).Uint64()
		k := ex.ctx.Eq(t, ex.ctx.Const(t.w, val))
		if v, ok := ex.known(k); ok && v {
			// must stay deterministic under replay: record as implied
			ex.decisions = append(ex.decisions, Decision{N: 2, Val: val})
			return val
		}
		r, _ := ex.sol.check([]*Term{ex.ctx.Not(k)}, false)
		if r == Unsat {
			ex.decisions = append(ex.decisions, Decision{N: 2, Val: val})
			ex.learn(k, true)
			return val
		}
		ex.fork(Decision{N: 0, Val: val})
		ex.decisions = append(ex.decisions, Decision{N: 1, Val: val})
		ex.addPC(k)
		return val
	}
}

// assertProp discharges a property assertion.
func (ex *Exec) assertProp(c *Term, msg string) {
	ex.asserts++
	ex.w.run.asserts.Add(1)
	if v, ok := ex.known(c); ok && v {
		return
	}
	if ex.replaying() {
		// discharged when the prefix was first executed; only the outcome is replayed
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.decisions = append(ex.decisions, d)
		if d.N == 4 {
			ex.learn(c, true)
		} else {
			ex.addPC(c)
		}
		return
	}
	ex.ensureModel()
	m := ex.model
	if ex.ev.bool(c) {
		r, mm := ex.sol.check([]*Term{ex.ctx.Not(c)}, true)
		switch r {
		case Unsat:
			ex.decisions = append(ex.decisions, Decision{N: 4})
			ex.learn(c, true)
			return
		case Unknown:
			ex.w.run.inconclusive(msg)
			ex.decisions = append(ex.decisions, Decision{N: 5})
			ex.addPC(c)
			return
		}
		m = mm
	}
	ex.report("assert", msg, m)
	// continue on the part of the path where the assertion holds
	r, mm := ex.sol.check([]*Term{c}, true)
	if r != Sat {
		panic(pathEnd{kind: endViolation, msg: msg})
	}
	ex.decisions = append(ex.decisions, Decision{N: 5})
	ex.addPC(c)
	ex.setModel(mm)
}

func (ex *Exec) report(kind, msg string, m Model) {
	v := &Violation{Harness: ex.h.Name, Msg: msg, Kind: kind, Where: ex.where(), Params: ex.param}
	v.Values = ex.nondetValues(m)
	v.Sched = ex.schedTrace()
	ex.violations = append(ex.violations, v)
}

func (ex *Exec) nondetValues(m Model) []nondet {
	ev := newEvaluator(m)
	r := make([]nondet, len(ex.nondets))
	for i, n := range ex.nondets {
		r[i] = nondet{Name: n.Name, Kind: n.Kind, Val: evalNondet(ev, n.t)}
	}
	return r
}

func evalNondet(ev *evaluator, v value) string {
	switch x := v.(type) {
	case *Term:
		return ev.eval(x).Text(16)
	case uint64:
		return new(big.Int).SetUint64(x).Text(16)
	case bool:
		if x {
			return "1"
		}
		return "0"
	case []value:
		var sb strings.Builder
		for _, e := range x {
			switch y := e.(type) {
			case uint64:
				fmt.Fprintf(&sb, "%02x", y)
			case *Term:
				fmt.Fprintf(&sb, "%02x", ev.eval(y).Uint64())
			}
		}
		return sb.String()
	}
	return ""
}

// ---- term helpers on values

func (ex *Exec) term(v value, w int) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d, want %d: %s", x.w, w, x))
		}
		return x
	case uint64:
		return ex.ctx.Const(w, x)
	case bool:
		return ex.ctx.Bool(x)
	}
	panic(unsupported(fmt.Sprintf("not a scalar: %T %s", v, showVal(v))))
}

func fromTerm(t *Term) value {
	if t.op == OpConst && t.w <= 64 {
		if t.w == 0 {
			return t.v != 0
		}
		return t.v
	}
	return t
}

func (ex *Exec) boolTerm(v value) *Term {
	switch x := v.(type) {
	case bool:
		return ex.ctx.Bool(x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("not a bool: %T", v)))
}

func (ex *Exec) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return ex.decide(x)
	}
	panic(unsupported(fmt.Sprintf("not a bool: %T", v)))
}

// concInt returns a concrete int for an integer value.
func (ex *Exec) concInt(v value) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(int64(sx(ex.concretize(x), x.w)))
	}
	panic(unsupported(fmt.Sprintf("not an int: %T", v)))
}

// bytesTerm concatenates byte values into one term; nil if there are cells that are not bytes.
func (ex *Exec) bytesTerm(b []value) *Term {
	if len(b) == 0 {
		return nil
	}
	// fold runs of concrete bytes first
	var t *Term
	i := 0
	for i < len(b) {
		var piece *Term
		switch b[i].(type) {
		case uint64:
			j := i
			v := new(big.Int)
			for j < len(b) {
				u, ok := b[j].(uint64)
				if !ok {
					break
				}
				v.Lsh(v, 8).Or(v, new(big.Int).SetUint64(u))
				j++
			}
			piece = ex.ctx.BigConst(8*(j-i), v)
			i = j
		case *Term:
			x := b[i].(*Term)
			j := i + 1
			// merge adjacent extracts quickly
			if x.op == OpExtract {
				lo := int(x.v)
				for j < len(b) {
					y, ok := b[j].(*Term)
					if !ok || y.op != OpExtract || y.a != x.a || int(y.v) != lo-8 {
						break
					}
					lo -= 8
					j++
				}
				piece = ex.ctx.Extract(x.a, int(x.v)+7, lo)
			} else {
				piece = x
			}
			i = j
		default:
			return nil
		}
		if t == nil {
			t = piece
		} else {
			t = ex.ctx.Concat(t, piece)
		}
	}
	return t
}

func (ex *Exec) bytesEq(a, b []value) *Term {
	if len(a) != len(b) {
		return ex.ctx.F
	}
	if len(a) == 0 {
		return ex.ctx.T
	}
	allC := true
	for i := range a {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if x != y {
				return ex.ctx.F
			}
			continue
		}
		allC = false
	}
	if allC {
		return ex.ctx.T
	}
	ta, tb := ex.bytesTerm(a), ex.bytesTerm(b)
	if ta == nil || tb == nil {
		r := ex.ctx.T
		for i := range a {
			if ba, ok := a[i].(*blob); ok {
				bb, ok2 := b[i].(*blob)
				if !ok2 {
					return ex.ctx.F
				}
				if ba != bb {
					na, ok1 := ba.v.(*node)
					nb, ok2 := bb.v.(*node)
					if !ok1 || !ok2 || ba.codec != bb.codec {
						panic(unsupported("comparison of encodings"))
					}
					r = ex.ctx.And(r, ex.nodeEq(na, nb))
				}
				continue
			}
			if _, ok := b[i].(*blob); ok {
				return ex.ctx.F
			}
			r = ex.ctx.And(r, ex.ctx.Eq(ex.term(a[i], 8), ex.term(b[i], 8)))
		}
		return r
	}
	return ex.eqSplit(ta, tb)
}

// eqSplit builds an equality splitting misaligned concatenations on common boundaries.
func (ex *Exec) eqSplit(a, b *Term) *Term {
	c := ex.ctx
	if a.op == OpConcat && b.op == OpConcat && a.b.w != b.b.w {
		lo := a.b.w
		if b.b.w < lo {
			lo = b.b.w
		}
		return c.And(ex.eqSplit(c.Extract(a, a.w-1, lo), c.Extract(b, b.w-1, lo)), ex.eqSplit(c.Extract(a, lo-1, 0), c.Extract(b, lo-1, 0)))
	}
	return c.Eq(a, b)
}

// eqVal builds the boolean term for a == b at static type t.
func (ex *Exec) eqVal(t types.Type, a, b value) *Term {
	c := ex.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ex.strEq(a, b)
		}
		if w, _, ok := intInfo(t); ok {
			x, ok1 := a.(uint64)
			y, ok2 := b.(uint64)
			if ok1 && ok2 {
				return c.Bool(x == y)
			}
			ta, isTA := a.(*timeCell)
			tb, isTB := b.(*timeCell)
			if isTA || isTB {
				z := ex.tconst(new(big.Int))
				na, nb := z, z
				if isTA {
					na = ta.ns
				}
				if isTB {
					nb = tb.ns
				}
				return c.Eq(na, nb)
			}
			return c.Eq(ex.term(a, w), ex.term(b, w))
		}
		if u.Info()&types.IsBoolean != 0 {
			return c.Eq(ex.boolTerm(a), ex.boolTerm(b))
		}
		if u.Info()&types.IsFloat != 0 {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if ok1 && ok2 {
				return c.Bool(x == y)
			}
			panic(unsupported("symbolic float comparison"))
		}
		return c.Bool(ptrEq(a, b))
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		r := c.T
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, ex.eqVal(u.Field(i).Type(), x[i], y[i]))
			if r == c.F {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			return ex.bytesEq(x, y)
		}
		r := c.T
		for i := range x {
			r = c.And(r, ex.eqVal(u.Elem(), x[i], y[i]))
		}
		return r
	case *types.Interface:
		return ex.ifaceEq(a.(iface), b.(iface))
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		return c.Bool(x == nil && y == nil)
	}
	return c.Bool(ptrEq(a, b))
}

func (ex *Exec) ifaceEq(x, y iface) *Term {
	c := ex.ctx
	if x.t == nil || y.t == nil {
		return c.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return c.F
	}
	if !types.Comparable(x.t) {
		ex.panicRuntime("comparing uncomparable type " + x.t.String())
	}
	return ex.eqVal(x.t, x.v, y.v)
}

func isNilPtr(v value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *value:
		return x == nil
	case *host:
		return x == nil
	case *closure:
		return x == nil
	case *mapObj:
		return x == nil
	case *chanObj:
		return x == nil
	case []value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}

func ptrEq(a, b value) bool {
	na, nb := isNilPtr(a), isNilPtr(b)
	if na || nb {
		return na && nb
	}
	switch a.(type) {
	case *value, *host, *closure, *mapObj, *chanObj, *ssa.Function, *nativeFn:
		return a == b
	}
	panic(unsupported(fmt.Sprintf("pointer comparison of %T", a)))
}

func (ex *Exec) strEq(a, b value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return ex.ctx.Bool(x == y)
	}
	oa, isA := a.(*opaqueStr)
	ob, isB := b.(*opaqueStr)
	if isA && isB {
		if oa == ob {
			return ex.ctx.T
		}
		if oa.kind != ob.kind || len(oa.payload) != len(ob.payload) {
			panic(unsupported("comparison of rendered strings"))
		}
		r := ex.ctx.T
		for i := range oa.payload {
			r = ex.ctx.And(r, ex.eqDyn(oa.payload[i], ob.payload[i]))
		}
		return r
	}
	if isA || isB {
		if isB {
			a, b = b, a
			oa = ob
		}
		if s, ok := b.(string); ok && s == "" {
			return ex.ctx.F // rendered values are never empty
		}
		panic(unsupported("comparison of rendered string " + oa.kind))
	}
	return ex.bytesEq(strBytes(a), strBytes(b))
}

// eqDyn compares two values structurally without type information.
func (ex *Exec) eqDyn(a, b value) *Term {
	c := ex.ctx
	switch x := a.(type) {
	case structure:
		y, ok := b.(structure)
		if !ok || len(x) != len(y) {
			return c.F
		}
		r := c.T
		for i := range x {
			r = c.And(r, ex.eqDyn(x[i], y[i]))
		}
		return r
	case array:
		return ex.bytesEqDyn(x, b)
	case []value:
		return ex.bytesEqDyn(x, b)
	case string, *symStr, *opaqueStr:
		return ex.strEq(a, b)
	case bool:
		return c.Eq(ex.boolTerm(a), ex.boolTerm(b))
	case uint64:
		switch y := b.(type) {
		case uint64:
			return c.Bool(x == y)
		case *Term:
			return c.Eq(c.Const(y.w, x), y)
		}
		return c.F
	case *Term:
		switch y := b.(type) {
		case uint64:
			return c.Eq(x, c.Const(x.w, y))
		case bool:
			return c.Eq(x, c.Bool(y))
		case *Term:
			return c.Eq(x, y)
		}
		return c.F
	}
	return c.Bool(ptrEq(a, b))
}

func (ex *Exec) bytesEqDyn(x []value, b value) *Term {
	var y []value
	switch z := b.(type) {
	case array:
		y = z
	case []value:
		y = z
	default:
		return ex.ctx.F
	}
	if len(x) != len(y) {
		return ex.ctx.F
	}
	r := ex.ctx.T
	for i := range x {
		r = ex.ctx.And(r, ex.eqDyn(x[i], y[i]))
	}
	return r
}

func strBytes(v value) []value {
	switch x := v.(type) {
	case string:
		r := make([]value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = uint64(x[i])
		}
		return r
	case *symStr:
		return x.b
	case *opaqueStr:
		panic(unsupported("bytes of rendered string " + x.kind))
	}
	panic(unsupported(fmt.Sprintf("not a string: %T", v)))
}

func mkStr(b []value) value {
	bs := make([]byte, len(b))
	for i, e := range b {
		u, ok := e.(uint64)
		if !ok {
			if o, ok2 := e.(*opaqueStr); ok2 && len(b) == 1 {
				return o
			}
			return &symStr{b: append([]value(nil), b...)}
		}
		bs[i] = byte(u)
	}
	return string(bs)
}

func strLen(v value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *symStr:
		return len(x.b)
	case *opaqueStr:
		panic(unsupported("length of rendered string " + x.kind))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

// ---- maps

func newMap(k types.Type) *mapObj { return &mapObj{idx: map[string]*mapEntry{}, keyT: k} }

func (ex *Exec) mapFind(m *mapObj, k value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, conc := keyOf(k)
	if conc {
		if e, ok := m.idx[ks]; ok && !e.dead {
			return e
		}
		if m.symN == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := keyOf(e.k); c2 {
				continue
			}
		}
		if ex.decide(ex.eqVal(m.keyT, e.k, k)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapSet(m *mapObj, k, v value) {
	if m == nil {
		ex.panicRuntime("assignment to entry in nil map")
	}
	if e := ex.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	if ks, conc := keyOf(k); conc {
		m.idx[ks] = e
	} else {
		m.symN++
	}
}

func (ex *Exec) mapDelete(m *mapObj, k value) {
	e := ex.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ks, conc := keyOf(e.k); conc {
		delete(m.idx, ks)
	} else {
		m.symN--
	}
	live := m.entries[:0:0]
	for _, x := range m.entries {
		if !x.dead {
			live = append(live, x)
		}
	}
	m.entries = live
}

// ---- run-wide state

type Run struct {
	mu                                    sync.Mutex
	cond                                  *sync.Cond
	queue                                 [][]Decision
	active                                int
	stop                                  bool
	h                                     *Harness
	prog                                  *Program
	deadlineNS                            atomic.Int64
	stopFlag                              atomic.Bool
	start                                 time.Time
	wall                                  time.Duration
	nsample                               int
	maxPaths                              int
	paths                                 int
	ended                                 map[endKind]int
	unsup                                 map[string]int
	incon                                 map[string]int
	violations                            []*Violation
	vioKeys                               map[string]bool
	reached                               map[string]int
	funcs                                 map[*ssa.Function]bool
	samples                               []*Sample
	sampleEvery                           int
	queries, sat, unsat, unknown, oneshot int
	busy                                  time.Duration
	unknowns                              atomicInt
	forks                                 atomicInt
	asserts                               atomicInt
	steps                                 atomicInt
	truncated                             int
	maxDepth                              int
	tier                                  string
	params                                map[string]int
}

type Sample struct {
	Harness string
	Params  map[string]int
	Values  []nondet
	Obs     []string
	Sched   []int
	Msg     string
}

type atomicInt struct {
	mu sync.Mutex
	v  int64
}

func (a *atomicInt) Add(n int64) {
	a.mu.Lock()
	a.v += n
	a.mu.Unlock()
}

func (r *Run) inconclusive(msg string) {
	r.mu.Lock()
	r.incon[msg]++
	r.mu.Unlock()
}

type Worker struct {
	wild          bool // explores in random order
	run           *Run
	ctx           *TermCtx
	sol           *Solver
	sharedGlobals map[*ssa.Global]*value
	sharedInited  map[*ssa.Package]bool
	uniq          map[string]*value
	objs          map[any]any
	rng           *rand.Rand
}

func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
