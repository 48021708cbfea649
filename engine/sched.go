package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program run as coroutines: each has a host goroutine, exactly one of which
// holds the execution token at any time. Switches happen at synchronisation operations only.

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

type gor struct {
	id     int
	ex     *Exec
	top    *frame
	resume chan struct{}
	state  gstate
	why    string
	lost   any // engine-level condition to re-raise in this goroutine
	vc     []int
	name   string
	label  int // identity given by the harness
	fresh  bool
}

type abortPanic struct{}

func (ex *Exec) newGor() *gor {
	g := &gor{id: ex.nextGor, ex: ex, resume: make(chan struct{}, 1), label: -1}
	ex.nextGor++
	g.vc = make([]int, g.id+1)
	g.vc[g.id] = 1
	ex.gors = append(ex.gors, g)
	return g
}

func (ex *Exec) spawn(fv value, args []value, sig *types.Signature) *gor {
	parent := ex.cur
	g := ex.newGor()
	joinVC(g, parent.vc)
	parent.vc[parent.id]++
	g.state = gRunnable
	ex.wg.Add(1)
	go func() {
		defer ex.wg.Done()
		<-g.resume
		if ex.aborted {
			return
		}
		defer func() {
			r := recover()
			g.state = gDone
			switch x := r.(type) {
			case nil:
			case abortPanic:
				return
			case goexitPanic:
			case targetPanic:
				// an unrecovered panic in any goroutine ends the program
				ex.mainG.lost = fatalPanic{msg: "panic in goroutine: " + ex.panicText(x.v), trace: x.trace}
				ex.toMain()
				return
			default:
				ex.mainG.lost = r
				ex.toMain()
				return
			}
			ex.leave(g)
		}()
		if b, ok := fv.(*ssa.Builtin); ok {
			fr := &frame{g: g, ex: ex}
			ex.builtin(fr, b, args)
			return
		}
		ex.callFn(g, fv, args)
	}()
	return g
}

// toMain hands the token to the main goroutine unconditionally.
func (ex *Exec) toMain() {
	ex.cur = ex.mainG
	ex.mainG.state = gRunnable
	ex.mainG.resume <- struct{}{}
}

// wait parks the calling goroutine until it gets the token back.
func (g *gor) wait() {
	<-g.resume
	if g.ex.aborted {
		panic(abortPanic{})
	}
	if g.lost != nil {
		l := g.lost
		g.lost = nil
		panic(l)
	}
}

func (ex *Exec) runnable() []*gor {
	var r []*gor
	for _, g := range ex.gors {
		if g.state == gRunnable {
			r = append(r, g)
		}
	}
	return r
}

// next chooses the goroutine to run after the current one blocked or ended.
func (ex *Exec) next() *gor {
	for {
		r := ex.runnable()
		if len(r) > 0 {
			if ex.explore && len(r) > 1 {
				k := ex.choose(len(r))
				ex.sched = append(ex.sched, r[k].label)
				return r[k]
			}
			// fair: lowest id after the last one served
			sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
			for _, g := range r {
				if g.id > ex.rr {
					ex.rr = g.id
					return g
				}
			}
			ex.rr = r[0].id
			return r[0]
		}
		if q := ex.quiescer; q != nil {
			ex.quiescer = nil
			q.state = gRunnable
			return q
		}
		if !ex.fireTimer() {
			return nil
		}
	}
}

// leave passes the token on when g will not run any more now.
func (ex *Exec) leave(g *gor) {
	n := ex.next()
	if n == nil {
		ex.mainG.lost = ex.deadlock()
		ex.toMain()
		return
	}
	ex.cur = n
	n.resume <- struct{}{}
}

type deadlockPanic struct{ msg string }

func (ex *Exec) deadlock() any {
	s := ""
	for _, g := range ex.gors {
		if g.state == gBlocked {
			s += fmt.Sprintf("[goroutine %d blocked on %s: %s] ", g.id, g.why, g.trace())
		}
	}
	return deadlockPanic{msg: s}
}

// block parks g until it is made runnable and scheduled.
func (ex *Exec) block(g *gor, why string) {
	g.state = gBlocked
	g.why = why
	ex.switchFrom(g)
}

func (ex *Exec) switchFrom(g *gor) {
	ex.switches++
	if ex.switches > 200000 {
		panic(pathEnd{kind: endBudget, msg: "too many context switches"})
	}
	n := ex.next()
	if n == nil {
		d := ex.deadlock()
		if g == ex.mainG {
			panic(d)
		}
		ex.mainG.lost = d
		ex.toMain()
		g.wait()
		return
	}
	if n == g {
		ex.cur = g
		return
	}
	ex.cur = n
	n.resume <- struct{}{}
	g.wait()
}

func (ex *Exec) ready(g *gor) {
	if g.state == gBlocked {
		g.state = gRunnable
	}
}

// yield is a scheduling point of a goroutine that could go on.
func (ex *Exec) yield(g *gor, what string) {
	if !ex.explore {
		return
	}
	r := ex.runnable()
	if len(r) <= 1 {
		return
	}
	if ex.preempt >= ex.maxPre {
		return
	}
	// current goroutine first
	k := ex.chooseFrom(len(r), true)
	if k == 0 {
		return
	}
	ex.preempt++
	i := 0
	for _, x := range r {
		if x == g {
			continue
		}
		i++
		if i == k {
			ex.sched = append(ex.sched, x.label)
			ex.cur = x
			x.resume <- struct{}{}
			g.wait()
			return
		}
	}
}

// pass lets every other runnable goroutine run (runtime.Gosched).
func (ex *Exec) pass(g *gor) {
	if len(ex.runnable()) > 1 {
		ex.switchFrom(g)
	}
}

// quiesce lets the others run until all of them are blocked, without advancing the clock.
func (ex *Exec) quiesce(g *gor) {
	for {
		for len(ex.runnable()) > 1 {
			g.state = gBlocked
			g.why = "wait for quiescence"
			ex.quiescer = g
			ex.switchFrom(g)
		}
		if !ex.timerDue() {
			return
		}
		ex.fireTimer()
	}
}

// timerDue reports whether a timer is to fire at the current moment.
func (ex *Exec) timerDue() bool {
	if !ex.clock.isConst() {
		return false
	}
	for _, t := range ex.timers {
		if t.active && t.when.Cmp(ex.nowConst()) <= 0 {
			return true
		}
	}
	return false
}

// ---- vector clocks

func joinVC(g *gor, vc []int) {
	for len(g.vc) < len(vc) {
		g.vc = append(g.vc, 0)
	}
	for i, v := range vc {
		if v > g.vc[i] {
			g.vc[i] = v
		}
	}
}

func (g *gor) release() []int {
	r := append([]int(nil), g.vc...)
	g.vc[g.id]++
	return r
}

type access struct{ gid, clk int }

type raceInfo struct {
	w  access
	rs []access
}

func (ex *Exec) raceMap(m *mapObj, write bool) {
	if !ex.raceOn || m == nil || ex.cur == nil {
		return
	}
	g := ex.cur
	ri := m.race
	if ri == nil {
		ri = &raceInfo{w: access{-1, 0}}
		m.race = ri
	}
	before := func(a access) bool {
		return a.gid < 0 || a.gid == g.id || (a.gid < len(g.vc) && g.vc[a.gid] >= a.clk)
	}
	bad := !before(ri.w)
	if write {
		for _, a := range ri.rs {
			if !before(a) {
				bad = true
			}
		}
	}
	if bad {
		panic(targetPanic{v: iface{t: types.Typ[types.String], v: "fatal error: concurrent map access"}, trace: ex.where()})
	}
	me := access{g.id, g.vc[g.id]}
	if write {
		ri.w = me
		ri.rs = nil
	} else {
		for i := range ri.rs {
			if ri.rs[i].gid == g.id {
				ri.rs[i] = me
				return
			}
		}
		ri.rs = append(ri.rs, me)
	}
}

// ---- channels

func (ex *Exec) chanSend(g *gor, cv, v value) {
	c, _ := cv.(*chanObj)
	ex.yield(g, "send")
	if c == nil {
		ex.block(g, "send on nil channel")
		return
	}
	if c.closed {
		ex.panicPlain("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		ex.deliver(w, v, true, g)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufvc = append(c.bufvc, g.release())
		return
	}
	w := &waiter{g: g, sel: -1, val: v, group: &selGroup{}}
	c.sendq = append(c.sendq, w)
	ex.block(g, "channel send")
	for !w.group.fired {
		ex.block(g, "channel send")
	}
	if w.group.closedSend {
		ex.panicPlain("send on closed channel")
	}
}

func (ex *Exec) panicPlain(msg string) {
	panic(targetPanic{v: ex.runtimeErr(msg), trace: ex.where()})
}

func (ex *Exec) deliver(w *waiter, v value, ok bool, from *gor) {
	w.group.fired = true
	w.group.idx = w.sel
	w.group.val = v
	w.group.ok = ok
	if from != nil {
		joinVC(w.g, from.vc)
		from.vc[from.id]++
		// unbuffered channels synchronise both ways
		joinVC(from, w.g.vc)
	}
	ex.ready(w.g)
}

func (c *chanObj) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.group.fired {
			return w
		}
	}
	return nil
}

func (c *chanObj) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.group.fired {
			return w
		}
	}
	return nil
}

func (c *chanObj) hasRecv() bool {
	for _, w := range c.recvq {
		if !w.group.fired {
			return true
		}
	}
	return false
}

func (c *chanObj) hasSend() bool {
	for _, w := range c.sendq {
		if !w.group.fired {
			return true
		}
	}
	return false
}

func (ex *Exec) chanRecv(g *gor, cv value) (value, bool) {
	c, _ := cv.(*chanObj)
	ex.yield(g, "recv")
	if c == nil {
		ex.block(g, "receive from nil channel")
		return nil, false
	}
	if v, ok, done := ex.tryRecv(g, c); done {
		return v, ok
	}
	w := &waiter{g: g, sel: -1, group: &selGroup{}}
	c.recvq = append(c.recvq, w)
	ex.block(g, "channel receive")
	for !w.group.fired {
		ex.block(g, "channel receive")
	}
	return w.group.val, w.group.ok
}

func (ex *Exec) tryRecv(g *gor, c *chanObj) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.bufvc) > 0 {
			joinVC(g, c.bufvc[0])
			c.bufvc = c.bufvc[1:]
		}
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			c.bufvc = append(c.bufvc, w.g.release())
			w.group.fired = true
			w.group.idx = w.sel
			ex.ready(w.g)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		w.group.fired = true
		w.group.idx = w.sel
		joinVC(g, w.g.vc)
		w.g.vc[w.g.id]++
		joinVC(w.g, g.vc)
		ex.ready(w.g)
		return w.val, true, true
	}
	if c.closed {
		joinVC(g, c.closevc)
		return zero(c.elemT), false, true
	}
	return nil, false, false
}

func (ex *Exec) chanClose(cv value) {
	c, _ := cv.(*chanObj)
	if c == nil {
		ex.panicPlain("close of nil channel")
	}
	g := ex.cur
	ex.yield(g, "close")
	if c.closed {
		ex.panicPlain("close of closed channel")
	}
	c.closed = true
	c.closevc = g.release()
	for w := c.popRecv(); w != nil; w = c.popRecv() {
		w.group.fired = true
		w.group.idx = w.sel
		w.group.val = zero(c.elemT)
		w.group.ok = false
		joinVC(w.g, c.closevc)
		ex.ready(w.g)
	}
	for w := c.popSend(); w != nil; w = c.popSend() {
		w.group.fired = true
		w.group.idx = w.sel
		w.group.closedSend = true
		ex.ready(w.g)
	}
}

func (ex *Exec) selectStmt(fr *frame, in *ssa.Select, ops []opnd) value {
	g := fr.g
	ex.yield(g, "select")
	type cs struct {
		c    *chanObj
		v    value
		send bool
	}
	cases := make([]cs, len(in.States))
	k := 0
	for i, st := range in.States {
		c, _ := fr.get(&ops[k]).(*chanObj)
		k++
		cases[i] = cs{c: c, send: st.Dir == types.SendOnly}
		if cases[i].send {
			cases[i].v = fr.get(&ops[k])
		}
		k++
	}
	build := func(idx int, v value, ok bool) value {
		r := tuple{uint64(int64(idx)), ok}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					r = append(r, v)
				} else {
					r = append(r, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return r
	}
	var readyIdx []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			if c.c.closed || c.c.hasRecv() || len(c.c.buf) < c.c.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if len(c.c.buf) > 0 || c.c.hasSend() || c.c.closed {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		i := readyIdx[0]
		if (ex.explore || ex.selOrders) && len(readyIdx) > 1 {
			i = readyIdx[ex.choose(len(readyIdx))]
		}
		c := cases[i]
		if c.send {
			if c.c.closed {
				ex.panicPlain("send on closed channel")
			}
			if w := c.c.popRecv(); w != nil {
				ex.deliver(w, c.v, true, g)
			} else {
				c.c.buf = append(c.c.buf, c.v)
				c.c.bufvc = append(c.c.bufvc, g.release())
			}
			return build(i, nil, false)
		}
		v, ok, _ := ex.tryRecv(g, c.c)
		return build(i, v, ok)
	}
	if !in.Blocking {
		return build(-1, nil, false)
	}
	grp := &selGroup{}
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &waiter{g: g, sel: i, val: c.v, group: grp}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	for !grp.fired {
		ex.block(g, "select")
	}
	if grp.closedSend {
		ex.panicPlain("send on closed channel")
	}
	return build(grp.idx, grp.val, grp.ok)
}

// ---- mutexes

type mutexObj struct {
	w       bool
	readers int
	wwait   int
	q       []*lockWaiter
	vc      []int
	owner   int
}

type lockWaiter struct {
	g     *gor
	write bool
	done  bool
}

func (ex *Exec) mutexOf(p value) *mutexObj {
	k, ok := p.(*value)
	if !ok || k == nil {
		ex.panicRuntime(nilDeref)
	}
	if m, ok := ex.objs[k].(*mutexObj); ok {
		return m
	}
	m := &mutexObj{}
	ex.objs[k] = m
	return m
}

func (ex *Exec) lock(g *gor, p value, write bool) {
	m := ex.mutexOf(p)
	ex.yield(g, "lock")
	can := !m.w && (write && m.readers == 0 || !write && m.wwait == 0)
	if can && len(m.q) == 0 || can && !write {
		if write {
			m.w = true
		} else {
			m.readers++
		}
		joinVC(g, m.vc)
		return
	}
	lw := &lockWaiter{g: g, write: write}
	m.q = append(m.q, lw)
	if write {
		m.wwait++
	}
	for !lw.done {
		ex.block(g, "lock")
	}
	joinVC(g, m.vc)
}

func (ex *Exec) tryLock(g *gor, p value, write bool) bool {
	m := ex.mutexOf(p)
	if m.w || write && m.readers > 0 || !write && m.wwait > 0 {
		return false
	}
	if write {
		m.w = true
	} else {
		m.readers++
	}
	joinVC(g, m.vc)
	return true
}

func (ex *Exec) unlock(g *gor, p value, write bool) {
	m := ex.mutexOf(p)
	if write {
		if !m.w {
			ex.fatal("fatal error: sync: unlock of unlocked mutex")
		}
		m.w = false
	} else {
		if m.readers == 0 {
			ex.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	}
	rv := g.release()
	for len(m.vc) < len(rv) {
		m.vc = append(m.vc, 0)
	}
	for i, v := range rv {
		if v > m.vc[i] {
			m.vc[i] = v
		}
	}
	m.grant(ex, write)
	ex.yield(g, "unlock")
}

func (m *mutexObj) grant(ex *Exec, afterWrite bool) {
	if m.w {
		return
	}
	if afterWrite { // readers that queued during the write go first
		rest := m.q[:0:0]
		for _, lw := range m.q {
			if !lw.write {
				lw.done = true
				m.readers++
				ex.ready(lw.g)
			} else {
				rest = append(rest, lw)
			}
		}
		m.q = rest
	}
	if m.readers == 0 {
		for i, lw := range m.q {
			if lw.write {
				m.q = append(m.q[:i:i], m.q[i+1:]...)
				m.wwait--
				m.w = true
				lw.done = true
				ex.ready(lw.g)
				return
			}
		}
		if m.wwait == 0 {
			for _, lw := range m.q {
				lw.done = true
				m.readers++
				ex.ready(lw.g)
			}
			m.q = nil
		}
	}
}

// fatal models an unrecoverable runtime failure.
func (ex *Exec) fatal(msg string) {
	panic(fatalPanic{msg: msg, trace: ex.where()})
}

type fatalPanic struct{ msg, trace string }

// ---- wait groups

type wgObj struct {
	n  int
	q  []*gor
	vc []int
}

func (ex *Exec) wgOf(p value) *wgObj {
	k, ok := p.(*value)
	if !ok || k == nil {
		ex.panicRuntime(nilDeref)
	}
	if m, ok := ex.objs[k].(*wgObj); ok {
		return m
	}
	m := &wgObj{}
	ex.objs[k] = m
	return m
}

func (ex *Exec) wgAdd(g *gor, p value, d int) {
	w := ex.wgOf(p)
	w.n += d
	if w.n < 0 {
		ex.panicPlain("sync: negative WaitGroup counter")
	}
	rv := g.release()
	for len(w.vc) < len(rv) {
		w.vc = append(w.vc, 0)
	}
	for i, v := range rv {
		if v > w.vc[i] {
			w.vc[i] = v
		}
	}
	if w.n == 0 {
		for _, x := range w.q {
			ex.ready(x)
		}
		w.q = nil
	}
}

func (ex *Exec) wgWait(g *gor, p value) {
	w := ex.wgOf(p)
	ex.yield(g, "wait")
	for w.n > 0 {
		w.q = append(w.q, g)
		ex.block(g, "WaitGroup.Wait")
	}
	joinVC(g, w.vc)
}

// ---- virtual time

type timerObj struct {
	when   *big.Int
	seq    int
	active bool
	period *big.Int
	fire   func()
}

func (ex *Exec) nowConst() *big.Int {
	if !ex.clock.isConst() {
		panic(unsupported("timers with a symbolic clock"))
	}
	return bigSigned(ex.clock.bigv(), timeW)
}

func (ex *Exec) addTimer(d *big.Int, fire func()) *timerObj {
	if d.Sign() < 0 {
		d = new(big.Int)
	}
	ex.timerSeq++
	t := &timerObj{when: new(big.Int).Add(ex.nowConst(), d), seq: ex.timerSeq, active: true, fire: fire}
	ex.timers = append(ex.timers, t)
	return t
}

func (t *timerObj) stop() bool {
	was := t.active
	t.active = false
	return was
}

// fireTimer advances the clock to the earliest pending timer and fires it.
func (ex *Exec) fireTimer() bool {
	var best *timerObj
	live := ex.timers[:0]
	for _, t := range ex.timers {
		if !t.active {
			continue
		}
		live = append(live, t)
		if best == nil || t.when.Cmp(best.when) < 0 || t.when.Cmp(best.when) == 0 && t.seq < best.seq {
			best = t
		}
	}
	ex.timers = live
	if best == nil {
		return false
	}
	ex.timerFires++
	if ex.timerFires > 20000 {
		panic(pathEnd{kind: endBudget, msg: "too many timer firings"})
	}
	if best.when.Cmp(ex.nowConst()) > 0 {
		ex.clock = ex.ctx.BigConst(timeW, best.when)
	}
	if best.period != nil {
		best.when = new(big.Int).Add(best.when, best.period)
	} else {
		best.active = false
	}
	best.fire()
	if ex.explore && ex.timerDue() && ex.choose(2) == 1 { // Timers of the same moment may also expire together.
		return ex.fireTimer()
	}
	return true
}

func (ex *Exec) schedTrace() []int { return append([]int(nil), ex.sched...) }

// abort ends all goroutines of the path; called by the main goroutine's host.
func (ex *Exec) abort() {
	ex.aborted = true
	for _, g := range ex.gors {
		if g != ex.mainG && g.state != gDone {
			select {
			case g.resume <- struct{}{}:
			default:
			}
		}
	}
	ex.wg.Wait()
}

var _ sync.Mutex
