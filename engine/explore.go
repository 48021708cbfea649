package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one closed program over symbolic inputs that states properties as assertions.
type Harness struct {
	Name     string         `json:"harness"`
	Pkg      string         `json:"pkg"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	QuickS   int            `json:"quick_s"`
	Only     string         `json:"only"` // the only tier it runs in
	ThorS    int            `json:"thorough_s"`
	Reach    []string       `json:"reach"`
	Synctest bool           `json:"synctest"`
	Steps    int64          `json:"steps"`
	Attempts int            `json:"attempts"`
	NoSample bool           `json:"no_sample"`
	Bounds   string         `json:"bounds"`
}

var debugMode = os.Getenv("GOSYM_DEBUG") != ""

func (r *Run) expired() bool {
	return r.stopFlag.Load() || time.Now().After(r.deadlineAt())
}

func (r *Run) deadlineAt() time.Time {
	return time.Unix(0, r.deadlineNS.Load())
}

func newRun(p *Program, h *Harness, tier string, params map[string]int, budget time.Duration) *Run {
	r := &Run{prog: p, h: h, tier: tier, params: params, ended: map[endKind]int{}, unsup: map[string]int{}, incon: map[string]int{},
		vioKeys: map[string]bool{}, reached: map[string]int{}, funcs: map[*ssa.Function]bool{}, maxPaths: 5_000_000}
	r.cond = sync.NewCond(&r.mu)
	r.deadlineNS.Store(time.Now().Add(budget).UnixNano())
	r.queue = [][]Decision{nil}
	return r
}

// explore runs the harness over all paths with n workers.
func (r *Run) explore(n int, seed int64) {
	fn := r.prog.fnOf(r.h.Pkg, r.h.Name)
	if fn == nil {
		r.unsup["harness not available on this tree"]++
		return
	}
	r.start = time.Now()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{run: r, wild: i%2 == 1, rng: rand.New(rand.NewSource(seed*1000 + int64(i)))}
			w.reset()
			defer w.sol.close()
			w.loop(fn)
		}(i)
	}
	wg.Wait()
	r.wall = time.Since(r.start)
	if len(r.queue) > 0 || r.expired() && r.active > 0 {
		r.truncated += len(r.queue)
	}
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.flush()
		w.sol.close()
	}
	w.ctx = newTermCtx()
	w.sol = newSolver(w.ctx)
	w.sharedGlobals = map[*ssa.Global]*value{}
	w.sharedInited = map[*ssa.Package]bool{}
	w.uniq = map[string]*value{}
	w.objs = map[any]any{}
}

// flush adds the solver's counters to the run.
func (w *Worker) flush() {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	r.queries += w.sol.queries
	r.sat += w.sol.sat
	r.unsat += w.sol.unsat
	r.unknown += w.sol.unknown
	r.oneshot += w.sol.oneshot
	r.busy += w.sol.busy
}

func (w *Worker) loop(fn *ssa.Function) {
	r := w.run
	defer w.flush()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 && !r.expired() {
			r.cond.Wait()
		}
		if len(r.queue) == 0 || r.expired() || r.paths >= r.maxPaths {
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if n := len(r.queue); w.wild && n < 200_000 {
			i := w.rng.Intn(n)
			r.queue[i], r.queue[n-1] = r.queue[n-1], r.queue[i]
		}
		pre := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.paths++
		r.mu.Unlock()

		ex, end, msg := w.runPath(fn, pre)

		r.mu.Lock()
		r.active--
		r.queue = append(r.queue, ex.newWork...)
		r.ended[end]++
		if end == endUnsupported || end == endBudget || end == endInconclusive || end == endSolver {
			if len(r.unsup) < 50 {
				r.unsup[msg]++
			}
		}
		if len(ex.decisions) > r.maxDepth {
			r.maxDepth = len(ex.decisions)
		}
		for f := range ex.funcs {
			r.funcs[f] = true
		}
		if end == endDone || end == endViolation {
			for k := range ex.reached {
				r.reached[k]++
			}
		}
		for _, v := range ex.violations {
			r.addViolation(v)
		}
		if ex.sample != nil {
			r.nsample++
			if len(r.samples) < 6 {
				r.samples = append(r.samples, ex.sample)
			} else if k := w.rng.Intn(r.nsample); k < 6 {
				r.samples[k] = ex.sample
			}
		}
		r.steps.Add(ex.steps)
		r.cond.Broadcast()
		r.mu.Unlock()
		if len(w.ctx.tab) > 400_000 || end == endSolver {
			w.reset()
		}
	}
}

func (r *Run) addViolation(v *Violation) {
	top := v.Where
	if i := strings.Index(top, " <- "); i >= 0 {
		top = top[:i]
	}
	key := v.Kind + "|" + v.Msg + "|" + top
	if r.vioKeys[key] || len(r.violations) >= 12 {
		return
	}
	r.vioKeys[key] = true
	r.violations = append(r.violations, v)
	if len(r.violations) == 1 {
		// a few more seconds to find different violations, then stop
		d := time.Now().Add(4 * time.Second).UnixNano()
		if d < r.deadlineNS.Load() {
			r.deadlineNS.Store(d)
		}
	}
}

func (w *Worker) runPath(fn *ssa.Function, prefix []Decision) (ex *Exec, end endKind, msg string) {
	r := w.run
	ex = &Exec{w: w, ctx: w.ctx, sol: w.sol, h: r.h, param: r.params, prefix: prefix,
		lits: map[*Term]bool{}, reached: map[string]bool{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		done: make(chan any, 1), dbs: map[string]*dbFile{}, writeFaultAt: -1, readFaultAt: -1,
		objs: map[any]any{}, fs: map[string]bool{}, maxSteps: 30_000_000, funcs: map[*ssa.Function]bool{}}
	if r.h.Steps > 0 {
		ex.maxSteps = r.h.Steps
	}
	for k, v := range w.objs {
		ex.objs[k] = v
	}
	ex.decisions = make([]Decision, 0, len(prefix)+16)
	ex.clock = ex.initialClock()
	w.sol.beginPath()
	g := ex.newGor()
	g.name = "main"
	ex.mainG = g
	ex.cur = g
	defer func() {
		rec := recover()
		end, msg = ex.finish(rec)
		ex.abort()
	}()
	ex.callSSA(g, fn, nil, nil)
	return
}

// finish classifies the way a path ended.
func (ex *Exec) finish(rec any) (end endKind, msg string) {
	defer func() {
		if r2 := recover(); r2 != nil {
			if pe, ok := r2.(pathEnd); ok {
				end, msg = pe.kind, pe.msg
				return
			}
			end, msg = endUnsupported, fmt.Sprint("engine failure while finishing: ", r2)
			if debugMode {
				debug.PrintStack()
			}
		}
	}()
	viol := func(kind, text, trace string) {
		ex.ensureModel()
		ex.report(kind, text, ex.model)
		v := ex.violations[len(ex.violations)-1]
		if trace != "" {
			v.Where = trace
		}
	}
	switch x := rec.(type) {
	case nil:
		ex.takeSample()
		return endDone, ""
	case pathEnd:
		if x.kind == endUnsupported {
			return x.kind, x.msg + " @ " + ex.where()
		}
		return x.kind, x.msg
	case targetPanic:
		viol("panic", ex.panicText(x.v), x.trace)
		return endViolation, ""
	case fatalPanic:
		viol("panic", x.msg, x.trace)
		return endViolation, ""
	case deadlockPanic:
		viol("deadlock", "all goroutines are blocked", x.msg)
		return endViolation, ""
	case goexitPanic:
		return endDone, ""
	case crashPanic:
		return endUnsupported, "crash outside a crash region"
	case abortPanic:
		return endUnsupported, "aborted"
	}
	if debugMode {
		fmt.Fprintf(os.Stderr, "ENGINE: %v @ %s\n", rec, ex.where())
		var pcs [4096]uintptr
		_ = runtime.Callers(0, pcs[:])
	}
	return endUnsupported, fmt.Sprintf("engine: %v @ %s", rec, ex.where())
}

func (ex *Exec) takeSample() {
	if ex.h.NoSample {
		return
	}
	r := ex.w.run
	r.mu.Lock()
	n := r.nsample
	r.mu.Unlock()
	if n > 200 && ex.w.rng.Intn(20) != 0 {
		return
	}
	ex.ensureModel()
	ev := newEvaluator(ex.model)
	s := &Sample{Harness: ex.h.Name, Params: ex.param, Values: ex.nondetValues(ex.model), Sched: ex.schedTrace()}
	for _, o := range ex.obs {
		var p []string
		for _, v := range o.vals {
			p = append(p, renderObs(ev, v))
		}
		s.Obs = append(s.Obs, o.label+"="+strings.Join(p, ","))
	}
	ex.sample = s
}

func (r *Run) funcNames() []string {
	var out []string
	for f := range r.funcs {
		out = append(out, fnName(f))
	}
	sort.Strings(out)
	return out
}
