package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one z3 process in incremental mode.
type Solver struct {
	declared map[string]bool
	cmd       *exec.Cmd
	in        *bufio.Writer
	inPipe    io.WriteCloser
	out       *bufio.Reader
	ctx       *TermCtx
	epoch     int
	defs      int
	queries   int
	sat       int
	unsat     int
	unknown   int
	oneshot   int
	busy      time.Duration
	inPath    bool
	asserted  []*Term
	timeoutMs int
	errText   string
}

var z3Path = func() string {
	for _, p := range []string{"z3-new", "z3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}()

func newSolver(ctx *TermCtx) *Solver {
	s := &Solver{ctx: ctx, timeoutMs: 4000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.prelude()
}

var epochCounter int64

func (s *Solver) prelude() {
	s.epoch++
	s.defs = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeoutMs)
	s.declared = map[string]bool{}
	s.declareUFs()
}

func (s *Solver) declareUFs() {
	if len(s.declared) == len(s.ctx.ufs) {
		return
	}
	for n, a := range s.ctx.ufs {
		if !s.declared[n] {
			s.declared[n] = true
			fmt.Fprintf(s.in, "(declare-fun %s ((_ BitVec %d)) (_ BitVec %d))\n", n, a[0], a[1])
		}
	}
}

func (s *Solver) close() {
	s.inPipe.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
}

func (s *Solver) beginPath() {
	if s.inPath {
		s.in.WriteString("(pop 1)\n")
	}
	if s.ctx.nextID > 400000 {
		// Handled by the worker, which replaces the term context.
	}
	if s.defs > 30000 {
		s.in.WriteString("(reset)\n")
		s.prelude()
	}
	s.in.WriteString("(push 1)\n")
	s.inPath = true
	s.asserted = s.asserted[:0]
}

func (s *Solver) emit(t *Term) {
	s.declareUFs()
	var sb strings.Builder
	before := s.defs
	emit(&sb, t, s.epoch)
	s.defs = before + strings.Count(sb.String(), "\n")
	s.in.WriteString(sb.String())
}

func (s *Solver) assert(t *Term) {
	if t == s.ctx.T {
		return
	}
	s.emit(t)
	fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	s.asserted = append(s.asserted, t)
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(pathEnd{kind: endSolver, msg: "solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

// check decides the current assertions together with the extra ones, returning a model if wanted and sat.
func (s *Solver) check(extra []*Term, wantModel bool) (Result, Model) {
	t0 := time.Now()
	defer func() { s.busy += time.Since(t0) }()
	s.queries++
	for _, t := range extra {
		if t == s.ctx.F {
			s.unsat++
			return Unsat, nil
		}
		s.emit(t)
	}
	s.in.WriteString("(push 1)\n")
	for _, t := range extra {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	l := s.readLine()
	for strings.HasPrefix(l, "(error") {
		if s.errText == "" {
			s.errText = l
		}
		l = s.readLine()
	}
	var m Model
	res := Unknown
	switch l {
	case "sat":
		res = Sat
		s.sat++
		if wantModel {
			m = s.getModel(extra)
		}
	case "unsat":
		res = Unsat
		s.unsat++
	}
	s.in.WriteString("(pop 1)\n")
	if res == Unknown {
		res, m = s.oneShot(extra, wantModel)
		if res == Unknown {
			s.unknown++
		}
	}
	if s.errText != "" {
		msg := s.errText
		s.errText = ""
		panic(pathEnd{kind: endSolver, msg: "solver error: " + msg})
	}
	return res, m
}

func (s *Solver) modelVars(extra []*Term) []*Term {
	seen := map[*Term]bool{}
	var vs []*Term
	for _, t := range s.asserted {
		varsOf(t, seen, &vs)
	}
	for _, t := range extra {
		varsOf(t, seen, &vs)
	}
	return vs
}

func (s *Solver) getModel(extra []*Term) Model {
	vs := s.modelVars(extra)
	m := Model{}
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(v.name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	depth := 0
	var buf bytes.Buffer
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(pathEnd{kind: endSolver, msg: "solver died reading model"})
		}
		buf.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	parseModel(buf.String(), vs, m)
	return m
}

func parseModel(txt string, vs []*Term, m Model) {
	byName := make(map[string]*Term, len(vs))
	for _, v := range vs {
		byName[v.name] = v
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); i += 2 {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		val := toks[i+1]
		b := new(big.Int)
		switch {
		case val == "true":
			b.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			b.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			b.SetString(val[2:], 2)
		default:
			continue
		}
		m[v] = b
	}
}

// oneShot retries a query in a fresh, non-incremental process with the bit-vector tactics.
func (s *Solver) oneShot(extra []*Term, wantModel bool) (Result, Model) {
	s.oneshot++
	var sb strings.Builder
	if len(s.ctx.ufs) == 0 {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	for n, a := range s.ctx.ufs {
		fmt.Fprintf(&sb, "(declare-fun %s ((_ BitVec %d)) (_ BitVec %d))\n", n, a[0], a[1])
	}
	all := append(append([]*Term{}, s.asserted...), extra...)
	ep := -int(time.Now().UnixNano()) // unique epoch
	saved := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if _, ok := saved[t]; ok {
			return
		}
		saved[t] = t.defined
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range all {
		walk(t)
	}
	for _, t := range all {
		emit(&sb, t, ep)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	for t, d := range saved {
		t.defined = d
	}
	sb.WriteString("(check-sat)\n")
	vs := s.modelVars(extra)
	if wantModel && len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString(v.name + " ")
		}
		sb.WriteString("))\n")
	}
	cmd := exec.Command(z3Path, "-in", "-smt2", "-T:20")
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	txt := string(out)
	if p := os.Getenv("GOSYM_DUMP"); p != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/q%d.smt2", p, time.Now().UnixNano()), []byte(sb.String()), 0o644)
	}
	switch {
	case strings.HasPrefix(txt, "sat"):
		s.sat++
		m := Model{}
		parseModel(strings.TrimPrefix(txt, "sat"), vs, m)
		return Sat, m
	case strings.HasPrefix(txt, "unsat"):
		s.unsat++
		return Unsat, nil
	}
	return Unknown, nil
}
