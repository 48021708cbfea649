package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// Native side: harnesses are compiled as ordinary tests of the package against the real dependencies, and driven by the
// concrete values of a counterexample or of a sampled path.

type Native struct {
	repo, verif string
	tmp         string
	mu          sync.Mutex
	bins        map[string]*nativeBin
	setup       sync.Once
	setupErr    error
	modfile     string
}

type nativeBin struct {
	once sync.Once
	path string
	err  error
	out  string
}

func newNative(repo, verif string) (*Native, error) {
	tmp, err := os.MkdirTemp("", "gosymnative")
	if err != nil {
		return nil, err
	}
	return &Native{repo: repo, verif: verif, tmp: tmp, bins: map[string]*nativeBin{}}, nil
}

func (n *Native) close() { os.RemoveAll(n.tmp) }

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func patch(file string, repl ...string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s := string(b)
	for i := 0; i+1 < len(repl); i += 2 {
		if !strings.Contains(s, repl[i]) {
			return fmt.Errorf("%s: %q not found", file, repl[i])
		}
		s = strings.Replace(s, repl[i], repl[i+1], 1)
	}
	return os.WriteFile(file, []byte(s), 0o644)
}

// prepare makes a module file that swaps in instrumented copies of two dependencies.
func (n *Native) prepare() error {
	n.setup.Do(func() {
		n.setupErr = func() error {
			list := exec.Command("go", "list", "-m", "-f", "{{.Path}} {{.Dir}}", "github.com/syndtr/goleveldb", "github.com/rhansen/go-kairos")
			list.Dir = n.repo
			list.Env = goEnv()
			out, err := list.Output()
			if err != nil {
				return fmt.Errorf("go list -m: %w", err)
			}
			dirs := map[string]string{}
			for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
				f := strings.Fields(l)
				if len(f) == 2 {
					dirs[f[0]] = f[1]
				}
			}
			ld := filepath.Join(n.tmp, "goleveldb")
			if err := copyTree(dirs["github.com/syndtr/goleveldb"], ld); err != nil {
				return err
			}
			rd := func(sig, zeroRet string) (string, string) {
				return sig + " {\n", sig + " {\n\tif VPHook != nil {\n\t\tif vpErr := VPHook(\"read\"); vpErr != nil {\n\t\t\t" + zeroRet + "\n\t\t}\n\t}\n"
			}
			g1, g2 := rd("func (db *DB) Get(key []byte, ro *opt.ReadOptions) (value []byte, err error)", "return nil, vpErr")
			h1, h2 := rd("func (db *DB) Has(key []byte, ro *opt.ReadOptions) (ret bool, err error)", "return false, vpErr")
			i1, i2 := rd("func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator", "return iterator.NewEmptyIterator(vpErr)")
			if err := patch(filepath.Join(ld, "leveldb/db.go"), g1, g2, h1, h2, i1, i2); err != nil {
				return err
			}
			g1, g2 = rd("func (snap *Snapshot) Get(key []byte, ro *opt.ReadOptions) (value []byte, err error)", "return nil, vpErr")
			h1, h2 = rd("func (snap *Snapshot) Has(key []byte, ro *opt.ReadOptions) (ret bool, err error)", "return false, vpErr")
			i1, i2 = rd("func (snap *Snapshot) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator", "return iterator.NewEmptyIterator(vpErr)")
			if err := patch(filepath.Join(ld, "leveldb/db_snapshot.go"), g1, g2, h1, h2, i1, i2); err != nil {
				return err
			}
			nx := "\tif !i.iter.Next() || (i.dir == dirBackward && !i.iter.Next()) {\n"
			if err := patch(filepath.Join(ld, "leveldb/db_iter.go"), nx, "\tif VPHook != nil && i.dir == dirForward {\n\t\tif vpErr := VPHook(\"read\"); vpErr != nil {\n\t\t\ti.setErr(vpErr)\n\t\t\treturn false\n\t\t}\n\t}\n"+nx); err != nil {
				return err
			}
			wrap := func(name, params, args, guard string) (string, string) {
				sig := "func (db *DB) " + name + "(" + params + ") error {\n"
				return sig, sig + "\tif VPHook != nil" + guard + " {\n\t\tif vpErr := VPHook(\"write\"); vpErr != nil {\n\t\t\treturn vpErr\n\t\t}\n\t\tvpErr := db.vp" + name + "(" + args + ")\n\t\tVPHook(\"written\")\n\t\treturn vpErr\n\t}\n\treturn db.vp" + name + "(" + args + ")\n}\n\nfunc (db *DB) vp" + name + "(" + params + ") error {\n"
			}
			if err := patch(filepath.Join(ld, "leveldb/db_state.go"), "	if db.isClosed() {\n		return ErrClosed\n	}\n	return nil\n", "	if db.isClosed() {\n		if VPHook != nil {\n			VPHook(\"closed\")\n		}\n		return ErrClosed\n	}\n	return nil\n"); err != nil {
				return err
			}
			w1, w2 := wrap("Write", "batch *Batch, wo *opt.WriteOptions", "batch, wo", " && batch != nil && batch.Len() > 0")
			p1, p2 := wrap("Put", "key, value []byte, wo *opt.WriteOptions", "key, value, wo", "")
			d1, d2 := wrap("Delete", "key []byte, wo *opt.WriteOptions", "key, wo", "")
			if err := patch(filepath.Join(ld, "leveldb/db_write.go"), w1, w2, p1, p2, d1, d2); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(ld, "leveldb/vphook.go"), []byte("package leveldb\n\n// VPHook is called around storage operations.\nvar VPHook func(op string) error\n"), 0o644); err != nil {
				return err
			}
			kd := filepath.Join(n.tmp, "kairos")
			if err := os.MkdirAll(filepath.Join(kd, "kairos"), 0o755); err != nil {
				return err
			}
			kb, err := os.ReadFile(filepath.Join(n.verif, "harness/lib/kairos.txt"))
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(kd, "kairos/kairos.go"), kb, 0o644); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(kd, "go.mod"), []byte("module github.com/rhansen/go-kairos\n\ngo 1.20\n"), 0o644); err != nil {
				return err
			}
			mod, err := os.ReadFile(filepath.Join(n.repo, "go.mod"))
			if err != nil {
				return err
			}
			sum, err := os.ReadFile(filepath.Join(n.repo, "go.sum"))
			if err != nil {
				return err
			}
			mod = append(mod, []byte(fmt.Sprintf("\nreplace github.com/syndtr/goleveldb => %s\n\nreplace github.com/rhansen/go-kairos => %s\n", ld, kd))...)
			n.modfile = filepath.Join(n.tmp, "vp.mod")
			if err := os.WriteFile(n.modfile, mod, 0o644); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(n.tmp, "vp.sum"), sum, 0o644)
		}()
	})
	return n.setupErr
}

var vpFuncRe = regexp.MustCompile(`(?m)^func (VP_\w+)\(\)`)

func pkgDir(pkg string) string {
	d := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	if d == "" {
		return "."
	}
	return d
}

func harnessDir(verif, pkg string) string {
	d := pkgDir(pkg)
	if d == "." {
		d = "main"
	}
	return filepath.Join(verif, "harness", d)
}

func pkgName(pkg string) string {
	d := pkgDir(pkg)
	if d == "." {
		return "main"
	}
	return filepath.Base(d)
}

// harnessFiles lists the harness sources of a package (base names).
func harnessFiles(verif, pkg string) []string {
	m, _ := filepath.Glob(filepath.Join(harnessDir(verif, pkg), "*.go"))
	return m
}

func engineOverlay(repo, verif string, pkgs []string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	api, err := os.ReadFile(filepath.Join(verif, "harness/lib/api_engine.txt"))
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		dir := filepath.Join(repo, pkgDir(p))
		if pkgDir(p) == "." {
			nb, err := os.ReadFile(filepath.Join(verif, "harness/lib/net_engine.txt"))
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(dir, "zz_vp_net.go")] = bytes.Replace(nb, []byte("package PKG"), []byte("package "+pkgName(p)), 1)
		}
		ov[filepath.Join(dir, "zz_vp_api.go")] = bytes.Replace(api, []byte("package PKG"), []byte("package "+pkgName(p)), 1)
		for _, f := range harnessFiles(verif, p) {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(dir, "zz_vp_"+filepath.Base(f))] = b
		}
	}
	return ov, nil
}

// build compiles the native harness binary of a package.
func (n *Native) build(pkg string, dropped map[string]string) *nativeBin {
	n.mu.Lock()
	b := n.bins[pkg]
	if b == nil {
		b = &nativeBin{}
		n.bins[pkg] = b
	}
	n.mu.Unlock()
	b.once.Do(func() {
		if b.err = n.prepare(); b.err != nil {
			return
		}
		dir := filepath.Join(n.repo, pkgDir(pkg))
		repl := map[string]string{}
		work := filepath.Join(n.tmp, "src-"+pkgName(pkg))
		if b.err = os.MkdirAll(work, 0o755); b.err != nil {
			return
		}
		api, err := os.ReadFile(filepath.Join(n.verif, "harness/lib/api_native.txt"))
		if err != nil {
			b.err = err
			return
		}
		reg := "package " + pkgName(pkg) + "\n\nvar vpHarnesses = map[string]func(){\n"
		for _, f := range harnessFiles(n.verif, pkg) {
			if _, bad := dropped["zz_vp_"+filepath.Base(f)]; bad {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				b.err = err
				return
			}
			for _, m := range vpFuncRe.FindAllStringSubmatch(string(src), -1) {
				reg += fmt.Sprintf("\t%q: %s,\n", m[1], m[1])
			}
			repl[filepath.Join(dir, "zz_vp_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
		}
		reg += "}\n"
		api = bytes.Replace(api, []byte("package PKG"), []byte("package "+pkgName(pkg)), 1)
		ap := filepath.Join(work, "api.go")
		rp := filepath.Join(work, "reg.go")
		if b.err = os.WriteFile(ap, api, 0o644); b.err != nil {
			return
		}
		if b.err = os.WriteFile(rp, []byte(reg), 0o644); b.err != nil {
			return
		}
		repl[filepath.Join(dir, "zz_vp_api_test.go")] = ap
		repl[filepath.Join(dir, "zz_vp_reg_test.go")] = rp
		if pkgDir(pkg) == "." {
			if b.err = n.netHooks(pkg, dir, work, repl); b.err != nil {
				return
			}
		}
		if b.err = n.schedHooks(work, repl); b.err != nil {
			return
		}
		// the package's own tests are left out: they may not fit a changed tree, and are not needed
		own, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
		for _, t := range own {
			repl[t] = ""
		}
		ov, _ := json.Marshal(map[string]any{"Replace": repl})
		op := filepath.Join(work, "overlay.json")
		if b.err = os.WriteFile(op, ov, 0o644); b.err != nil {
			return
		}
		b.path = filepath.Join(n.tmp, "bin-"+pkgName(pkg))
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-modfile", n.modfile, "-overlay", op, "-o", b.path, "./"+pkgDir(pkg))
		cmd.Dir = n.repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		b.out = string(out)
		if err != nil {
			b.err = fmt.Errorf("native build: %w: %s", err, tail(b.out, 1500))
		}
	})
	return b
}

var lockRe = regexp.MustCompile(`(?m)^([ \t]*)((?:\w+\.)+R?Lock\(\))[ \t]*$`)

// schedHooks swaps in copies of the repository's sources with a scheduling point before every lock, used to stress
// counterexamples of concurrent harnesses.
func (n *Native) schedHooks(work string, repl map[string]string) error {
	for _, d := range []string{".", "peers", "chains", "loading", "api"} {
		dir := filepath.Join(n.repo, d)
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		name := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			r := lockRe.ReplaceAll(b, []byte("${1}vpSchedPoint(); ${2}"))
			if bytes.Equal(r, b) {
				continue
			}
			name = pkgName(modPath + "/" + d)
			if d == "." {
				name = "main"
			}
			o := filepath.Join(work, "sched-"+name+"-"+filepath.Base(f))
			if err := os.WriteFile(o, r, 0o644); err != nil {
				return err
			}
			repl[f] = o
		}
		if name == "" {
			continue
		}
		o := filepath.Join(work, "sched-"+name+".go")
		src := "package " + name + "\n\nimport vpldb \"github.com/syndtr/goleveldb/leveldb\"\n\nfunc vpSchedPoint() {\n\tif vpldb.VPHook != nil {\n\t\t_ = vpldb.VPHook(\"sched\")\n\t}\n}\n"
		if err := os.WriteFile(o, []byte(src), 0o644); err != nil {
			return err
		}
		repl[filepath.Join(dir, "zz_vp_sched.go")] = o
	}
	return nil
}

// netHooks swaps in a copy of the network package's entry points that the harness can take over.
func (n *Native) netHooks(pkg, dir, work string, repl map[string]string) error {
	env := exec.Command("go", "env", "GOROOT")
	env.Dir = n.repo
	env.Env = goEnv()
	out, err := env.Output()
	if err != nil {
		return fmt.Errorf("go env: %w", err)
	}
	orig := filepath.Join(strings.TrimSpace(string(out)), "src/net/dial.go")
	b, err := os.ReadFile(orig)
	if err != nil {
		return err
	}
	dp := filepath.Join(work, "net_dial.go")
	if err := os.WriteFile(dp, b, 0o644); err != nil {
		return err
	}
	ls := "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
	ds := "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
	err = patch(dp,
		ls, "var VPListen func(ctx context.Context, network, address string) (Listener, error)\nvar VPDial func(ctx context.Context, network, address string) (Conn, error)\n\n"+ls+"\tif VPListen != nil {\n\t\treturn VPListen(ctx, network, address)\n\t}\n",
		ds, ds+"\tif VPDial != nil {\n\t\treturn VPDial(ctx, network, address)\n\t}\n")
	if err != nil {
		return err
	}
	repl[orig] = dp
	for _, h := range [][]string{
		{"net/http/server.go",
			"func (s *Server) ListenAndServe() error {\n", "var VPServe func(s *Server) error\nvar VPStop func(s *Server, ctx context.Context) error\n\nfunc (s *Server) ListenAndServe() error {\n\tif VPServe != nil {\n\t\treturn VPServe(s)\n\t}\n",
			"func (s *Server) Shutdown(ctx context.Context) error {\n", "func (s *Server) Shutdown(ctx context.Context) error {\n\tif VPStop != nil {\n\t\treturn VPStop(s, ctx)\n\t}\n"},
		{"os/signal/signal.go",
			"func NotifyContext(parent context.Context, signals ...os.Signal) (ctx context.Context, stop context.CancelFunc) {\n", "var VPNotify func(context.Context, []os.Signal) (context.Context, context.CancelFunc)\n\nfunc NotifyContext(parent context.Context, signals ...os.Signal) (ctx context.Context, stop context.CancelFunc) {\n\tif VPNotify != nil {\n\t\treturn VPNotify(parent, signals)\n\t}\n"},
	} {
		src := filepath.Join(strings.TrimSpace(string(out)), "src", h[0])
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		hp := filepath.Join(work, strings.ReplaceAll(h[0], "/", "_"))
		if err := os.WriteFile(hp, b, 0o644); err != nil {
			return err
		}
		if err := patch(hp, h[1:]...); err != nil {
			return err
		}
		repl[src] = hp
	}
	nb, err := os.ReadFile(filepath.Join(n.verif, "harness/lib/net_native.txt"))
	if err != nil {
		return err
	}
	np := filepath.Join(work, "net.go")
	if err := os.WriteFile(np, bytes.Replace(nb, []byte("package PKG"), []byte("package "+pkgName(pkg)), 1), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(dir, "zz_vp_net_test.go")] = np
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type replayCase struct {
	Property string         `json:"property,omitempty"`
	Harness  string         `json:"harness"`
	Pkg      string         `json:"pkg"`
	Params   map[string]int `json:"params"`
	Values   []nondet       `json:"values"`
	Sched    []int          `json:"sched,omitempty"`
	Synctest bool           `json:"synctest,omitempty"`
	Stress   int            `json:"stress,omitempty"`
	Kind     string         `json:"kind,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Where    string         `json:"where,omitempty"`
}

// run executes one case natively and returns its output.
func (n *Native) run(b *nativeBin, rc *replayCase, timeout time.Duration) string {
	f, err := os.CreateTemp(n.tmp, "case*.json")
	if err != nil {
		return "VP-ERROR " + err.Error()
	}
	js, _ := json.Marshal(rc)
	f.Write(js)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	dir, err := os.MkdirTemp(n.tmp, "run")
	if err != nil {
		return "VP-ERROR " + err.Error()
	}
	defer os.RemoveAll(dir)
	cmd := exec.CommandContext(ctx, b.path, "-test.run", "^TestVP$", "-test.timeout", timeout.String())
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VP_REPLAY="+f.Name(), "TMPDIR="+dir, "GODEBUG=asynctimerchan=0", "GOTRACEBACK=all", "GOMAXPROCS=4")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if ctx.Err() != nil {
		s += "\nVP-TIMEOUT\n"
	}
	return s
}

// reproduces tells whether the output shows the violation.
func reproduces(v *Violation, out string, stress bool) bool {
	if strings.Contains(out, "VP-MISMATCH") || strings.Contains(out, "VP-ASSUME-FAILED") {
		if v.Kind != "assert" || !strings.Contains(out, "VP-VIOLATION: "+v.Msg) {
			return false
		}
	}
	switch v.Kind {
	case "assert":
		return strings.Contains(out, "VP-VIOLATION: "+v.Msg)
	case "panic":
		if strings.Contains(out, "test timed out") {
			return false
		}
		if i := strings.LastIndex(out, "VP-DONE"); i >= 0 {
			out = out[i:]
			if strings.Contains(out, "deadlock: main bubble goroutine") {
				return false
			}
		}
		return strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")
	case "deadlock":
		if i := strings.LastIndex(out, "VP-DONE"); i >= 0 { // Of an earlier attempt.
			out = out[i:]
			if !stress || strings.Contains(out, "deadlock: main bubble goroutine") {
				return false
			}
		}
		return strings.Contains(out, "deadlock") || strings.Contains(out, "test timed out") || strings.Contains(out, "VP-TIMEOUT") || strings.Contains(out, "all goroutines are asleep")
	case "resource":
		return strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "out of memory")
	}
	return false
}

func (n *Native) confirm(h *Harness, v *Violation, dropped map[string]string) (bool, *replayCase, string) {
	rc := &replayCase{Harness: v.Harness, Pkg: h.Pkg, Params: v.Params, Values: v.Values, Sched: v.Sched, Synctest: h.Synctest, Kind: v.Kind, Msg: v.Msg, Where: v.Where}
	b := n.build(h.Pkg, dropped)
	if b.err != nil {
		return false, rc, b.err.Error()
	}
	attempts := h.Attempts
	if attempts == 0 {
		attempts = 3
	}
	if len(v.Sched) > 0 {
		rc.Stress = 400
		if attempts < 3 {
			attempts = 3
		}
	}
	var out string
	for i := 0; i < attempts; i++ {
		to := 15 * time.Second
		if rc.Stress > 0 {
			to = 30 * time.Second
		}
		out = n.run(b, rc, to)
		if reproduces(v, out, rc.Stress > 0) {
			return true, rc, out
		}
		if i == 0 && strings.Contains(out, "VP-ASSUME-FAILED") && attempts == 3 {
			break
		}
	}
	return false, rc, out
}

// validate runs a sampled path natively and compares the observations.
func (n *Native) validate(h *Harness, s *Sample, dropped map[string]string) (bool, string) {
	b := n.build(h.Pkg, dropped)
	if b.err != nil {
		return false, b.err.Error()
	}
	rc := &replayCase{Harness: s.Harness, Pkg: h.Pkg, Params: s.Params, Values: s.Values, Synctest: h.Synctest}
	out := n.run(b, rc, 15*time.Second)
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VP-OBS ") {
			got = append(got, strings.TrimPrefix(l, "VP-OBS "))
		}
	}
	want := strings.Join(s.Obs, "\n")
	have := strings.Join(got, "\n")
	if strings.Contains(out, "VP-VIOLATION") || strings.Contains(out, "VP-MISMATCH") || !strings.Contains(out, "VP-DONE") {
		return false, "native run: " + tail(out, tailLen)
	}
	if !obsEqual(s.Obs, got) {
		return false, "observations differ: engine " + want + " native " + have
	}
	return true, ""
}

func obsEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.Contains(a[i], "?") {
			return false
		}
	}
	return true
}

var tailLen = func() int {
	if debugMode {
		return 20000
	}
	return 800
}()
