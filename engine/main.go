package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkSpec struct {
	Title       string     `json:"title"`
	Harnesses   []*Harness `json:"harnesses"`
	Assumptions []string   `json:"assumptions"`
	NoTimeNote  bool       `json:"-"`
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Where    string `json:"where"`
	What     string `json:"what"`
}

func main() {
	setGoEnv()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func readKnown(verif string) []known {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(strings.TrimPrefix(l, "finding: ")), &k) == nil && k.Property != "" {
			r = append(r, k)
		}
	}
	return r
}

func (k *known) matches(prop string, v *Violation) bool {
	return k.Property == prop && (k.Harness == "" || k.Harness == v.Harness) && (k.Kind == "" || k.Kind == v.Kind) &&
		strings.Contains(v.Msg, k.Msg) && strings.Contains(v.Where, k.Where)
}

func loadFor(repo, verif string, hs []*Harness) (*Program, error) {
	set := map[string]bool{}
	var pkgs []string
	for _, h := range hs {
		if !set[h.Pkg] {
			set[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	ov, err := engineOverlay(repo, verif, pkgs)
	if err != nil {
		return nil, err
	}
	return loadProgram(repo, pkgs, ov)
}

func fixPkgs(hs []*Harness) {
	for _, h := range hs {
		if h.Pkg == "." || h.Pkg == "main" {
			h.Pkg = modPath
		} else if !strings.HasPrefix(h.Pkg, modPath) {
			h.Pkg = modPath + "/" + h.Pkg
		}
	}
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework directory")
	tier := fs.String("tier", "", "quick or thorough")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	start := time.Now()
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	specs := map[string]*checkSpec{}
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	spec := specs[*prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		return 2
	}
	fixPkgs(spec.Harnesses)
	nat, err := newNative(*repo, *verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer nat.close()
	prog, err := loadFor(*repo, *verif, spec.Harnesses)
	if err != nil {
		fmt.Fprintln(os.Stderr, "the repository does not load:", err)
		return 2
	}
	loadT := time.Since(start)
	seen := map[string]bool{}
	for _, h := range spec.Harnesses {
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			go nat.build(h.Pkg, prog.dropped)
		}
	}
	knowns := readKnown(*verif)
	notes := []string{}
	for f, e := range prog.dropped {
		notes = append(notes, "harness file "+f+" does not fit this tree and was left out: "+e)
	}
	var confirmed, unconfirmed []*Violation
	knownHit := map[string]bool{}
	cov := map[string]any{}
	states, transitions, validated := 0, int64(0), 0
	queries, sat, unsat, unknown := 0, 0, 0, 0
	var solver time.Duration
	exhaustive := true
	funcs := map[string]bool{}
	var samples []any
	var perH []any
	asserts := int64(0)
	var replays []string
	os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
	for _, h := range spec.Harnesses {
		if h.Only != "" && h.Only != *tier {
			continue
		}
		params, secs := h.Quick, h.QuickS
		if *tier == "thorough" {
			if h.Thorough != nil {
				params = h.Thorough
			}
			secs = h.ThorS
			if secs == 0 {
				secs = 300
			}
		}
		if secs == 0 {
			secs = 40
		}
		r := newRun(prog, h, *tier, params, time.Duration(secs)*time.Second)
		r.explore(runtime.NumCPU(), seed)
		fmt.Print(r.summary())
		states += r.ended[endDone] + r.ended[endViolation]
		transitions += r.steps.v
		asserts += r.asserts.v
		queries += r.queries
		sat += r.sat
		unsat += r.unsat
		unknown += r.unknown
		solver += r.busy
		complete := r.complete()
		if !complete {
			exhaustive = false
		}
		for _, f := range r.funcNames() {
			funcs[f] = true
		}
		for _, v := range r.violations {
			ok, rc, out := nat.confirm(h, v, prog.dropped)
			v.Confirmed = ok
			v.ReplayOut = tail(out, 3000)
			if !ok {
				unconfirmed = append(unconfirmed, v)
				fmt.Printf("note: counterexample not reproduced natively: %s %s: %s @ %s\n", v.Harness, v.Kind, v.Msg, v.Where)
				if debugMode {
					fmt.Println(tail(out, 1500))
				}
				notes = append(notes, fmt.Sprintf("unconfirmed counterexample (not reported): %s %s: %s @ %s", v.Harness, v.Kind, v.Msg, v.Where))
				continue
			}
			isKnown := false
			for i := range knowns {
				if knowns[i].matches(*prop, v) {
					isKnown = true
					knownHit[knowns[i].What] = true
				}
			}
			if isKnown {
				continue
			}
			confirmed = append(confirmed, v)
			rc.Property = *prop
			path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d.json", *prop, len(confirmed)))
			js, _ := json.MarshalIndent(rc, "", " ")
			os.WriteFile(path, js, 0o644)
			replays = append(replays, path)
			fmt.Printf("violated: %s: %s @ %s\n", v.Kind, v.Msg, v.Where)
		}
		missing := []string{}
		if complete && len(r.violations) == 0 {
			for _, l := range h.Reach {
				if r.reached[l] == 0 {
					missing = append(missing, l)
				}
			}
		}
		if len(missing) > 0 {
			notes = append(notes, h.Name+": never reached: "+strings.Join(missing, ", "))
			fmt.Println("note:", h.Name, "never reached:", strings.Join(missing, ", "))
		}
		maxV := 2
		if *tier == "thorough" {
			maxV = 6
		}
		if len(confirmed) == 0 {
			for i, s := range r.samples {
				if i >= maxV {
					break
				}
				ok, why := nat.validate(h, s, prog.dropped)
				if ok {
					validated++
				} else {
					notes = append(notes, "sampled path of "+h.Name+" did not validate: "+tail(why, 600))
					fmt.Println("note: sampled path did not validate:", h.Name, tail(why, 600))
				}
				if len(samples) < 6 {
					samples = append(samples, map[string]any{"harness": s.Harness, "inputs": s.Values, "observed": s.Obs, "validated": ok})
				}
			}
		}
		perH = append(perH, map[string]any{"harness": h.Name, "package": h.Pkg, "params": params, "bounds": h.Bounds, "paths_completed": r.ended[endDone],
			"paths_infeasible": r.ended[endAssume], "paths_not_finished": r.ended[endBudget] + r.ended[endInconclusive] + r.ended[endSolver],
			"paths_not_encodable": r.ended[endUnsupported], "left_in_queue": r.truncated, "complete": complete, "reached": r.reached,
			"max_decisions": r.maxDepth, "wall_s": r.wall.Seconds(), "problems": r.unsup, "inconclusive": r.incon})
		if len(confirmed) > 0 {
			break
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no completed path carried observations"})
	}
	fl := make([]string, 0, len(funcs))
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, ""))
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = transitions
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["assertions_discharged"] = asserts
	cov["solver_queries"] = map[string]any{"total": queries, "sat": sat, "unsat": unsat, "unknown": unknown, "seconds": solver.Seconds()}
	cov["functions_encoded"] = fl
	cov["harnesses"] = perH
	cov["load_s"] = loadT.Seconds()
	cov["notes"] = notes
	cov["explanation"] = "states: symbolic paths run to their end; transitions: SSA instructions of the real code executed symbolically; every assertion was decided by the solver for all inputs of its path"
	assumptions := append([]string{
		"storage model: the key-value store is an ordered map with atomic durable writes; snapshots and iterators see the contents at creation",
		"logging has no effect; big integers are modelled with 192-bit two's complement; hashes of symbolic data are uninterpreted functions",
		"counterexamples are reported only after they reproduce in a native run of the same code",
	}, spec.Assumptions...)
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range knowns {
		if knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			knownHit[k.What] = false
		}
	}
	if len(confirmed) > 0 {
		for i := range confirmed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replays[i])
		}
		return 1
	}
	fmt.Printf("%s: held on everything explored (%d paths, %d assertions, %d queries, %.1fs)\n", *prop, states, asserts, queries, time.Since(start).Seconds())
	return 0
}

func (r *Run) complete() bool {
	return r.truncated == 0 && r.ended[endBudget] == 0 && r.ended[endUnsupported] == 0 && r.ended[endInconclusive] == 0 && r.ended[endSolver] == 0 &&
		len(r.incon) == 0 && len(r.unsup) == 0
}

func (r *Run) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %d paths (%d done, %d infeasible, %d not encodable, %d over budget, %d violating), %d left, %d assertions, %d queries (%d unknown), solver %.1fs, %d instructions, %.1fs\n",
		r.h.Name, r.paths, r.ended[endDone], r.ended[endAssume], r.ended[endUnsupported], r.ended[endBudget]+r.ended[endInconclusive]+r.ended[endSolver],
		r.ended[endViolation], r.truncated, r.asserts.v, r.queries, r.unknown, r.busy.Seconds(), r.steps.v, r.wall.Seconds())
	for _, k := range sortedKeys(r.unsup) {
		fmt.Fprintf(&sb, "  problem x%d: %s\n", r.unsup[k], tail(k, 700))
	}
	for _, k := range sortedKeys(r.incon) {
		fmt.Fprintf(&sb, "  inconclusive x%d: %s\n", r.incon[k], k)
	}
	return sb.String()
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "chains", "package")
	name := fs.String("harness", "", "harness")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework directory")
	ps := fs.String("p", "", "parameters")
	secs := fs.Int("t", 30, "seconds")
	workers := fs.Int("w", runtime.NumCPU(), "workers")
	syn := fs.Bool("synctest", false, "run natively under synctest")
	nat := fs.Bool("native", true, "confirm and validate natively")
	fs.Parse(args)
	params := map[string]int{}
	for _, kv := range strings.Split(*ps, ",") {
		if i := strings.Index(kv, "="); i > 0 {
			v, _ := strconv.Atoi(kv[i+1:])
			params[kv[:i]] = v
		}
	}
	var hs []*Harness
	for _, n := range strings.Split(*name, ",") {
		hs = append(hs, &Harness{Name: n, Pkg: *pkg, Synctest: *syn})
	}
	fixPkgs(hs)
	t0 := time.Now()
	prog, err := loadFor(*repo, *verif, hs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for f, e := range prog.dropped {
		fmt.Println("dropped:", f, e)
	}
	native, err := newNative(*repo, *verif)
	if err != nil {
		return 2
	}
	defer native.close()
	if *nat {
		go native.build(hs[0].Pkg, prog.dropped)
	}
	for _, h := range hs {
		r := newRun(prog, h, "quick", params, time.Duration(*secs)*time.Second)
		r.explore(*workers, 1)
		fmt.Print(r.summary())
		fmt.Println("  reached:", r.reached, "maxdepth", r.maxDepth)
		if debugMode {
			for w, n := range forkAt {
				fmt.Println("   fork", n, w)
			}
			for _, f := range r.funcNames() {
				fmt.Println("   fn", f)
			}
		}
		for _, v := range r.violations {
			fmt.Printf("  VIOL %s: %s\n    @ %s\n", v.Kind, v.Msg, v.Where)
			for _, n := range v.Values {
				fmt.Printf("    %s %s = %s\n", n.Kind, n.Name, n.Val)
			}
			if len(v.Sched) > 0 {
				fmt.Println("    sched", v.Sched)
			}
			if *nat {
				ok, _, out := native.confirm(h, v, prog.dropped)
				fmt.Println("    confirmed:", ok)
				if !ok {
					fmt.Println(tail(out, 2500))
				}
			}
		}
		if *nat {
			for i, s := range r.samples {
				if i >= 4 {
					break
				}
				ok, why := native.validate(h, s, prog.dropped)
				fmt.Println("  sample validated:", ok, tail(why, tailLen))
				if i == 0 || !ok {
					for _, n := range s.Values {
						fmt.Printf("    %s %s = %s\n", n.Kind, n.Name, n.Val)
					}
					fmt.Println("   ", strings.Join(s.Obs, " | "))
				}
			}
		}
	}
	return 0
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework directory")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym replay FILE")
		return 2
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rc replayCase
	if err := json.Unmarshal(b, &rc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n, err := newNative(*repo, *verif)
	if err != nil {
		return 2
	}
	defer n.close()
	bin := n.build(rc.Pkg, nil)
	if bin.err != nil {
		fmt.Fprintln(os.Stderr, bin.err)
		return 2
	}
	out := n.run(bin, &rc, 30*time.Second)
	fmt.Println(out)
	v := &Violation{Kind: rc.Kind, Msg: rc.Msg}
	if reproduces(v, out, rc.Stress > 0) {
		fmt.Println("reproduced:", rc.Kind, rc.Msg)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// setGoEnv selects the tool chain the repository is built with (go 1.26.10 here: see /opt/vp/env.sh).
func setGoEnv() {
	const root = "/opt/veriftools/go1.26.10"
	if _, err := os.Stat(filepath.Join(root, "bin/go")); err == nil {
		os.Setenv("GOROOT", root)
		os.Setenv("PATH", filepath.Join(root, "bin")+":"+os.Getenv("PATH"))
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GO111MODULE": "on", "GOSUMDB": "off", "CGO_ENABLED": "1"} {
		os.Setenv(k, v)
	}
}
