package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexeykiselev/waves-fork-detector"

// Program is the loaded program under analysis, shared by all workers.
type Program struct {
	fset               *token.FileSet
	prog               *ssa.Program
	runtimeErrorString types.Type
	runtimeError       *types.Interface
	mu                 sync.RWMutex
	methods            map[methKey]*ssa.Function
	impl               map[implKey]bool
	pkgs               map[string]*ssa.Package
	tpkgs              map[string]*types.Package
	built              sync.Map
	dropped            map[string]string // harness files that do not fit the current tree
	repoDir            string
}

type methKey struct {
	t    types.Type
	name string
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{
		"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GONOSUMDB": "*", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GO111MODULE": "on", "GOWORK": "off",
	}
	if os.Getenv("GOCACHE") == "" {
		if os.Getenv("HOME") == "" {
			set["HOME"] = "/root"
		}
	}
	out := []string{}
	for _, e := range env {
		k := e[:strings.Index(e, "=")]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

// loadProgram loads the given import paths of the repository with the overlay files added.
func loadProgram(repo string, paths []string, overlay map[string][]byte) (*Program, error) {
	p := &Program{
		repoDir: repo, methods: map[methKey]*ssa.Function{}, impl: map[implKey]bool{},
		pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, dropped: map[string]string{},
	}
	for attempt := 0; ; attempt++ {
		p.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Env: goEnv(), Fset: p.fset, Overlay: overlay,
		}
		pkgs, err := packages.Load(cfg, paths...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		fatal := ""
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if strings.HasPrefix(filepath.Base(f), "zz_vp_") && !strings.HasPrefix(filepath.Base(f), "zz_vp_api") {
					bad[f] = e.Error()
					continue
				}
				if fatal == "" && !strings.HasPrefix(pk.PkgPath, "runtime/") {
					fatal = e.Error()
				}
			}
		})
		if len(bad) > 0 && attempt < 6 {
			for f, e := range bad {
				p.dropped[filepath.Base(f)] = e
				delete(overlay, f)
			}
			continue
		}
		if fatal != "" {
			return nil, fmt.Errorf("loading: %s", fatal)
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		p.prog = prog
		break
	}
	for _, sp := range p.prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
		p.tpkgs[sp.Pkg.Path()] = sp.Pkg
	}
	if rt := p.tpkgs["runtime"]; rt != nil {
		if o := rt.Scope().Lookup("errorString"); o != nil {
			p.runtimeErrorString = o.Type()
		}
	}
	return p, nil
}

func (p *Program) isRepoPkg(pkg *ssa.Package) bool {
	return pkg != nil && pkg.Pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), modPath)
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	if !p.isRepoPkg(pk) {
		return false
	}
	pos := p.fset.Position(fn.Pos())
	return !strings.HasPrefix(filepath.Base(pos.Filename), "zz_vp_") && fn.Synthetic == ""
}

var buildMu sync.Mutex

func (p *Program) buildPkg(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	if _, ok := p.built.Load(pkg); ok {
		return
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	pkg.Build()
	p.built.Store(pkg, true)
}

func (p *Program) build(fn *ssa.Function) {
	p.buildPkg(pkgOf(fn))
	if len(fn.Blocks) == 0 && fn.Object() != nil {
		if o := fn.Object(); o.Pkg() != nil {
			p.buildPkg(p.prog.Package(o.Pkg()))
		}
	}
}

// method finds the implementation of an interface method (or any named method) for a dynamic type.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	return p.methodByName(t, m.Pkg(), m.Name())
}

func (p *Program) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	p.mu.RLock()
	f, ok := p.methods[k]
	p.mu.RUnlock()
	if ok {
		return f
	}
	buildMu.Lock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	buildMu.Unlock()
	p.mu.Lock()
	p.methods[k] = f
	p.mu.Unlock()
	return f
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	p.mu.RLock()
	r, ok := p.impl[k]
	p.mu.RUnlock()
	if ok {
		return r
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	r = types.Implements(t, i)
	p.impl[k] = r
	return r
}

// typ looks up a named type.
func (p *Program) typ(pkg, name string) types.Type {
	tp := p.tpkgs[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// fnOf looks up a package-level function.
func (p *Program) fnOf(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) harnessNames(pkg string) []string {
	sp := p.pkgs[pkg]
	var r []string
	if sp == nil {
		return r
	}
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "VP_") {
			_ = f
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

var _ ast.Node
