package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/henderiw/idxtable"

// Repo is the loaded and SSA-built working tree.
type Repo struct {
	dir   string
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path relative to the module
	funcs int
	all   map[*ssa.Function]bool
	mutf  map[string]bool
	model bool // the radix tree is replaced by its model
}

func loadRepo(dir string, model bool) (*Repo, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOOS", "GOARCH":
			continue
		}
		env = append(env, kv)
	}
	env = append(env,
		"PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	cfg.Overlay = overlay(dir, model)
	ps, errs, err := loadPkgs(cfg)
	for i := 0; i < 6 && err == nil && len(errs) > 0 && dropBroken(cfg.Overlay, errs); i++ {
		for _, e := range errs {
			debugf("client: %s", e)
		}
		ps, errs, err = loadPkgs(cfg)
	}
	if err == nil && len(errs) > 0 {
		// perhaps only the clients do not fit: analyse without them
		cfg.Overlay = nil
		ps, errs, err = loadPkgs(cfg)
	}
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	r := &Repo{dir: dir, model: model, prog: prog, pkgs: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		sp.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(ps[i].PkgPath, modPath), "/")
		r.pkgs[rel] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if r.inRepo(fn) && len(fn.Blocks) > 0 && !r.isClient(fn) {
			r.funcs++
		}
	}
	return r, nil
}

func loadPkgs(cfg *packages.Config) ([]*packages.Package, []string, error) {
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	return ps, errs, nil
}

//go:embed clients
var clients embed.FS

func (r *Repo) isClient(fn *ssa.Function) bool {
	f := r.prog.Fset.Position(fn.Pos()).Filename
	return strings.HasSuffix(f, clientFile) || strings.HasSuffix(f, modelFile)
}

func (r *Repo) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func allFunctions(r *Repo) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(r.prog) {
		if r.inRepo(fn) && len(fn.Blocks) > 0 && !r.isClient(fn) {
			out[fn] = true
		}
	}
	return out
}
