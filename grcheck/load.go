package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mrasu/GravityR"

// Program is the type-checked program under analysis: every package of the
// root module (production code only) plus samber/lo, whose generic helpers the
// code uses everywhere, in SSA form.
type Program struct {
	Dir  string
	Pkgs []*packages.Package
	SSA  *ssa.Program
	// Funcs: every source function of the analysed production packages,
	// closures included (generic origins excluded, instances included).
	Funcs []*ssa.Function
	byPkg map[string]*packages.Package
}

// Test support code: packages only tests import.
func isSupportPkg(path string) bool {
	rel := strings.TrimPrefix(path, modPath)
	return strings.HasPrefix(rel, "/thelper") || strings.HasPrefix(rel, "/mocks")
}

func isRepoPkg(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !isSupportPkg(path)
}

func load(dir string) (*Program, error) {
	assets := filepath.Join(dir, "client", "dist", "assets")
	if ents, err := os.ReadDir(assets); err != nil || len(ents) == 0 {
		// main.go embeds client/dist/assets/*; git ignores that folder
		if err := os.MkdirAll(assets, 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(assets, ".dummy"), nil, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...", "github.com/samber/lo")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, byPkg: map[string]*packages.Package{}}
	for _, p := range pkgs {
		pr.byPkg[p.PkgPath] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Synthetic != "" && fn.Origin() == nil && fn.Parent() == nil && fn.Name() != "init" {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if p := pkgPathOf(fn); isRepoPkg(p) {
			pr.Funcs = append(pr.Funcs, fn)
		}
	}
	sortFuncs(pr)
	return pr, nil
}
