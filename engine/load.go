package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlayFiles maps /repo/zz_verif/... to the harness sources under /verif.
func overlayFiles(repo, harness string, pkgs []string) map[string]string {
	r := map[string]string{}
	for _, p := range append([]string{"sym", "rt"}, pkgs...) {
		fs, _ := filepath.Glob(filepath.Join(harness, p, "*.go"))
		for _, f := range fs {
			r[filepath.Join(repo, "zz_verif", p, filepath.Base(f))] = f
		}
	}
	return r
}

func load(repo, harness string, pkgs []string) (*Prog, map[string]*ssa.Package, error) {
	ov := map[string][]byte{}
	for virt, real := range overlayFiles(repo, harness, allHarnessDirs(harness)) {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, nil, err
		}
		ov[virt] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./zz_verif/"+p)
	}
	pats = append(pats, "./zz_verif/rt", "fmt", "errors", "strconv", "sync", "strings", "io/fs")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{ssa: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	p.redirect = redirects
	p.hooks = mkHooks()
	p.tString = p.typ(types.Typ[types.String])
	p.tInt = p.typ(types.Typ[types.Int])
	p.tBool = p.typ(types.Typ[types.Bool])
	p.tByte = p.typ(types.Typ[types.Uint8])
	p.tError = p.typ(types.Universe.Lookup("error").Type())
	look := func(pkg, name string) types.Type {
		return p.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
	}
	p.pkgs[harnessPrefix+"rt"].Build()
	p.tRuntimeErr = p.typ(look(harnessPrefix+"rt", "RuntimeError"))
	p.tWrapErr = p.typ(types.NewPointer(look("fmt", "wrapError")))
	p.syncPool = p.typ(look("sync", "Pool"))
	p.tBuilder = p.typ(look("strings", "Builder"))
	out := map[string]*ssa.Package{}
	for _, n := range pkgs {
		pk := p.pkgs[harnessPrefix+n]
		if pk == nil {
			return nil, nil, fmt.Errorf("package %s not loaded", n)
		}
		pk.Build()
		p.built[pk] = true
		out[n] = pk
	}
	return p, out, nil
}

func allHarnessDirs(h string) []string {
	es, _ := os.ReadDir(h)
	var r []string
	for _, e := range es {
		if e.IsDir() && e.Name() != "sym" && e.Name() != "rt" {
			r = append(r, e.Name())
		}
	}
	return r
}
