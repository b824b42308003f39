package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var intrCache sync.Map

// Env describes where things are.
type Env struct {
	Repo    string // repository under test
	Verif   string
	Work    string            // scratch directory of this run
	Overlay map[string]string // virtual file -> real file
	ModFile string
}

func newEnv() *Env {
	e := &Env{Repo: envOr("VERIF_REPO", "/repo"), Verif: envOr("VERIF_DIR", "/verif")}
	w, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	e.Work = w
	e.Overlay = map[string]string{}
	hd := filepath.Join(e.Verif, "harness")
	filepath.Walk(hd, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(hd, p)
			e.Overlay[filepath.Join(e.Repo, "zz_verif", rel)] = p
		}
		return nil
	})
	e.ModFile = filepath.Join(w, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.Repo, f))
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(filepath.Join(w, f), b, 0o644); err != nil {
			fatal(err)
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": e.Overlay})
	os.WriteFile(e.overlayFile(), j, 0o644)
	return e
}

func (e *Env) overlayFile() string { return filepath.Join(e.Work, "overlay.json") }

func (e *Env) close() { os.RemoveAll(e.Work) }

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

// load builds the SSA of the repository together with the harness packages.
func (e *Env) load(pkgs ...string) (*Program, error) {
	ov := map[string][]byte{}
	for v, r := range e.Overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.Repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+e.ModFile, "GOSUMDB=off", "GOPROXY=off")}
	l, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(l, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(l, ssa.InstantiateGenerics)
	p := &Program{prog: prog, infos: map[*ssa.Function]*fnInfo{}, built: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), "gkr-mimc") {
			sp.Build()
			p.built[sp] = true
		}
	}
	return p, nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}
