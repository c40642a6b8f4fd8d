package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mearaj/bips"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	pkgs []*packages.Package
	ssa  *ssa.Program
	by   map[string]*ssa.Package
	dir  string
	eff  *effects
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch {
		case len(e) > 5 && e[:5] == "PATH=",
			len(e) > 8 && e[:8] == "GOFLAGS=",
			len(e) > 7 && e[:7] == "GOROOT=":
		default:
			env = append(env, e)
		}
	}
	tool := "/opt/veriftools/go1.23.12/bin"
	return append(env, "PATH="+tool+":/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=1")
}

// Load type-checks the given package patterns of the repository as the real
// build does (same toolchain and flags) and builds their SSA form.
func Load(dir string, patterns ...string) (*Prog, error) {
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:  dir,
		Env:  goEnv(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages match %v", patterns)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	out := &Prog{pkgs: pkgs, ssa: prog, by: map[string]*ssa.Package{}, dir: dir}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		out.by[pkgs[i].PkgPath] = p
	}
	return out, nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	ps := p.ssa.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.dir+"/"), ps.Line)
}

// findFn finds a function by its short name: "bip32.NewMasterKey" or
// "(*bip32.Key).NewChildKey".
func findFn(p *Prog, name string) *ssa.Function {
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fnName(fn) == name {
			return fn
		}
	}
	return nil
}
