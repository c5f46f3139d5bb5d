package main

// Loading /repo's current source, without touching its go.mod.

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	types *types.Package
	pp    *packages.Package
	repo  string
}

func loadRepo(repo string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "tcpxverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	modf := filepath.Join(tmp, "x.mod")
	os.WriteFile(modf, mod, 0644)
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(tmp, "x.sum"), sum, 0644)
	}
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if !strings.Contains(string(mod), "BurntSushi/toml v0.3.1") {
		c := exec.Command("go", "mod", "edit", "-require=github.com/BurntSushi/toml@v0.3.1", modf)
		c.Env = env
		c.Dir = tmp
		if out, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("go mod edit: %v: %s", err, out)
		}
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  append(env, "GOFLAGS=-mod=mod -modfile="+modf),
	}
	pk, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pk) != 1 {
		return nil, fmt.Errorf("%d packages", len(pk))
	}
	if len(pk[0].Errors) > 0 {
		return nil, fmt.Errorf("the package does not type-check: %v", pk[0].Errors[0])
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	if ps[0] == nil {
		return nil, fmt.Errorf("no SSA for the package")
	}
	if ps[0].Pkg.Path() != rootPath {
		return nil, fmt.Errorf("unexpected package %s", ps[0].Pkg.Path())
	}
	return &Program{prog: prog, pkg: ps[0], types: ps[0].Pkg, pp: pk[0], repo: repo}, nil
}

// Func finds a package function or, for "Type.Name", a method.
func (p *Program) Func(name string) *ssa.Function {
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := p.types.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := types.NewMethodSet(t)
			if sel := ms.Lookup(p.types, name[i+1:]); sel != nil {
				f := p.prog.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	f, _ := p.pkg.Members[name].(*ssa.Function)
	return f
}

// Named returns a named type of the package.
func (p *Program) Named(name string) *types.Named {
	tn, ok := p.types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// AllFuncs lists every function of the package (methods and closures included), in a fixed order.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		q := f
		for q.Parent() != nil {
			q = q.Parent()
		}
		if q.Pkg == p.pkg && len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}
