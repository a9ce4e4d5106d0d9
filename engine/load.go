package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ndau/ndaumath"

// Program is the loaded and type-checked repository.
type Program struct {
	fset  *token.FileSet
	pkgs  map[string]*packages.Package // repository packages by path
	prog  *ssa.Program
	ssa   map[string]*ssa.Package
	funcs []*ssa.Function // all functions with bodies of the repository packages, sorted
	repo  string
	verif string
}

// loadProgram loads the given package patterns of the repository, from source, for one platform.
func loadProgram(repo, verif string, goos, goarch string, patterns ...string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "ndcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	base, err := os.ReadFile(filepath.Join(verif, "stubs/base.mod"))
	if err != nil {
		return nil, err
	}
	mod := string(base) + "\nreplace github.com/ericlagergren/decimal => " + filepath.Join(verif, "stubs/decimal") + "\n"
	sum, err := os.ReadFile(filepath.Join(verif, "stubs/base.sum"))
	if err != nil {
		return nil, err
	}
	write := func(name string, b []byte) string {
		p := filepath.Join(tmp, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		return p
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {
		filepath.Join(repo, "go.mod"): write("a.mod", []byte(mod)),
		filepath.Join(repo, "go.sum"): write("a.sum", sum),
	}})
	ovf := write("ov.json", ov)
	fset := token.NewFileSet()
	env := []string{}
	for _, kv := range os.Environ() {
		switch {
		case strings.HasPrefix(kv, "GOFLAGS="), strings.HasPrefix(kv, "GOOS="), strings.HasPrefix(kv, "GOARCH="), strings.HasPrefix(kv, "GOWORK="), strings.HasPrefix(kv, "CGO_ENABLED="):
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=", "GOOS="+goos, "GOARCH="+goarch, "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        env,
		Fset:       fset,
		BuildFlags: []string{"-mod=mod", "-overlay=" + ovf},
	}
	roots, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: fset, pkgs: map[string]*packages.Package{}, ssa: map[string]*ssa.Package{}, repo: repo, verif: verif}
	var errs []string
	packages.Visit(roots, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, modPath+"/") {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	p.prog = prog
	packages.Visit(roots, nil, func(q *packages.Package) {
		if readablePkgs[q.PkgPath] {
			if sp := prog.Package(q.Types); sp != nil {
				sp.Build()
			}
			return
		}
		if !strings.HasPrefix(q.PkgPath, modPath+"/") {
			return
		}
		sp := prog.Package(q.Types)
		if sp == nil {
			return
		}
		sp.Build()
		p.pkgs[q.PkgPath] = q
		p.ssa[q.PkgPath] = sp
	})
	if len(p.ssa) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, repo)
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.ssa {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	return p, nil
}

// fn finds a function or method, e.g. fn("pkg/address", "Validate") or fn("pkg/key", "(*ExtendedKey).Child").
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssa[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	i := strings.Index(name, ").")
	tn, mn := name[1:i], name[i+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	m, ok := sp.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = m.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(sp.Pkg, mn)
	if sel == nil {
		sel = ms.Lookup(nil, mn)
	}
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	r, err := filepath.Rel(p.repo, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	q := f.Pkg
	if q == nil && f.Origin() != nil {
		q = f.Origin().Pkg
	}
	if q == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath+"/")
		}
		if f.Parent() != nil {
			return inRepo(f.Parent())
		}
		return false
	}
	return strings.HasPrefix(q.Pkg.Path(), modPath+"/")
}
