package main

import (
	"errors"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gotitsa/ai"
)

// Program is the analysed code.
type Program struct {
	SSA    *ssa.Program
	Mod    string
	Repo   string
	Pkgs   []*ssa.Package
	ByPath map[string]*ssa.Package
	AllFns []*ssa.Function
	Files  []string
	Syntax []*packages.Package

	torrentInv *invariant
	named      []types.Type
	nullable   map[string]bool
}

func load(repo string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, errors.New(strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{SSA: prog, Repo: repo, ByPath: map[string]*ssa.Package{}, Syntax: ps}
	for _, x := range ps {
		if x.Module != nil && p.Mod == "" {
			p.Mod = x.Module.Path
		}
		for _, f := range x.GoFiles {
			p.Files = append(p.Files, strings.TrimPrefix(f, repo+"/"))
		}
	}
	for _, x := range pkgs {
		if x != nil {
			p.Pkgs = append(p.Pkgs, x)
			p.ByPath[strings.TrimPrefix(strings.TrimPrefix(x.Pkg.Path(), p.Mod), "/")] = x
		}
	}
	sort.Strings(p.Files)
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil {
			continue
		}
		if p.inModule(f) {
			p.AllFns = append(p.AllFns, f)
		}
	}
	sort.Slice(p.AllFns, func(i, j int) bool {
		a, b := p.AllFns[i], p.AllFns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.findNullable()
	return p, nil
}

func (p *Program) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), p.Mod)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Mod)
	}
	return false
}

// Engine makes a fresh interpreter.
func (p *Program) Engine() *ai.Engine {
	e := ai.NewEngine(p.SSA, p.Mod, p.Pkgs)
	e.AllFns = p.AllFns
	return e
}

// Func finds "pkg/peer.Name" or "pkg/peer.Type.Method".
func (p *Program) Func(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	if j < 0 {
		return nil
	}
	path, rest := name[:i+1+j], name[i+1+j+1:]
	pkg := p.ByPath[path]
	if pkg == nil {
		return nil
	}
	if k := strings.Index(rest, "."); k >= 0 {
		t := p.Named(path, rest[:k])
		if t == nil {
			return nil
		}
		for _, tt := range []types.Type{types.NewPointer(t), t} {
			ms := p.SSA.MethodSets.MethodSet(tt)
			for x := 0; x < ms.Len(); x++ {
				if ms.At(x).Obj().Name() == rest[k+1:] {
					fn := p.SSA.MethodValue(ms.At(x))
					// prefer the declared method over the pointer wrapper
					if fn != nil && fn.Synthetic != "" {
						if o, ok := ms.At(x).Obj().(*types.Func); ok {
							if d := p.SSA.FuncValue(o); d != nil {
								return d
							}
						}
					}
					return fn
				}
			}
		}
		return nil
	}
	return pkg.Func(rest)
}

// Named finds a type of a package.
func (p *Program) Named(path, name string) types.Type {
	pkg := p.ByPath[path]
	if pkg == nil || pkg.Type(name) == nil {
		return nil
	}
	return pkg.Type(name).Type()
}

// Const finds an integer constant of a package.
func (p *Program) Const(path, name string) (int64, bool) {
	pkg := p.ByPath[path]
	if pkg == nil {
		return 0, false
	}
	return ai.ConstVal(pkg.Pkg, name)
}

// Std finds a package the program imports.
func (p *Program) Std(path string) *ssa.Package { return p.SSA.ImportedPackage(path) }

func (p *Program) rel(file string) string { return strings.TrimPrefix(file, p.Repo+"/") }

func must[T any](v T, ok bool, what string) T {
	if !ok {
		panic(missing(what))
	}
	return v
}

// missing is raised when something a check is anchored at is gone.
type missing string

func (m missing) Error() string { return "not found: " + string(m) }

var _ = fmt.Sprint
