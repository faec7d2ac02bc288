package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/akm/tparser"

// World is the resolved program of /repo's working tree.
type World struct {
	noPlace map[*types.Func]bool
	grammar *PC    // the analysis of the grammar rules, once made
	flow    *xFlow // what the parser's other fields hold between the rules
	Dir     string
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package // by import path
	Types   map[string]*types.Package
	Funcs   int
}

// Load type-checks /repo (non-test files) and builds SSA for its own packages.
func Load(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Dir: dir, Prog: prog, SSA: map[string]*ssa.Package{}, Types: map[string]*types.Package{}}
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "asttest") || strings.Contains(p.PkgPath, "parsertest") || strings.Contains(p.PkgPath, "testlog") {
			continue
		}
		w.Pkgs = append(w.Pkgs, p)
		if sp := prog.Package(p.Types); sp != nil {
			w.SSA[p.PkgPath] = sp
			w.Types[p.PkgPath] = p.Types
		}
	}
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	if len(w.Pkgs) < 6 {
		return nil, fmt.Errorf("only %d packages found in %s", len(w.Pkgs), dir)
	}
	return w, nil
}

func (w *World) pkg(short string) *ssa.Package {
	if short == "" {
		return w.SSA[modPath]
	}
	return w.SSA[modPath+"/"+short]
}

// lookupType finds a named type (through aliases) in a repo package.
func (w *World) lookupType(short, name string) types.Type {
	p := w.Types[modPath+"/"+short]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return types.Unalias(o.Type())
}

// method finds the SSA function of a method with pointer or value receiver.
func (w *World) method(short, typ, name string) *ssa.Function {
	t := w.lookupType(short, typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				return w.Prog.MethodValue(s)
			}
		}
	}
	return nil
}

func (w *World) fn(short, name string) *ssa.Function {
	p := w.pkg(short)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *World) pos(p interface{ Pos() tokenPos }) string { return w.posStr(p.Pos()) }

// repoFuncs lists all source functions (incl. methods and closures) of the repo packages.
func (w *World) repoFuncs() []*ssa.Function {
	all := ssautil.AllFunctions(w.Prog)
	var out []*ssa.Function
	for f := range all {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		p := fnPkg(f)
		if p == nil {
			continue
		}
		if _, ok := w.SSA[p.Pkg.Path()]; !ok {
			continue
		}
		if f.Blocks == nil {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return f.Prog.Package(o.Pkg())
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			continue
		}
		return nil
	}
	return nil
}
