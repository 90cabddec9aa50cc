package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func sortStrings(s []string) { sort.Strings(s) }

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path
	tpkgs map[string]*packages.Package
	// package-level functions and methods by canonical name
	funcs map[string]*ssa.Function
	// all named types of the target packages
	named []*types.Named
}

const modPath = "github.com/lestrrat-go/helium"

func shortPkg(path string) string {
	if path == modPath {
		return "helium"
	}
	if strings.HasPrefix(path, modPath+"/") {
		p := strings.TrimPrefix(path, modPath+"/")
		return p[strings.LastIndex(p, "/")+1:]
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: os.Environ(),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.Packages(initial, ssa.GlobalDebug|ssa.BuildSerially)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, funcs: map[string]*ssa.Function{}}
	for i, p := range pkgs {
		if p == nil {
			continue
		}
		P.pkgs[p.Pkg.Path()] = p
		P.tpkgs[p.Pkg.Path()] = initial[i]
		for _, name := range sortedKeys(p.Members) {
			switch m := p.Members[name].(type) {
			case *ssa.Function:
				P.funcs[funcName(m)] = m
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					P.named = append(P.named, n)
					for i := 0; i < n.NumMethods(); i++ {
						f := prog.FuncValue(n.Method(i))
						if f != nil {
							P.funcs[funcName(f)] = f
						}
					}
				}
			}
		}
	}
	return P, nil
}

// funcName is the canonical contract name of a function:
// pkg.Func, pkg.Type.Method (pointer or value receiver alike).
func funcName(f *ssa.Function) string {
	pkg := ""
	if f.Pkg != nil {
		pkg = shortPkg(f.Pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = shortPkg(f.Object().Pkg().Path())
	}
	if recv := f.Signature.Recv(); recv != nil {
		return typeShort(recv.Type()) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func objName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return typeShort(r.Type()) + "." + o.Name()
	}
	if o.Pkg() == nil {
		return o.Name()
	}
	return shortPkg(o.Pkg().Path()) + "." + o.Name()
}

func typeShort(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}
