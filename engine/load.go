package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of /repo, built from its current working tree.
type Program struct {
	Prog  *ssa.Program
	Pkgs  []*ssa.Package
	Funcs map[string]*ssa.Function // by short name: pkg.F, pkg.(*T).M, pkg.T.M
	Types map[string]types.Type    // pkg.T
}

func LoadRepo(dir string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: map[string][]byte{dir + "/pkg/govcmodel/model.go": []byte(modelSrc)},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{Prog: prog, Funcs: map[string]*ssa.Function{}, Types: map[string]types.Type{}}
	// exported types of the project's own libraries
	for _, p := range pkgs {
		for path, q := range p.Imports {
			if !strings.HasPrefix(path, "github.com/crunchypi/") || q.Types == nil {
				continue
			}
			for _, n := range q.Types.Scope().Names() {
				if tn, ok := q.Types.Scope().Lookup(n).(*types.TypeName); ok {
					k := q.Types.Name() + "." + n
					if pr.Types[k] == nil {
						pr.Types[k] = types.Unalias(tn.Type())
					}
				}
			}
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		pr.Pkgs = append(pr.Pkgs, p)
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				pr.Funcs[p.Pkg.Name()+"."+n] = m
			case *ssa.Type:
				pr.Types[p.Pkg.Name()+"."+n] = m.Type()
				T := m.Type()
				if types.IsInterface(T) {
					continue
				}
				for _, R := range []types.Type{T, types.NewPointer(T)} {
					ms := types.NewMethodSet(R)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn == nil || fn.Synthetic != "" || fn.Pkg != p {
							continue
						}
						pr.Funcs[FuncName(fn)] = fn
					}
				}
			}
		}
	}
	return pr, nil
}

// FuncName is the short name used in specs.
func FuncName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return FuncName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name() + "."
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pk + "(*" + baseName(p.Elem()) + ")." + fn.Name()
		}
		return pk + baseName(t) + "." + fn.Name()
	}
	return pk + fn.Name()
}

func baseName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		p = fn.Object().Pkg()
	}
	return p != nil && (strings.HasPrefix(p.Path(), "trypo/") || p.Path() == "trypo")
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name()
	}
	return ""
}

// modelSrc: executable models of "consumes the generator", added to the
// program by overlay; they are symbolically executed like repository code.
const modelSrc = `package govcmodel

func Nondet() bool { return false }

func Exhaust(gen func() ([]float64, bool)) ([][]float64, bool) {
	seq := make([][]float64, 0)
	for {
		v, more := gen()
		if !more {
			return seq, true
		}
		seq = append(seq, v)
	}
}

func ExhaustOrStop(gen func() ([]float64, bool)) ([][]float64, bool) {
	seq := make([][]float64, 0)
	for {
		if Nondet() {
			return seq, false
		}
		v, more := gen()
		if !more {
			return seq, true
		}
		seq = append(seq, v)
	}
}
`
