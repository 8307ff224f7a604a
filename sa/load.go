package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis.
type Prog struct {
	dir    string
	module string
	prog   *ssa.Program
	pkgs   []*packages.Package
	ssa    []*ssa.Package
	byPath map[string]*ssa.Package
	byName map[string]*packages.Package
	fset   *token.FileSet
	funcs  []*ssa.Function
	once   map[string][2]bool
}

func Load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")
	if os.Getenv("VERIF_GOFLAGS") != "" {
		env = append(env, "GOFLAGS="+os.Getenv("VERIF_GOFLAGS"))
	}
	// never touch go.mod/go.sum of the analysed module
	env = append(env, "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{}, byName: map[string]*packages.Package{}, fset: prog.Fset}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		if pkgs[i].Module != nil && pkgs[i].Module.Main {
			p.module = pkgs[i].Module.Path
		}
		p.ssa = append(p.ssa, sp)
		p.byPath[pkgs[i].PkgPath] = sp
		p.byName[pkgs[i].PkgPath] = pkgs[i]
	}
	if p.module == "" {
		return nil, fmt.Errorf("no main module in %s", dir)
	}
	return p, nil
}

// inRepo: package path belongs to the analysed module (library part).
func (p *Prog) inRepo(path string) bool {
	return path == p.module || strings.HasPrefix(path, p.module+"/")
}

func (p *Prog) isLib(path string) bool {
	return p.inRepo(path) && !strings.Contains(path, "/examples")
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.byPath[p.module]
	}
	return p.byPath[p.module+"/"+rel]
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Named type in a repo package.
func (p *Prog) Type(rel, name string) *types.Named {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Func resolves "Name" or "Type.Name" in package rel.
func (p *Prog) Func(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t := p.Type(rel, name[:i])
		if t == nil {
			return nil
		}
		return p.Method(t, name[i+1:])
	}
	return pk.Func(name)
}

func (p *Prog) Method(t *types.Named, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := p.prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				fo, ok := s.Obj().(*types.Func)
				if !ok {
					continue
				}
				if f := p.prog.FuncValue(fo); f != nil && f.Blocks != nil && len(s.Index()) == 1 {
					return f
				}
			}
		}
	}
	return nil
}

// Methods lists declared methods of t in source order.
func (p *Prog) Methods(t *types.Named, exportedOnly bool) []*ssa.Function {
	var r []*ssa.Function
	for i := 0; i < t.NumMethods(); i++ {
		m := t.Method(i)
		if exportedOnly && !m.Exported() {
			continue
		}
		if f := p.prog.FuncValue(m); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// Funcs lists every declared function, method and closure of library packages.
func (p *Prog) Funcs() []*ssa.Function {
	if p.funcs != nil {
		return append([]*ssa.Function(nil), p.funcs...)
	}
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Pkg == nil || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		if p.isLib(f.Pkg.Pkg.Path()) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	p.funcs = out
	return append([]*ssa.Function(nil), out...)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/mmadfox/go-gpsgen/", "")
	s = strings.ReplaceAll(s, "github.com/mmadfox/go-gpsgen", "gpsgen")
	return s
}
