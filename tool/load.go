package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program and its SSA form.
type Prog struct {
	repo    string
	fset    *token.FileSet
	pp      *packages.Package
	prog    *ssa.Program
	pkg     *ssa.Package
	funcs   []*ssa.Function // all functions with a body that belong to the package, including instances and closures
	files   []string
	module  string
	callers map[*ssa.Function][]ssa.CallInstruction
}

func loadProg(repo string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Tests: false, Env: env}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(ps))
	}
	p := ps[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("%v", p.Errors[0])
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	if pkgs[0] == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	pkgs[0].Build()
	r := &Prog{repo: repo, fset: prog.Fset, pp: p, prog: prog, pkg: pkgs[0]}
	if p.Module != nil {
		r.module = p.Module.Path
	}
	for _, f := range p.CompiledGoFiles {
		r.files = append(r.files, filepath.Base(f))
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if f.Package() != r.pkg && !(f.Origin() != nil && f.Origin().Package() == r.pkg) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		r.funcs = append(r.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && r.isOurs(g) {
						add(g)
					}
				}
			}
		}
	}
	for _, m := range r.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			t := m.Type()
			if types.IsInterface(t) {
				continue
			}
			if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					add(prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(r.funcs, func(i, j int) bool { return r.funcs[i].String() < r.funcs[j].String() })
	return r, nil
}

// isOurs says whether f's body is part of the package under analysis
func (p *Prog) isOurs(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	if g.Package() == p.pkg {
		return true
	}
	if g.Synthetic != "" && g.Object() != nil && g.Object().Pkg() == p.pkg.Pkg {
		return true
	}
	return false
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	po := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(po.Filename), po.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if v, ok := in.(ssa.Value); ok {
		if v.Pos().IsValid() {
			return v.Pos()
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return in.Parent().Pos()
}

func (p *Prog) fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(p.pkg.Pkg)
	return s
}

func (p *Prog) funcByName(name string) *ssa.Function {
	for _, f := range p.funcs {
		if p.fname(f) == name {
			return f
		}
	}
	return nil
}

// method finds the method of a named type of the package, nil if there is none
func (p *Prog) method(typ, name string) *ssa.Function {
	o := p.pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := p.prog.MethodSets.MethodSet(t)
		if s := ms.Lookup(p.pkg.Pkg, name); s != nil {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

func (p *Prog) namedType(name string) types.Type {
	o := p.pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if _, ok := o.(*types.TypeName); !ok {
		return nil
	}
	return o.Type()
}

func (p *Prog) syntaxFiles() []*ast.File { return p.pp.Syntax }

func calleeName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func isPtrTo(t types.Type, named types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), named)
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
