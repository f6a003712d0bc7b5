package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memAnalysis is the points-to analysis of a set of entry points, with the facts that the memory properties need
type memAnalysis struct {
	*pta
	roots []*inst
}

var memCache = map[string]*memAnalysis{}

// analyse runs the points-to analysis from package initialisation and the given entry points
func analyse(p *Prog, roots ...string) *memAnalysis {
	key := strings.Join(roots, ",")
	if m := memCache[key]; m != nil {
		return m
	}
	a := newPTA(p)
	if f := p.pkg.Func("init"); f != nil {
		a.addRoot("init", f)
	}
	a.finishInit()
	m := &memAnalysis{pta: a}
	for _, name := range roots {
		f := rootFunc(p, name)
		if f == nil {
			panic("entry point " + name + " not found")
		}
		i := a.addRoot(name, f)
		for k, pr := range f.Params {
			isRecv := k == 0 && f.Signature.Recv() != nil
			a.seedParam(i, pr, pr.Type(), name, isRecv)
		}
		m.roots = append(m.roots, i)
	}
	a.solve()
	memCache[key] = m
	return m
}

func rootFunc(p *Prog, name string) *ssa.Function {
	if t, mth, ok := strings.Cut(name, "."); ok {
		return p.method(t, mth)
	}
	return p.pkg.Func(name)
}

func (a *pta) seedParam(i *inst, v ssa.Value, t types.Type, root string, recv bool) {
	for _, lf := range a.leaves(t) {
		lt := t
		if lf != "" {
			lt = typeAt(t, lf)
		}
		if sl, ok := lt.Underlying().(*types.Slice); ok && !recv {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				a.add(a.val(i, v, lf), loc{a.event(v.Name(), lt), "[]"})
				continue
			}
		}
		for _, s := range a.seedsFor(lt, "argument "+v.Name()+" of "+root) {
			a.add(a.val(i, v, lf), s)
		}
	}
}

// each calls f for each instruction of each calling context, package initialisation excepted
func (m *memAnalysis) each(f func(i *inst, in ssa.Instruction)) {
	for _, i := range m.instList {
		if i.root.init {
			continue
		}
		for _, b := range i.fn.Blocks {
			if i.dead[b] {
				continue
			}
			for _, in := range b.Instrs {
				f(i, in)
			}
		}
	}
}

// classes of memory
type memClass int

const (
	clFresh     memClass = iota
	clImmutable          // reachable from what's published by an atomic pointer
	clShared             // reachable from a matcher, but not published: bookkeeping
	clPrivate            // working state of an instance
	clGlobal
	clEvent
	clResult
)

// typeClosure gives the named struct types of the package that can be reached from values of the given types; through
// says whether to go on through atomic pointers
func (p *Prog) typeClosure(a *pta, start []types.Type, skip map[string]bool) map[string]bool {
	seen := map[string]bool{}
	var visit func(t types.Type, depth int)
	visit = func(t types.Type, depth int) {
		if el, ok := isAtomicPointer(t); ok {
			visit(el, depth+1)
			return
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() != p.pkg.Pkg {
				return
			}
			name := types.TypeString(t, types.RelativeTo(p.pkg.Pkg))
			if skip[name] || seen[name] {
				return
			}
			seen[name] = true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), depth+1)
		case *types.Slice:
			visit(u.Elem(), depth+1)
		case *types.Array:
			visit(u.Elem(), depth+1)
		case *types.Map:
			visit(u.Key(), depth+1)
			visit(u.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type(), depth+1)
			}
		case *types.Interface:
			for _, it := range a.implementers(t) {
				visit(it, depth+1)
			}
		}
	}
	for _, t := range start {
		visit(t, 0)
	}
	return seen
}

// published finds the types that atomic pointers publish
func (p *Prog) publishedTypes() []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	sc := p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if t, ok := isAtomicPointer(st.Field(i).Type()); ok && !seen[t.String()] {
				seen[t.String()] = true
				out = append(out, t)
			}
		}
	}
	return out
}

type classifier struct {
	imm, shared map[string]bool
}

func (p *Prog) classifier(a *pta) *classifier {
	pub := p.publishedTypes()
	c := &classifier{imm: p.typeClosure(a, pub, nil)}
	var ms []types.Type
	if t := p.namedType("matcher"); t != nil {
		ms = append(ms, t)
	}
	for _, n := range []string{"coreMatcher", "prunerMatcher"} {
		if t := p.namedType(n); t != nil {
			ms = append(ms, t)
		}
	}
	c.shared = p.typeClosure(a, ms, c.imm)
	return c
}

// ownerType is the named type in an owner path such as "faState.table[]"
func ownerType(owner string) string {
	for k, r := range owner {
		if r == '.' || r == '[' || r == '{' || r == '*' && k > 0 {
			return owner[:k]
		}
	}
	return owner
}

func (c *classifier) class(a *pta, l loc) memClass {
	o := l.o
	switch o.kind {
	case kGlobal:
		return clGlobal
	case kEvent:
		return clEvent
	}
	if o.fixed {
		return clGlobal
	}
	if a.isFresh(o) {
		return clFresh
	}
	if strings.HasPrefix(o.owner, "global ") {
		return clGlobal
	}
	own := ownerType(a.ownerOf(o, l.path))
	switch {
	case c.imm[own]:
		return clImmutable
	case c.shared[own]:
		return clShared
	}
	return clPrivate
}

func (a *pta) where(i *inst, in ssa.Instruction) string { return a.p.pos(instrPos(in)) }

var _ = fmt.Sprint
var _ = sort.Strings
