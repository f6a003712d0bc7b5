package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter with terms: functions that are primitive for a property aren't entered but give a term that
// says what was made from what, predicates on terms are split into true and false, and what happens is logged.

type termModel struct {
	ai    *aInterp
	p     *Prog
	memo  map[*ssa.Function]string
	asked map[*ssa.Function]bool
	extra func(st *aState, fn *ssa.Function, name string, args []av, in ssa.CallInstruction) (av, bool)
}

type pubNote struct{ closed bool }

func newTermModel(p *Prog) *termModel {
	tm := &termModel{ai: newInterp(p), p: p, memo: map[*ssa.Function]string{}}
	tm.ai.initGlobals()
	tm.ai.ext = tm.call
	return tm
}

func (tm *termModel) sym(tag string) aOpaque {
	tm.ai.next++
	return aOpaque{id: tm.ai.next, tag: "sym " + tag}
}

func (tm *termModel) term(tag string, args ...av) aOpaque {
	tm.ai.next++
	return aOpaque{id: tm.ai.next, tag: tag, args: args}
}

func isPtrToNamed(t types.Type, n string) bool {
	pt, ok := types.Unalias(t).(*types.Pointer)
	return ok && namedName(pt.Elem()) == n
}

func isAutomaton(t types.Type) bool {
	return isPtrToNamed(t, "faState") || isPtrToNamed(t, "smallTable") || namedName(t) == "smallTable" || namedName(t) == "faState"
}

func params(f *ssa.Function) []types.Type {
	var out []types.Type
	for _, p := range f.Params {
		out = append(out, p.Type())
	}
	return out
}

func results(f *ssa.Function) []types.Type {
	var out []types.Type
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

func countTypes(ts []types.Type, f func(types.Type) bool) int {
	n := 0
	for _, t := range ts {
		if f(t) {
			n++
		}
	}
	return n
}

// reaches says if f or a function of the package that it calls has an instruction for which is holds
func (p *Prog) reachesInstr(f *ssa.Function, stop func(*ssa.Function) bool, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !p.isOurs(g) || stop != nil && g != f && stop(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func fieldOf(in ssa.Instruction) (string, string) {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		st := deref(in.X.Type())
		return namedName(st), st.Underlying().(*types.Struct).Field(in.Field).Name()
	case *ssa.Field:
		st := in.X.Type()
		return namedName(st), st.Underlying().(*types.Struct).Field(in.Field).Name()
	}
	return "", ""
}

// role finds out what part a function of the package plays in building automata
func (tm *termModel) role(f *ssa.Function) string {
	if r, ok := tm.memo[f]; ok {
		return r
	}
	tm.memo[f] = ""
	r := tm.role1(f)
	tm.memo[f] = r
	return r
}

func (tm *termModel) role1(f *ssa.Function) string {
	p := tm.p
	ps, rs := params(f), results(f)
	auto := countTypes(ps, isAutomaton)
	autoRes := countTypes(rs, isAutomaton)
	fms := countTypes(rs, func(t types.Type) bool { return isPtrToNamed(t, "fieldMatcher") })
	touches := func(typ, field string) bool {
		return p.reachesInstr(f, nil, func(in ssa.Instruction) bool { t, n := fieldOf(in); return t == typ && n == field })
	}
	switch {
	case f.Name() == "nfa2Dfa":
		return "dfa"
	case autoRes == 1 && fms == 0 && auto == 2 && len(rs) == 1 && !touches("vmFields", "start"):
		return "merge"
	case autoRes == 1 && fms == 1 && !touches("typedVal", "vType") && !touches("vmFields", "start"):
		return "builder"
	case autoRes == 0 && auto >= 1 && len(rs) == 0 && countTypes(ps, func(t types.Type) bool { return isPtrToNamed(t, "closureBuffers") }) == 1 && touches("faState", "epsilonClosure"):
		return "closure"
	case auto == 1 && len(rs) == 1 && isKind(rs[0], types.Bool) && touches("smallTable", "epsilons") && len(ps) == 1:
		return "isnondet"
	case auto >= 1 && countTypes(rs, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isPtrToNamed(s.Elem(), "fieldMatcher")
	}) == 1 && f.Signature.Recv() == nil:
		// a traversal
		if p.reachesInstr(f, nil, func(in ssa.Instruction) bool { t, n := fieldOf(in); return t == "faState" && n == "epsilonClosure" }) {
			return "traverse-nfa"
		}
		return "traverse-dfa"
	}
	return ""
}

// tableIx is the index of the table in a state
func (tm *termModel) tableIx() int {
	t := tm.p.namedType("faState").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if namedName(t.Field(i).Type()) == "smallTable" {
			return i
		}
	}
	tm.ai.undecided("a state has no table")
	return 0
}

// newState makes a state whose table is the term
func (tm *termModel) newAuto(st *aState, t types.Type, term av) av {
	switch {
	case namedName(t) == "smallTable":
		return term
	case isPtrToNamed(t, "smallTable"):
		return aPtr{cell: tm.ai.cell(st, term)}
	}
	z := tm.ai.zero(tm.p.namedType("faState")).(aAgg)
	f := append([]av(nil), z.f...)
	f[tm.tableIx()] = term
	if namedName(t) == "faState" {
		return aAgg{f}
	}
	return aPtr{cell: tm.ai.cell(st, aAgg{f})}
}

// autoTerm is the term of an automaton value
func (tm *termModel) autoTerm(st *aState, v av) av {
	if p, ok := v.(aPtr); ok {
		v = aGet(st.load(p.cell), p.path)
	}
	if a, ok := v.(aAgg); ok && len(a.f) > tm.tableIx() {
		v = a.f[tm.tableIx()]
	}
	return v
}

func (tm *termModel) call(ai *aInterp, st *aState, name string, args []av, in ssa.CallInstruction) (av, bool) {
	fn := ai.extFn
	if tm.extra != nil {
		if v, ok := tm.extra(st, fn, name, args, in); ok {
			return v, true
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.Pointer") {
		p, ok := args[0].(aPtr)
		if !ok {
			return nil, false
		}
		switch fn.Name() {
		case "Load":
			return aGet(st.load(p.cell), p.path), true
		case "Store", "Swap":
			old := aGet(st.load(p.cell), p.path)
			st.heap[p.cell] = aSet(st.load(p.cell), p.path, args[1])
			ev := aEvent{name: "publish", args: args, in: in}
			if q, ok := args[1].(aPtr); ok {
				ev.res = aGet(st.load(q.cell), q.path)
				note := pubNote{}
				if a, ok := ev.res.(aAgg); ok {
					if t, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok && namedName(t.Elem()) == "vmFields" {
						if i := fieldNamed(t.Elem(), "start"); i >= 0 {
							note.closed = tm.closed(st, a.f[i])
						}
					}
				}
				ev.note = note
			}
			st.log = append(st.log, ev)
			return old, true
		}
		ai.undecided("atomic operation %s", name)
	}
	if strings.HasPrefix(name, "(*sync.") && (strings.HasSuffix(name, "Lock") || strings.HasSuffix(name, "Unlock")) {
		return aNil{}, true
	}
	switch name {
	case "bytes.Equal":
		a, b := args[0], args[1]
		if _, ok := a.(aNil); ok {
			a, b = b, a
		}
		if _, ok := b.(aNil); ok {
			if _, ok := a.(aOpaque); ok {
				return false, true // the text of a value is never empty
			}
		}
		ka, kb := plainKey(a), plainKey(b)
		if ka == kb {
			return true, true
		}
		if ka > kb {
			ka, kb = kb, ka
		}
		return ai.pred(st, "bytes "+ka+"="+kb), true
	}
	if !tm.p.isOurs(fn) {
		return nil, false
	}
	switch r := tm.role(fn); r {
	case "builder":
		var ra, rf av
		t := tm.term("built", args...)
		t.wrap = []av{fn.Name()}
		out := aTuple{}
		for _, rt := range results(fn) {
			switch {
			case isAutomaton(rt):
				ra = tm.newAuto(st, rt, t)
				out.f = append(out.f, ra)
			case isPtrToNamed(rt, "fieldMatcher"):
				// the given one, if there is one
				for i, pt := range params(fn) {
					if isPtrToNamed(pt, "fieldMatcher") {
						if _, isNil := args[i].(aNil); !isNil {
							rf = args[i]
						}
					}
				}
				if rf == nil {
					rf = tm.term("next of", t)
				}
				out.f = append(out.f, rf)
			default:
				out.f = append(out.f, aUnk{"result of a builder"})
			}
		}
		st.log = append(st.log, aEvent{name: "built", args: args, res: rf, in: in, note: t})
		return out, true
	case "merge":
		var ts []av
		for i, pt := range params(fn) {
			if isAutomaton(pt) {
				if _, isNil := args[i].(aNil); isNil {
					return nil, false
				}
				ts = append(ts, tm.autoTerm(st, args[i]))
			}
		}
		return tm.newAuto(st, results(fn)[0], tm.term("merged", ts...)), true
	case "dfa":
		var t av
		var arg av
		for i, pt := range params(fn) {
			if isAutomaton(pt) {
				t, arg = tm.autoTerm(st, args[i]), args[i]
			}
		}
		r := tm.newAuto(st, results(fn)[0], tm.term("dfa", t))
		st.log = append(st.log, aEvent{name: "dfa", args: []av{arg}, res: r, in: in, note: tm.closed(st, arg)})
		return r, true
	case "closure":
		for i, pt := range params(fn) {
			if isAutomaton(pt) {
				st.log = append(st.log, aEvent{name: "closure", args: []av{args[i]}, in: in, note: tm.snapshot(st, args[i])})
			}
		}
		return aNil{}, true
	case "traverse-nfa", "traverse-dfa":
		for i, pt := range params(fn) {
			if isAutomaton(pt) {
				st.log = append(st.log, aEvent{name: r, args: append([]av{args[i]}, args...), in: in})
			}
		}
		return tm.term("traversed", args...), true
	case "isnondet":
		if tm.asked == nil {
			tm.asked = map[*ssa.Function]bool{}
		}
		tm.asked[fn] = true
		for i, pt := range params(fn) {
			if isAutomaton(pt) {
				t := tm.autoTerm(st, args[i])
				if _, ok := t.(aOpaque); ok {
					return ai.pred(st, "nondet "+termKey(t)), true
				}
			}
		}
		return aUnk{"nondeterminism"}, true
	}
	return nil, false
}

// snapshot is a key of the content of what v points at
func (tm *termModel) snapshot(st *aState, v av) string {
	p, ok := v.(aPtr)
	if !ok {
		return termKey(v)
	}
	return fmt.Sprint(p.cell, p.path, termKey(aGet(st.load(p.cell), p.path)))
}

// closed says if the closures of the automaton were computed after its last change
func (tm *termModel) closed(st *aState, v av) bool {
	now := tm.snapshot(st, v)
	for _, e := range st.log {
		if e.name == "closure" && e.note == now {
			return true
		}
	}
	return false
}

// subterms lists the terms a term was made from, itself included
func subterms(v av) []aOpaque {
	var out []aOpaque
	seen := map[int]bool{}
	var visit func(v av)
	visit = func(v av) {
		o, ok := v.(aOpaque)
		if !ok || seen[o.id] {
			return
		}
		seen[o.id] = true
		out = append(out, o)
		for _, a := range o.args {
			visit(a)
		}
	}
	visit(v)
	return out
}

// structValue makes a value of a struct type; f gives the fields that aren't zero
func (tm *termModel) structValue(t types.Type, f func(fl *types.Var, z av) av) aAgg {
	s := t.Underlying().(*types.Struct)
	out := make([]av, s.NumFields())
	for i := range out {
		out[i] = f(s.Field(i), tm.ai.zero(s.Field(i).Type()))
	}
	return aAgg{out}
}

func fieldIx(t types.Type, is func(*types.Var) bool) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i)) {
			return i
		}
	}
	return -1
}

func fieldNamed(t types.Type, n string) int {
	return fieldIx(t, func(v *types.Var) bool { return v.Name() == n })
}

// constsOf lists the constants of a named type in the package
func (p *Prog) constsOf(typ string) map[string]int64 {
	out := map[string]int64{}
	for n, m := range p.pkg.Members {
		if c, ok := m.(*ssa.NamedConst); ok && namedName(c.Type()) == typ {
			out[n] = c.Value.Int64()
		}
	}
	return out
}

func sortedNames(m map[string]int64) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return m[out[i]] < m[out[j]] })
	return out
}
