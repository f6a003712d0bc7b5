package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C15"] = checkC15
	checkers["C26"] = checkC26
}

// The value matcher's addTransition, interpreted for each kind of value, each kind of previous content and each build mode,
// with the functions that build, merge, close and determinise automata as terms.

type addRun struct {
	kind   string
	kindV  int64
	shape  string
	mode   string
	old    aAgg // the fields before
	vm     aPtr
	val    av
	text   av
	st     *aState
	result av
	panics []string
}

func (r *addRun) name() string { return r.kind + " value, " + r.shape + ", " + r.mode }

// valueAdders finds the methods that add one pattern value to a value matcher
func (tm *termModel) isValueAdder(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && isPtrToNamed(f.Signature.Recv().Type(), "valueMatcher") &&
		countTypes(params(f), func(t types.Type) bool { return namedName(t) == "typedVal" || isPtrToNamed(t, "typedVal") }) == 1 &&
		countTypes(results(f), func(t types.Type) bool { return isPtrToNamed(t, "fieldMatcher") }) == 1
}

func (p *Prog) methodNamed(typ, name string) *ssa.Function { return p.method(typ, name) }

// argsFor makes arguments for fn: what given says for a parameter's type, else an unknown of the right kind
func (tm *termModel) argsFor(st *aState, fn *ssa.Function, given func(t types.Type) (av, bool)) []av {
	var out []av
	for _, t := range params(fn) {
		if v, ok := given(t); ok {
			out = append(out, v)
			continue
		}
		out = append(out, tm.defaultArg(st, t))
	}
	return out
}

func (tm *termModel) defaultArg(st *aState, t types.Type) av {
	switch {
	case namedName(t) == "printer":
		return tm.ai.global(st, "sharedNullPrinter")
	case isPtrToNamed(t, "closureBuffers"):
		return aPtr{cell: tm.ai.cell(st, tm.ai.zero(tm.p.namedType("closureBuffers")))}
	}
	return tm.sym(t.String())
}

func (tm *termModel) addRuns() []addRun {
	p, ai := tm.p, tm.ai
	fn := p.method("valueMatcher", "addTransition")
	if fn == nil || !tm.isValueAdder(fn) {
		ai.undecided("no method that adds a value to a value matcher")
	}
	vmT, vfT, tvT := p.namedType("valueMatcher"), p.namedType("vmFields"), p.namedType("typedVal")
	kinds := p.constsOf("valType")
	modes := p.constsOf("MatcherBuildMode")
	if len(kinds) == 0 || len(modes) == 0 || vmT == nil || vfT == nil || tvT == nil {
		ai.undecided("types of values or build modes not found")
	}
	var out []addRun
	for _, kind := range sortedNames(kinds) {
		if strings.HasPrefix(kind, "exists") {
			continue
		}
		for _, shape := range []string{"nothing before", "one string before", "deterministic before", "deterministic with numbers before", "nondeterministic before", "nondeterministic with numbers before"} {
			for _, mode := range sortedNames(modes) {
				st := ai.newState()
				st.base = ai.base
				old := tm.structValue(vfT, func(f *types.Var, z av) av {
					switch f.Name() {
					case "start":
						switch {
						case strings.HasPrefix(shape, "det"):
							return tm.newAuto(st, f.Type(), tm.term("old", int64(0)))
						case strings.HasPrefix(shape, "nondet"):
							return tm.newAuto(st, f.Type(), tm.term("old", int64(1)))
						}
					case "singletonMatch":
						if shape == "one string before" {
							return tm.sym("singleton")
						}
					case "singletonTransition":
						if shape == "one string before" {
							return tm.sym("singleton transition")
						}
					case "hasNumbers":
						return strings.Contains(shape, "numbers")
					case "isNondeterministic":
						return strings.HasPrefix(shape, "nondet")
					default:
						if _, ok := z.(aNil); !ok {
							return z
						}
						return tm.sym("other field " + f.Name())
					}
					return z
				})
				oldP := aPtr{cell: ai.cell(st, old)}
				if i := fieldNamed(vfT, "start"); i >= 0 && strings.HasPrefix(shape, "nondet") {
					st.log = append(st.log, aEvent{name: "closure", args: []av{old.f[i]}, note: tm.snapshot(st, old.f[i])})
				}
				vm := aPtr{cell: ai.cell(st, tm.structValue(vmT, func(f *types.Var, z av) av {
					if strings.Contains(f.Type().String(), "atomic.Pointer") {
						return oldP
					}
					return z
				}))}
				text := tm.sym("text")
				val := tm.structValue(tvT, func(f *types.Var, z av) av {
					switch {
					case namedName(f.Type()) == "valType":
						return kinds[kind]
					case isKind(f.Type(), types.String):
						return text
					}
					return tm.sym("value's " + f.Name())
				})
				args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
					switch {
					case isPtrToNamed(t, "valueMatcher"):
						return vm, true
					case namedName(t) == "typedVal":
						return val, true
					case isPtrToNamed(t, "typedVal"):
						return aPtr{cell: ai.cell(st, val)}, true
					case namedName(t) == "MatcherBuildMode":
						return modes[mode], true
					}
					return nil, false
				})
				np := len(ai.problem)
				outs := ai.run(st, fn, args)
				probs := append([]string(nil), ai.problem[np:]...)
				if len(outs) == 0 {
					out = append(out, addRun{kind: kind, kindV: kinds[kind], shape: shape, mode: mode, panics: append(probs, "no outcome")})
				}
				for _, o := range outs {
					r := addRun{kind: kind, kindV: kinds[kind], shape: shape, mode: mode, old: old, vm: vm, val: val, text: text, st: o, panics: probs}
					if len(o.result) > 0 {
						r.result = o.result[0]
					}
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// canBeNondet says if a builder makes states with epsilons (other than in merging, or by copying those of another state)
func (tm *termModel) canBeNondet(f *ssa.Function) (bool, string) {
	where := ""
	r := tm.p.reachesInstr(f, func(g *ssa.Function) bool { return tm.role(g) == "merge" || tm.role(g) == "dfa" }, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t, n := fieldOf(fa)
		if t != "smallTable" || n != "epsilons" {
			return false
		}
		if c, ok := s.Val.(*ssa.Const); ok && c.Value == nil {
			return false
		}
		if tm.copiesEpsilons(s.Val) {
			return false
		}
		where = tm.p.pos(instrPos(in))
		return true
	})
	return r, where
}

// copiesEpsilons says if a slice is the epsilons of another state, or made to have as many elements as those
func (tm *termModel) copiesEpsilons(v ssa.Value) bool {
	isEps := func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if in, ok := v.(ssa.Instruction); ok {
			t, n := fieldOf(in)
			return t == "smallTable" && n == "epsilons"
		}
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp, *ssa.Field:
		return isEps(v)
	case *ssa.MakeSlice:
		for _, l := range []ssa.Value{v.Len, v.Cap} {
			if c, ok := l.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && isEps(c.Call.Args[0]) {
					return true
				}
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && (calleeName(f) == "slices.Clone" || strings.HasPrefix(calleeName(f), "slices.Clone[")) {
			return isEps(v.Call.Args[0])
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			c, ok := v.Call.Args[0].(*ssa.Const)
			return ok && c.Value == nil && isEps(v.Call.Args[1])
		}
	}
	return false
}

// deterministic says if a term is known to have no epsilons in a state, else which part of it isn't
func (tm *termModel) deterministic(st *aState, v av, nondet map[string]bool) (bool, string) {
	switch t := v.(type) {
	case aOpaque:
		if id, ok := tm.ai.preds["nondet "+termKey(t)]; ok {
			if d, ok := st.dom[id]; ok {
				if x, ok := d.single(); ok && x == 0 {
					return true, ""
				}
			}
		}
		switch t.tag {
		case "dfa":
			return true, ""
		case "merged":
			for _, a := range t.args {
				if ok, why := tm.deterministic(st, a, nondet); !ok {
					return false, why
				}
			}
			return true, ""
		case "old":
			return t.args[0] == int64(0), "the automaton that was there before has epsilons"
		case "built":
			n := fmt.Sprint(t.wrap[0])
			return !nondet[n], "the automaton from " + n + " can have epsilons"
		}
	case aAgg:
		return true, "" // an empty table
	}
	return false, "an automaton of unknown origin"
}

func (tm *termModel) builders() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range tm.p.funcs {
		if tm.role(f) == "builder" {
			out[f.Name()] = f
		}
	}
	return out
}

// publishedFields are the contents of the value matcher that a run published, in order
func (tm *termModel) publishedFields(r *addRun) []aAgg {
	var out []aAgg
	for _, e := range r.st.log {
		if e.name != "publish" {
			continue
		}
		if p, ok := e.args[0].(aPtr); !ok || p.cell != r.vm.cell {
			continue
		}
		a, ok := e.res.(aAgg)
		if ok {
			out = append(out, a)
		}
	}
	return out
}

func checkC15(p *Prog, r *Report) {
	r.rule = "each value automaton that is published is either marked nondeterministic, with its closures computed after its last change, or shown to be deterministic; and it is traversed as it is marked"
	r.explain = "Abstract interpretation of the value matcher's addTransition for each kind of value, each previous content and each build mode, with builders, merges, closures and determinisation as terms; then of transitionOn for each marking. isNondeterministic, the closure and the determinisation are checked by themselves."
	r.notCovered = "Within one closure run, that each state's closure is the right set is checked on small automata only."
	r.assume = append(r.assume, "the result of nfa2Dfa has no epsilons (its states are made from unpacked tables, checked as C26)", "a merge of two automata without epsilons has none")
	tm := newTermModel(p)
	nondet := map[string]bool{}
	for n, f := range tm.builders() {
		b, where := tm.canBeNondet(f)
		nondet[n] = b
		why := "makes no epsilons"
		if b {
			why = "makes epsilons at " + where
		}
		r.pass("builder", n, p.pos(f.Pos()), why)
	}
	r.floor("builders", len(nondet), 6)
	runs := tm.addRuns()
	vfT := p.namedType("vmFields")
	start, mark := fieldNamed(vfT, "start"), fieldNamed(vfT, "isNondeterministic")
	if start < 0 || mark < 0 {
		r.fail("anchor", "vmFields", "-", "the fields start and isNondeterministic aren't found")
		return
	}
	fn := p.method("valueMatcher", "addTransition")
	where := p.pos(fn.Pos())
	n := 0
	for i := range runs {
		run := &runs[i]
		if run.st == nil {
			r.fail("publish", run.name(), where, "it panics: "+strings.Join(run.panics, "; "))
			continue
		}
		for _, m := range run.st.marks {
			r.fail("publish", run.name(), where, "undecided: "+m)
		}
		if run.mode == "BuiltForSpeed" && strings.HasPrefix(run.shape, "nondet") {
			continue // can't be: a matcher's mode doesn't change
		}
		for _, e := range run.st.log {
			switch e.name {
			case "dfa":
				n++
				r.check(e.note == true, "determinise", run.name(), p.pos(instrPos(e.in)), "the automaton that is made deterministic has had its closures computed after its last change")
			case "publish":
				if q, ok := e.args[0].(aPtr); !ok || q.cell != run.vm.cell {
					continue
				}
				at := p.pos(instrPos(e.in))
				a, ok := e.res.(aAgg)
				if !ok {
					r.fail("publish", run.name(), at, "what is published isn't known")
					continue
				}
				n++
				isNon, known := a.f[mark].(bool)
				if !known {
					r.fail("publish", run.name(), at, "whether it is marked nondeterministic isn't known")
					continue
				}
				if _, empty := a.f[start].(aNil); empty {
					r.check(!isNon, "publish", run.name(), at, "no automaton")
					continue
				}
				if isNon {
					closed := e.note.(pubNote).closed
					r.check(closed, "publish", run.name(), at, "marked nondeterministic, so its closures have to be computed after its last change and before it's published")
					r.check(run.mode != "BuiltForSpeed", "built for speed", run.name(), at, "an instance built for speed publishes only deterministic automata")
					continue
				}
				det, why := tm.deterministic(run.st, tm.autoTerm(run.st, a.f[start]), nondet)
				if det {
					why = "marked deterministic, and it is"
				} else {
					why = "marked deterministic, but " + why
				}
				r.check(det, "publish", run.name(), at, why)
			}
		}
		r.pass("run", run.name(), where, fmt.Sprint(len(run.st.log), " events"))
	}
	r.floor("publications and determinisations", n, 60)
	tm.checkTraversal(r)
	tm.checkNondetTest(r)
	tm.checkClosures(r)
}

func checkC26(p *Prog, r *Report) {
	r.rule = "a state that is made from others in merging, splicing, cloning or determinising does what those do; a new version of a matcher's fields keeps what the change isn't about"
	r.explain = "Abstract interpretation. addTransition and addPattern are interpreted for each kind of value and each previous content, and what they publish is compared, field by field, with what was published before. The merge is interpreted with its recursive calls replaced by their contract (the result is the union of the two arguments), for each pair of local shapes of two states, so the contract holds by induction over the recursion; determinisation and cloning are interpreted on sample automata whose tables hold symbolic steps."
	r.notCovered = "Determinisation and cloning are checked on sample automata, which have each local shape (epsilons, chains, spinners, shared states, matches), not on all automata."
	r.assume = append(r.assume, "automata that builders make keep to the builders' conventions: a spinner has no epsilons and what it leads to leads back to it")
	tm := newTermModel(p)
	tm.checkValues(r, "kept")
	tm.checkCore(r, "kept")
	tm.checkMerges(r)
	tm.checkDeterminise(r)
	tm.checkClones(r)
}

// checkTraversal interprets transitionOn for each marking
func (tm *termModel) checkTraversal(r *Report) {
	p, ai := tm.p, tm.ai
	fn := p.method("valueMatcher", "transitionOn")
	vmT, vfT := p.namedType("valueMatcher"), p.namedType("vmFields")
	if fn == nil {
		r.fail("anchor", "transitionOn", "-", "not found")
		return
	}
	n := 0
	for _, non := range []bool{false, true} {
		for _, nums := range []bool{false, true} {
			for _, isNum := range []bool{false, true} {
				name := fmt.Sprintf("nondeterministic %v, numbers %v, field is a number %v", non, nums, isNum)
				st := ai.newState()
				st.base = ai.base
				var auto av
				fields := tm.structValue(vfT, func(f *types.Var, z av) av {
					switch f.Name() {
					case "start":
						auto = tm.newAuto(st, f.Type(), tm.term("old", int64(1)))
						return auto
					case "hasNumbers":
						return nums
					case "isNondeterministic":
						return non
					}
					return z
				})
				fp := aPtr{cell: ai.cell(st, fields)}
				vm := aPtr{cell: ai.cell(st, tm.structValue(vmT, func(f *types.Var, z av) av {
					if strings.Contains(f.Type().String(), "atomic.Pointer") {
						return fp
					}
					return z
				}))}
				field := tm.structValue(p.namedType("Field"), func(f *types.Var, z av) av {
					if isKind(f.Type(), types.Bool) {
						return isNum
					}
					return tm.sym("field's " + f.Name())
				})
				args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
					switch {
					case isPtrToNamed(t, "valueMatcher"):
						return vm, true
					case isPtrToNamed(t, "Field"):
						return aPtr{cell: ai.cell(st, field)}, true
					case namedName(t) == "Field":
						return field, true
					case isPtrToNamed(t, "nfaBuffers"):
						return aPtr{cell: ai.cell(st, ai.zero(p.namedType("nfaBuffers")))}, true
					}
					return nil, false
				})
				np := len(ai.problem)
				outs := ai.run(st, fn, args)
				if len(ai.problem) > np {
					r.fail("traversal", name, p.pos(fn.Pos()), "panic: "+ai.problem[len(ai.problem)-1])
				}
				for _, o := range outs {
					for _, e := range o.log {
						if !strings.HasPrefix(e.name, "traverse") {
							continue
						}
						n++
						ok := tm.autoTerm(o, e.args[0]) == nil
						ok = termKey(tm.autoTerm(o, e.args[0])) == termKey(tm.autoTerm(o, auto))
						r.check(ok, "traversal start", name, p.pos(instrPos(e.in)), "the traversal starts at the published start")
						if non {
							r.check(e.name == "traverse-nfa", "traversal", name, p.pos(instrPos(e.in)), "marked nondeterministic, so closures have to be followed")
						} else {
							r.pass("traversal", name, p.pos(instrPos(e.in)), "marked deterministic")
						}
					}
				}
			}
		}
	}
	r.floor("traversals", n, 8)
}

// checkNondetTest: the test that says if an automaton has epsilons finds them wherever they are
func (tm *termModel) checkNondetTest(r *Report) {
	p, ai := tm.p, tm.ai
	n := 0
	for _, f := range p.funcs {
		if !tm.asked[f] {
			continue
		}
		saved := ai.ext
		tests := 0
		for _, depth := range []int{0, 1, 2, 3} {
			for _, pos := range []int{-1, 0, 1, 2} {
				if depth == 0 && pos > 0 {
					continue
				}
				st := ai.newState()
				st.base = ai.base
				ai.ext = func(ai *aInterp, st *aState, name string, args []av, in ssa.CallInstruction) (av, bool) {
					return nil, false
				}
				a := tm.chain(st, depth, pos)
				var arg av = a
				t := params(f)[0]
				switch {
				case isPtrToNamed(t, "smallTable"):
					arg = aPtr{a.cell, subPath(a.path, tm.tableIx())}
				case namedName(t) == "smallTable":
					arg = aGet(st.load(a.cell), subPath(a.path, tm.tableIx()))
				case namedName(t) == "faState":
					arg = aGet(st.load(a.cell), a.path)
				}
				outs := ai.run(st, f, []av{arg})
				ok := len(outs) == 1 && len(outs[0].result) == 1 && outs[0].result[0] == (pos >= 0)
				got := "no single outcome"
				if len(outs) == 1 && len(outs[0].result) > 0 {
					got = fmt.Sprint(outs[0].result[0])
				}
				tests++
				r.check(ok, "test for epsilons", fmt.Sprintf("%s, %d steps deep, %s", p.fname(f), depth, map[bool]string{true: fmt.Sprint("epsilon at the end of step ", pos), false: "no epsilon"}[pos >= 0]), p.pos(f.Pos()), "gives "+got)
			}
		}
		ai.ext = saved
		n += tests
	}
	r.facts["tests for epsilons"] = n
}

// chain makes an automaton whose states have three steps each, the last nested to the depth; pos says which step of the deepest state
// leads to a state with an epsilon
func (tm *termModel) chain(st *aState, depth, pos int) aPtr {
	ai := tm.ai
	mk := func(eps []av, ceil []av, steps []av) aPtr {
		tT := tm.p.namedType("smallTable")
		tab := tm.structValue(tT, func(f *types.Var, z av) av {
			switch f.Name() {
			case "ceilings":
				return ai.newSlice(st, ceil)
			case "steps":
				return ai.newSlice(st, steps)
			case "epsilons":
				if eps != nil {
					return ai.newSlice(st, eps)
				}
			}
			return z
		})
		return tm.newAuto(st, types.NewPointer(tm.p.namedType("faState")), tab).(aPtr)
	}
	top := int64(0xf6)
	leaf := func() aPtr { return mk(nil, []av{top}, []av{aNil{}}) }
	if depth == 0 {
		if pos >= 0 {
			return mk([]av{leaf()}, []av{top}, []av{aNil{}})
		}
		return leaf()
	}
	steps := []av{aNil{}, leaf(), leaf(), aNil{}, leaf()}
	inner := tm.chain(st, depth-1, pos)
	ix := []int{1, 2, 4}[max(pos, 0)%3]
	steps[ix] = inner
	return mk(nil, []av{int64(10), int64(11), int64(20), int64(30), top}, steps)
}
