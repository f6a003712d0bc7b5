package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Automata with known local structure whose further states stand for anything, and a comparison of what they accept.

type gEdge struct {
	lo, hi int64
	to     av
}

type gSpec struct {
	edges   []gEdge
	eps     []av
	fms     []string
	spinner bool
}

type graphs struct {
	tm   *termModel
	st   *aState
	name map[int]string // of states, by cell
	fm   map[string]av
}

func newGraphs(tm *termModel, st *aState) *graphs {
	return &graphs{tm: tm, st: st, name: map[int]string{}, fm: map[string]av{}}
}

const gTop = int64(0xf6)

// declare makes an empty state
func (g *graphs) declare(name string) aPtr {
	p := aPtr{cell: g.tm.ai.cell(g.st, g.tm.ai.zero(g.tm.p.namedType("faState")))}
	g.name[p.cell] = name
	g.define(p, gSpec{})
	return p
}

func (g *graphs) state(name string, s gSpec) aPtr {
	p := g.declare(name)
	g.define(p, s)
	return p
}

func (g *graphs) define(p aPtr, s gSpec) {
	ai := g.tm.ai
	var ceil, steps []av
	at := int64(0)
	sort.Slice(s.edges, func(i, j int) bool { return s.edges[i].lo < s.edges[j].lo })
	for _, e := range s.edges {
		if e.lo > at {
			ceil, steps = append(ceil, e.lo), append(steps, aNil{})
		}
		ceil, steps = append(ceil, e.hi+1), append(steps, e.to)
		at = e.hi + 1
	}
	if at < gTop {
		ceil, steps = append(ceil, gTop), append(steps, aNil{})
	}
	var fms []av
	for _, n := range s.fms {
		if g.fm[n] == nil {
			g.fm[n] = aPtr{cell: ai.cell(g.st, ai.zero(g.tm.p.namedType("fieldMatcher")))}
			g.name[g.fm[n].(aPtr).cell] = n
		}
		fms = append(fms, g.fm[n])
	}
	list := func(el []av) av {
		if len(el) == 0 {
			return aNil{}
		}
		return ai.newSlice(g.st, el)
	}
	tT := g.tm.p.namedType("smallTable")
	tab := g.tm.structValue(tT, func(f *types.Var, z av) av {
		switch f.Name() {
		case "ceilings":
			return ai.newSlice(g.st, ceil)
		case "steps":
			return ai.newSlice(g.st, steps)
		case "epsilons":
			return list(s.eps)
		}
		return z
	})
	g.st.heap[p.cell] = g.tm.structValue(g.tm.p.namedType("faState"), func(f *types.Var, z av) av {
		switch {
		case namedName(f.Type()) == "smallTable":
			return tab
		case f.Name() == "fieldTransitions":
			return list(fms)
		case f.Name() == "isSpinner":
			return s.spinner
		}
		return z
	})
}

// gState is what's in a state
type gState struct {
	tab *absTable
	fms []string
	clo []av // nil if it has none
	has bool // has a closure
}

func (g *graphs) read(st *aState, v av) gState {
	ai := g.tm.ai
	p, ok := v.(aPtr)
	if !ok {
		ai.undecided("a state is unknown")
	}
	a, ok := aGet(st.load(p.cell), p.path).(aAgg)
	if !ok {
		ai.undecided("a state is unknown")
	}
	sT := g.tm.p.namedType("faState").Underlying().(*types.Struct)
	out := gState{tab: ai.stateTable(st, v)}
	for i := 0; i < sT.NumFields(); i++ {
		el, ok := ai.elems(st, a.f[i])
		switch sT.Field(i).Name() {
		case "fieldTransitions":
			if !ok {
				ai.undecided("the matches of a state are unknown")
			}
			for _, e := range el {
				out.fms = append(out.fms, termKey(e))
			}
		case "epsilonClosure":
			_, isNil := a.f[i].(aNil)
			out.has, out.clo = !isNil, el
			if !ok {
				ai.undecided("the closure of a state is unknown")
			}
		}
	}
	return out
}

func (g *graphs) label(v av) string {
	if p, ok := v.(aPtr); ok {
		if n, ok := g.name[p.cell]; ok {
			return n
		}
		return fmt.Sprint("new", p.cell)
	}
	return termKey(v)
}

// reach adds the states that follow by epsilons; subst replaces states
func (g *graphs) reach(st *aState, vs []av, subst map[string]av) map[string]av {
	out := map[string]av{}
	var visit func(v av)
	visit = func(v av) {
		if s, ok := subst[termKey(v)]; ok {
			v = s
		}
		if _, isNil := v.(aNil); isNil || v == nil {
			return
		}
		k := termKey(v)
		if _, ok := out[k]; ok {
			return
		}
		out[k] = v
		for _, e := range g.read(st, v).tab.eps {
			visit(e)
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return out
}

// differ looks for a word on which the automata that start in the two sets of states differ: "" if there is none
func (g *graphs) differ(st *aState, a, b []av, substA, substB map[string]av) string {
	type item struct {
		a, b []av
		word string
	}
	seen := map[string]bool{}
	work := []item{{a, b, ""}}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		ra, rb := g.reach(st, it.a, substA), g.reach(st, it.b, substB)
		ka, kb := sortedKeys(ra), sortedKeys(rb)
		key := strings.Join(ka, " ") + "|" + strings.Join(kb, " ")
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(seen) > 20000 {
			g.tm.ai.undecided("the comparison of two automata doesn't end")
		}
		var ta, tb []gState
		fa, fb := map[string]bool{}, map[string]bool{}
		cuts := map[int64]bool{0: true}
		for _, k := range ka {
			s := g.read(st, ra[k])
			ta = append(ta, s)
			for _, f := range s.fms {
				fa[f] = true
			}
			for _, c := range s.tab.ceil {
				cuts[c] = true
			}
		}
		for _, k := range kb {
			s := g.read(st, rb[k])
			tb = append(tb, s)
			for _, f := range s.fms {
				fb[f] = true
			}
			for _, c := range s.tab.ceil {
				cuts[c] = true
			}
		}
		names := func(m map[string]bool) string {
			var out []string
			for _, k := range sortedKeys(m) {
				for n, v := range g.fm {
					if termKey(v) == k {
						k = n
					}
				}
				out = append(out, k)
			}
			sort.Strings(out)
			return "{" + strings.Join(out, " ") + "}"
		}
		if x, y := names(fa), names(fb); x != y {
			return fmt.Sprintf("after %s it leads to the matches %s instead of %s", orWord(it.word), x, y)
		}
		for _, c := range sortedInts(cuts) {
			if c >= gTop {
				continue
			}
			next := func(ts []gState) []av {
				var out []av
				for _, t := range ts {
					n := t.tab.next(c)
					if n == nil {
						g.tm.ai.undecided("a table has no entry for byte %d", c)
					}
					if _, isNil := n.(aNil); !isNil {
						out = append(out, n)
					}
				}
				return out
			}
			na, nb := next(ta), next(tb)
			if len(na) == 0 && len(nb) == 0 {
				continue
			}
			work = append(work, item{na, nb, it.word + fmt.Sprintf(" %02x", c)})
		}
	}
	return ""
}

func orWord(s string) string {
	if s == "" {
		return "no byte"
	}
	return "the bytes" + s
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// all lists the states that can be reached
func (g *graphs) all(st *aState, v av) []av {
	var out []av
	seen := map[string]bool{}
	var visit func(v av)
	visit = func(v av) {
		if _, isNil := v.(aNil); isNil || seen[termKey(v)] {
			return
		}
		seen[termKey(v)] = true
		out = append(out, v)
		t := g.read(st, v).tab
		for _, s := range t.steps {
			visit(s)
		}
		for _, s := range t.eps {
			visit(s)
		}
	}
	visit(v)
	return out
}

// sample makes an automaton with each kind of state behind each kind of link
func (g *graphs) sample(variant string) aPtr {
	st := g.st
	// the kinds of states: with steps, with matches only, epsilons only, epsilons and matches, epsilons and steps
	end := func(n string) aPtr { return g.state(n, gSpec{fms: []string{"F" + n}}) }
	kinds := func(pre string) []av {
		a := g.state(pre+"steps", gSpec{edges: []gEdge{{5, 5, end(pre + "1")}}})
		b := g.state(pre+"matches", gSpec{fms: []string{"F" + pre}})
		inner := g.state(pre+"inner", gSpec{edges: []gEdge{{6, 7, end(pre + "2")}}})
		inner2 := g.state(pre+"inner2", gSpec{eps: []av{g.state(pre+"inner3", gSpec{edges: []gEdge{{9, 9, end(pre + "3")}}})}, fms: []string{"G" + pre}})
		c := g.state(pre+"epsilons", gSpec{eps: []av{inner, inner2}})
		d := g.state(pre+"epsilons and matches", gSpec{eps: []av{end(pre + "4")}, fms: []string{"H" + pre}})
		e := g.state(pre+"epsilons and steps", gSpec{eps: []av{end(pre + "5"), g.state(pre+"nested", gSpec{eps: []av{end(pre + "7")}})}, edges: []gEdge{{8, 8, end(pre + "6")}}})
		out := []av{a, b, c, d, e}
		switch variant {
		case "loops":
			l := g.declare(pre + "loop")
			m := g.state(pre+"back", gSpec{eps: []av{l}})
			g.define(l, gSpec{eps: []av{m, a}, edges: []gEdge{{1, 3, l}, {4, 4, m}}})
			s := g.declare(pre + "spinner")
			g.define(s, gSpec{edges: []gEdge{{0, 5, s}, {6, 6, g.state(pre+"escape", gSpec{eps: []av{s}, edges: []gEdge{{7, 7, end(pre + "8")}}})}, {7, 0xf4, s}}, spinner: true})
			out = append(out, l, s)
		case "shared tables":
			// two states with one table, with the same and with other matches
			x := g.state(pre+"twin1", gSpec{edges: []gEdge{{5, 5, end(pre + "9")}}})
			y := g.state(pre+"twin2", gSpec{})
			z := g.state(pre+"twin3", gSpec{fms: []string{"T" + pre}})
			for _, t := range []aPtr{y, z} {
				st.heap[t.cell] = aSet(st.load(t.cell), []int{g.tm.tableIx()}, aGet(st.load(x.cell), []int{g.tm.tableIx()}))
			}
			out = append(out, g.state(pre+"twins", gSpec{eps: []av{x, y, z}}), g.state(pre+"twins2", gSpec{eps: []av{z, y}, edges: []gEdge{{2, 2, y}}}))
		}
		return out
	}
	var edges []gEdge
	for i, k := range kinds("s ") {
		edges = append(edges, gEdge{int64(10 + 3*i), int64(11 + 3*i), k})
	}
	mid := g.state("mid", gSpec{edges: edges, eps: kinds("e ")})
	top := g.state("top", gSpec{edges: []gEdge{{'"', '"', mid}}})
	return top
}

// checkClosures interprets the computation of closures on an automaton with each kind of state behind each kind of link
func (tm *termModel) checkClosures(r *Report) {
	p, ai := tm.p, tm.ai
	fn := p.funcByName("epsilonClosure")
	if fn == nil {
		r.fail("anchor", "epsilonClosure", "-", "not found")
		return
	}
	saved := ai.ext
	defer func() { ai.ext = saved }()
	ai.ext = nil
	n := 0
	for _, variant := range []string{"plain", "loops", "shared tables"} {
		st := ai.newState()
		st.base = ai.base
		g := newGraphs(tm, st)
		top := g.sample(variant)
		np := len(ai.problem)
		outs := ai.run(st, fn, []av{top})
		if len(outs) != 1 || len(ai.problem) > np {
			r.fail("closures", variant, p.pos(fn.Pos()), "the computation doesn't come to one result: "+strings.Join(ai.problem[np:], "; "))
			continue
		}
		o := outs[0]
		for _, v := range g.all(o, top) {
			s := g.read(o, v)
			what := variant + ": " + g.label(v)
			n++
			if !s.has {
				r.fail("closures", what, p.pos(fn.Pos()), "the state has no closure")
				continue
			}
			clo := s.clo
			if len(clo) == 0 {
				clo = []av{v}
			}
			reach := g.reach(o, []av{v}, nil)
			why := ""
			for _, c := range clo {
				if _, ok := reach[termKey(c)]; !ok {
					why = "its closure has " + g.label(c) + ", which no epsilons lead to"
				}
			}
			for _, k := range sortedKeys(reach) {
				w := g.read(o, reach[k])
				// is everything that w does in the closure?
				for _, f := range w.fms {
					if !anyState(clo, func(c av) bool { return contains(g.read(o, c).fms, f) }) {
						why = "a match of " + g.label(reach[k]) + " isn't in its closure"
					}
				}
				for b := int64(0); b < gTop; b++ {
					to := w.tab.next(b)
					if _, isNil := to.(aNil); isNil || to == nil {
						continue
					}
					if !anyState(clo, func(c av) bool { return termKey(g.read(o, c).tab.next(b)) == termKey(to) }) {
						why = fmt.Sprintf("the step of %s on byte %d isn't in its closure", g.label(reach[k]), b)
					}
				}
			}
			if why == "" {
				why = fmt.Sprint("its closure of ", len(clo), " states does what the ", len(reach), " states do that epsilons lead to")
				r.pass("closures", what, p.pos(fn.Pos()), why)
			} else {
				r.fail("closures", what, p.pos(fn.Pos()), why)
			}
		}
	}
	r.floor("states whose closures were computed", n, 60)
}

func anyState(vs []av, f func(av) bool) bool {
	for _, v := range vs {
		if f(v) {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// mergeRoots finds the functions that merge automata and are called by others than such functions
func (tm *termModel) mergeRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range tm.p.funcs {
		if tm.role(f) != "merge" {
			continue
		}
		root := false
		for _, c := range tm.p.callersOf(f) {
			if tm.role(c.Parent()) != "merge" {
				root = true
			}
		}
		if root {
			out = append(out, f)
		}
	}
	return out
}

// checkMerges: a merge of two states, for each combination of what they can have, does what the two do. Merges of their
// successors are taken to be right.
func (tm *termModel) checkMerges(r *Report) {
	p, ai := tm.p, tm.ai
	roots := tm.mergeRoots()
	saved := ai.ext
	defer func() { ai.ext = saved; ai.addrDown = false }()
	n := 0
	bools := []bool{false, true}
	for _, fn := range roots {
		auto := 0
		usable := true
		for _, t := range params(fn) {
			if isAutomaton(t) {
				auto++
				continue
			}
			switch t.Underlying().(type) {
			case *types.Interface, *types.Map:
			default:
				usable = false
			}
		}
		if !usable || auto != 2 {
			r.pass("merge", p.fname(fn)+" isn't an entry", p.pos(fn.Pos()), "")
			continue
		}
		for _, down := range bools {
			for code := 0; code < 64; code++ {
				bit := func(i int) bool { return code>>i&1 == 1 }
				sp := []bool{bit(0), bit(1)}
				ep := []bool{bit(2), bit(3)}
				fm := []bool{bit(4), bit(5)}
				if sp[0] && ep[0] || sp[1] && ep[1] {
					continue // builders make no spinners with epsilons, and merges neither
				}
				ai.addrDown = down
				st := ai.newState()
				st.base = ai.base
				g := newGraphs(tm, st)
				leaf := map[int]bool{}
				tops := []aPtr{g.declare("first"), g.declare("second")}
				nb := func(name string, v int) aPtr {
					s := gSpec{edges: []gEdge{{'x', 'x', g.state(name+".x", gSpec{fms: []string{"F" + name + ".x"}})}}}
					switch v {
					case 1:
						s.fms = []string{"F" + name}
						s.eps = []av{g.state(name+".e", gSpec{fms: []string{"F" + name + ".e"}})}
					case 2:
						s = gSpec{eps: []av{g.state(name+".e", gSpec{fms: []string{"F" + name + ".e"}})}}
					case 3:
						s = gSpec{eps: []av{g.state(name+".e", gSpec{fms: []string{"F" + name + ".e"}})}, fms: []string{"F" + name}}
					}
					for i, pre := range []string{"first", "second", "both"} {
						// what a spinner leads to leads back to it
						if i < 2 && sp[i] && strings.HasPrefix(name, pre) {
							s.eps = append(s.eps, tops[i])
						}
						if i == 2 && name == pre {
							for j := range tops {
								if sp[j] {
									s.eps = append(s.eps, tops[j])
								}
							}
						}
					}
					q := g.state(name, s)
					leaf[q.cell] = true
					return q
				}
				both := nb("both", 1)
				var specs [2]gSpec
				for i := range tops {
					s := &specs[i]
					s.spinner = sp[i]
					nm := []string{"first", "second"}[i]
					at := int64(0x20)
					add := func(to av) { s.edges = append(s.edges, gEdge{at, at, to}) }
					// each kind of successor against each kind of successor of the other
					for v := 0; v < 4; v++ {
						for w := 0; w < 4; w++ {
							add(nb(fmt.Sprint(nm, v, w), []int{v, w}[i]))
							at++
						}
					}
					for v := 0; v < 4; v++ { // successors where the other has none, or itself
						if i == 0 {
							add(nb(fmt.Sprint(nm, "-", v), v))
						}
						at++
						if i == 1 {
							add(nb(fmt.Sprint(nm, "-", v), v))
						}
						at++
						if i == 0 {
							add(nb(fmt.Sprint(nm, "s", v), v))
						} else {
							add(tops[i])
						}
						at++
						if i == 1 {
							add(nb(fmt.Sprint(nm, "s", v), v))
						} else {
							add(tops[i])
						}
						at++
					}
					add(both)
					at++
					add(tops[i]) // both themselves
					at += 4
					if sp[i] {
						s.edges = append(s.edges, gEdge{at + 8*int64(i), 0x90, tops[i]})
					}
					if !sp[i] {
						s.edges = append(s.edges, gEdge{0xf5, 0xf5, nb(nm+" at the end", 0)})
					}
					if fm[i] {
						s.fms = []string{"F" + nm}
					}
					if ep[i] {
						for v := 0; v < 4; v++ {
							s.eps = append(s.eps, nb(fmt.Sprint(nm, " epsilon", v), v))
						}
					}
				}
				for i := range tops {
					g.define(tops[i], specs[i])
				}
				memo := map[[2]int]av{}
				ai.ext = func(ai *aInterp, st *aState, name string, args []av, in ssa.CallInstruction) (av, bool) {
					f := ai.extFn
					if !p.isOurs(f) || tm.role(f) != "merge" {
						return nil, false
					}
					var ptrs []aPtr
					for i, t := range params(f) {
						if isAutomaton(t) {
							q, ok := args[i].(aPtr)
							if !ok {
								return nil, false
							}
							ptrs = append(ptrs, aPtr{cell: q.cell})
						}
					}
					if len(ptrs) != 2 || !leaf[ptrs[0].cell] && !leaf[ptrs[1].cell] {
						return nil, false
					}
					k := [2]int{min(ptrs[0].cell, ptrs[1].cell), max(ptrs[0].cell, ptrs[1].cell)}
					if memo[k] == nil {
						h := newGraphs(tm, st)
						memo[k] = h.state("merge", gSpec{eps: []av{ptrs[0], ptrs[1]}})
					}
					m := memo[k].(aPtr)
					switch rt := results(f)[0]; {
					case isPtrToNamed(rt, "faState"):
						return m, true
					case isPtrToNamed(rt, "smallTable"):
						return aPtr{m.cell, []int{tm.tableIx()}}, true
					case namedName(rt) == "smallTable":
						return aGet(st.load(m.cell), []int{tm.tableIx()}), true
					}
					return st.load(m.cell), true
				}
				tables := false
				ix := 0
				args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
					if !isAutomaton(t) {
						if _, ok := t.Underlying().(*types.Map); ok {
							return aMap{ai.cell(st, &aMapCell{idx: map[string]int{}, own: st.own})}, true
						}
						return nil, false
					}
					q := tops[ix%2]
					ix++
					switch {
					case isPtrToNamed(t, "faState"):
						return q, true
					case isPtrToNamed(t, "smallTable"):
						tables = true
						return aPtr{q.cell, []int{tm.tableIx()}}, true
					case namedName(t) == "smallTable":
						tables = true
						return aGet(st.load(q.cell), []int{tm.tableIx()}), true
					}
					return st.load(q.cell), true
				})
				if tables && (fm[0] || fm[1]) {
					continue // only tables are merged
				}
				what := fmt.Sprintf("%s: spinners %v, epsilons %v, matches %v", p.fname(fn), sp, ep, fm)
				np := len(ai.problem)
				outs := ai.run(st, fn, args)
				n++
				if len(outs) != 1 || len(outs[0].result) == 0 || len(ai.problem) > np {
					why := "the merge doesn't come to one result"
					if len(ai.problem) > np {
						why += ": " + ai.problem[np]
					}
					for _, o := range outs {
						if len(o.marks) > 0 {
							why += "; " + o.marks[0]
						}
					}
					r.fail("merge", what, p.pos(fn.Pos()), why)
					continue
				}
				o := outs[0]
				res := o.result[0]
				switch rt := results(fn)[0]; {
				case namedName(rt) == "smallTable":
					h := newGraphs(tm, o)
					q := h.declare("result")
					o.heap[q.cell] = aSet(o.load(q.cell), []int{tm.tableIx()}, res)
					res = q
				case isPtrToNamed(rt, "smallTable"):
					h := newGraphs(tm, o)
					q := h.declare("result")
					rp, ok := res.(aPtr)
					if !ok {
						ai.undecided("the result of a merge is unknown")
					}
					o.heap[q.cell] = aSet(o.load(q.cell), []int{tm.tableIx()}, aGet(o.load(rp.cell), rp.path))
					res = q
				}
				d := g.differ(o, []av{res}, []av{tops[0], tops[1]}, nil, nil)
				r.check(d == "", "merge", what, p.pos(fn.Pos()), orOK(d, "does what the two states do"))
			}
		}
	}
	r.floor("merges", n, 64)
}

func orOK(d, ok string) string {
	if d == "" {
		return ok
	}
	return d
}

// checkDeterminise: the automaton that nfa2Dfa makes has no epsilons and does what the original does
func (tm *termModel) checkDeterminise(r *Report) {
	p, ai := tm.p, tm.ai
	clo, dfa := p.funcByName("epsilonClosure"), p.funcByName("nfa2Dfa")
	if clo == nil || dfa == nil {
		r.fail("anchor", "nfa2Dfa", "-", "not found")
		return
	}
	saved := ai.ext
	defer func() { ai.ext = saved; ai.addrDown = false }()
	ai.ext = nil
	n := 0
	for _, down := range []bool{false, true} {
		ai.addrDown = down
		for _, variant := range []string{"plain", "loops", "shared tables"} {
			st := ai.newState()
			st.base = ai.base
			g := newGraphs(tm, st)
			top := g.sample(variant)
			outs := ai.run(st, clo, []av{top})
			if len(outs) == 1 {
				outs = ai.run(outs[0], dfa, []av{top})
			}
			if len(outs) != 1 || len(outs[0].result) != 1 {
				r.fail("determinise", variant, p.pos(dfa.Pos()), "it doesn't come to one result")
				continue
			}
			o := outs[0]
			res := o.result[0]
			d := g.differ(o, []av{res}, []av{top}, nil, nil)
			r.check(d == "", "determinise", variant, p.pos(dfa.Pos()), orOK(d, "the result does what the original does"))
			for _, v := range g.all(o, res) {
				n++
				if len(g.read(o, v).tab.eps) > 0 {
					r.fail("determinise: epsilons", variant, p.pos(dfa.Pos()), "a state of the result has epsilons")
				}
			}
		}
	}
	r.floor("states of deterministic automata", n, 60)
}

// checkClones: a function that copies an automaton with one state replaced by another gives what its argument is with the
// state replaced, and shares nothing with it
func (tm *termModel) checkClones(r *Report) {
	p, ai := tm.p, tm.ai
	saved := ai.ext
	defer func() { ai.ext = saved }()
	ai.ext = nil
	n := 0
	isClone := func(f *ssa.Function) bool {
		return countTypes(params(f), isAutomaton) == 3 && countTypes(results(f), isAutomaton) == 1 && len(results(f)) == 1
	}
	for _, fn := range p.funcs {
		if !isClone(fn) {
			continue
		}
		entry := false
		for _, c := range p.callersOf(fn) {
			entry = entry || !isClone(c.Parent())
		}
		if !entry {
			continue
		}
		for _, variant := range []string{"flat", "nested", "loop"} {
			st := ai.newState()
			st.base = ai.base
			g := newGraphs(tm, st)
			old := g.state("old", gSpec{fms: []string{"Fold"}})
			nu := g.state("new", gSpec{edges: []gEdge{{3, 3, g.state("new next", gSpec{fms: []string{"Fnext"}})}}, fms: []string{"Fnew"}, eps: []av{g.state("new epsilon", gSpec{fms: []string{"Feps"}})}})
			shell := g.declare("shell")
			sp := gSpec{edges: []gEdge{{1, 1, old}, {5, 9, old}}}
			if variant != "flat" {
				inner := g.state("inner", gSpec{edges: []gEdge{{1, 4, old}, {8, 8, g.state("inner2", gSpec{edges: []gEdge{{7, 7, old}}, eps: []av{old}})}}})
				sp.edges = append(sp.edges, gEdge{20, 30, inner}, gEdge{32, 32, g.state("with epsilons", gSpec{eps: []av{inner, old}, edges: []gEdge{{2, 2, inner}}})}, gEdge{40, 40, inner})
				sp.eps = []av{g.state("behind an epsilon", gSpec{edges: []gEdge{{60, 60, old}}})}
			}
			if variant == "loop" {
				sp.edges = append(sp.edges, gEdge{50, 51, shell})
				l := g.declare("inner loop")
				g.define(l, gSpec{edges: []gEdge{{3, 3, l}, {4, 4, old}}})
				sp.edges = append(sp.edges, gEdge{53, 53, l})
			}
			g.define(shell, sp)
			before := map[string]string{}
			for _, v := range g.all(st, shell) {
				before[termKey(v)] = termKey(st.load(v.(aPtr).cell))
			}
			ix := 0
			ok := true
			args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
				if _, isMap := t.Underlying().(*types.Map); isMap {
					return aMap{ai.cell(st, &aMapCell{idx: map[string]int{}, own: st.own})}, true
				}
				if !isAutomaton(t) {
					return nil, false
				}
				q := []aPtr{shell, old, nu}[ix%3]
				ix++
				switch {
				case isPtrToNamed(t, "faState"):
					return q, true
				case isPtrToNamed(t, "smallTable"):
					return aPtr{q.cell, []int{tm.tableIx()}}, true
				case namedName(t) == "smallTable":
					return aGet(st.load(q.cell), []int{tm.tableIx()}), true
				}
				ok = false
				return nil, false
			})
			what := p.fname(fn) + ": " + variant
			n++
			outs := ai.run(st, fn, args)
			if !ok || len(outs) != 1 || len(outs[0].result) != 1 {
				r.fail("clone", what, p.pos(fn.Pos()), "it doesn't come to one result")
				continue
			}
			o := outs[0]
			res := o.result[0]
			if !isPtrToNamed(results(fn)[0], "faState") {
				h := newGraphs(tm, o)
				q := h.declare("result")
				if rp, isP := res.(aPtr); isP {
					res = aGet(o.load(rp.cell), rp.path)
				}
				o.heap[q.cell] = aSet(o.load(q.cell), []int{tm.tableIx()}, res)
				res = q
			}
			d := g.differ(o, []av{res}, []av{shell}, nil, map[string]av{termKey(old): nu})
			r.check(d == "", "clone", what, p.pos(fn.Pos()), orOK(d, "the copy does what the original does, with the one state replaced"))
			changed := ""
			for k, b := range before {
				for _, v := range g.all(o, shell) {
					if termKey(v) == k && termKey(o.load(v.(aPtr).cell)) != b {
						changed = "the copying changes the original's state " + g.label(v)
					}
				}
			}
			r.check(changed == "", "clone: original", what, p.pos(fn.Pos()), orOK(changed, "the original is as before"))
		}
	}
	r.facts["clones"] = n
}
