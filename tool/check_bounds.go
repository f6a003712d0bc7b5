package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C08"] = checkC08
	checkers["C21"] = checkC21
	checkers["Z1"] = debugZones
	checkers["C09"] = checkC09
}

// flatteners are the package's own implementations of Flattener: their Flatten methods
func (p *Prog) flatteners(r *Report) []*ssa.Function {
	t := p.namedType("Flattener")
	if t == nil {
		r.fail("anchor", "Flattener", "-", "the interface isn't there any more")
		return nil
	}
	it := t.Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Name() != "Flatten" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), it) {
			if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
				r.fail("anchor", p.fname(f), p.pos(f.Pos()), "the flattener isn't called through a pointer, which the analysis needs")
				continue
			}
			out = append(out, f)
		}
	}
	r.floor("implementations of Flattener", len(out), 1)
	return out
}

// flattening analyses the numbers in everything that reading an event goes through
func (p *Prog) flattening(r *Report) (*zAnalysis, map[*ssa.Function]bool) {
	a := newZAnalysis(p)
	var roots []*ssa.Function
	for _, f := range p.flatteners(r) {
		es, ms := a.object(f)
		roots = append(roots, es...)
		var names []string
		for _, m := range ms {
			names = append(names, p.fname(m))
		}
		sort.Strings(names)
		r.floor("functions that make a "+types.TypeString(f.Params[0].Type(), func(*types.Package) string { return "" }), len(ms), 1)
		r.facts["made in"] = names
	}
	a.solve()
	a.report(r)
	return a, a.reach(roots...)
}

// report says what the analysis as a whole couldn't settle
func (a *zAnalysis) report(r *Report) {
	seen := map[string]bool{}
	for _, b := range a.bad {
		if !seen[b] {
			seen[b] = true
			r.fail("the summaries are a fixed point", b, "-", "the analysis did not settle")
		}
	}
	r.facts["functions with a summary"] = len(a.funcs)
	r.facts["blocks interpreted"] = a.steps
}

// obligations hands on what was checked in the given functions
func (a *zAnalysis) obligations(r *Report, in map[*ssa.Function]bool) (n int) {
	var ins []ssa.Instruction
	for i := range a.obls {
		if in[i.Parent()] {
			ins = append(ins, i)
		}
	}
	sort.Slice(ins, func(i, j int) bool {
		x, y := instrPos(ins[i]), instrPos(ins[j])
		if x != y {
			return x < y
		}
		return ins[i].String() < ins[j].String()
	})
	for _, i := range ins {
		var keys []string
		for k := range a.obls[i] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := a.obls[i][k]
			r.check(o.ok, o.kind, a.p.fname(i.Parent())+": "+o.what, a.p.pos(instrPos(i)), o.why)
			n++
		}
	}
	return n
}

func checkC08(p *Prog, r *Report) {
	r.rule = "every index, slice, division, shift, allocation, type assertion and panic in what Flatten calls is in range, or never reached, for every event and every state an earlier event can leave behind"
	r.explain = "abstract interpretation with difference bounds, sums, sets of byte values and facts about the bytes at relative positions; a summary per function, told apart by which errors are nil; what an object can contain between calls is computed from what it is made with and what the calls leave behind"
	r.notCovered = "nil pointers and maps; recursion so deep that the stack overflows; flatteners that users supply"
	r.assume = []string{"ints of 64 bits don't overflow when counting bytes or elements", "no other goroutine uses the same flattener (C07) or writes to the event (C10)"}
	a, in := p.flattening(r)
	n := a.obligations(r, in)
	r.floor("places in the flattener that need to be in range", n, 40)
	missing := 0
	for f := range in {
		if f.Blocks != nil && a.funcs[f] == nil {
			missing++
		}
	}
	r.facts["functions reachable from Flatten"] = len(in)
	r.facts["of those, never reached in the analysis"] = missing
}

func checkC09(p *Prog, r *Report) {
	r.rule = "every index, slice, division, shift, allocation, type assertion and panic in what reading a pattern calls is in range, or never reached, for every pattern text"
	r.explain = "abstract interpretation with difference bounds, sums, sets of byte values and facts about the bytes at relative positions, from patternFromJSON; a summary per function, told apart by which errors are nil"
	r.notCovered = "nil pointers and maps; recursion so deep that the stack overflows; building the automaton from what was read (C15, C26 and C30 report panics of the builders within their bounds)"
	r.assume = []string{"ints of 64 bits don't overflow when counting bytes or elements", "the regexp reader only goes back over what it has read, so that its position isn't negative: C18 interprets it for all token sequences within its bound and reports a position out of range"}
	root := p.funcByName("patternFromJSON")
	if root == nil {
		r.fail("anchor", "patternFromJSON", "-", "the function isn't there any more")
		return
	}
	a := newZAnalysis(p)
	a.root(root, nil)
	a.solve()
	a.report(r)
	in := a.reach(root)
	assumed := 0
	state := p.namedType("regexpParse")
	for i, m := range a.obls {
		if sl, ok := i.(*ssa.Slice); ok && in[i.Parent()] && state != nil && sl.Low != nil && i.Parent().Signature.Recv() != nil && isPtrTo(i.Parent().Signature.Recv().Type(), state) {
			for _, o := range m {
				if !o.ok && o.why == "the lower bound might be negative" {
					o.ok, o.why = true, "not above the length; not negative: C18"
					assumed++
				}
			}
		}
	}
	n := a.obligations(r, in)
	r.facts["lower bounds left to C18"] = assumed
	r.floor("places in the pattern readers that need to be in range", n, 80)
}

func checkC21(p *Prog, r *Report) {
	r.rule = "in each loop that Flatten reaches some number grows or shrinks by at least one in each round and stays within a bound that the loop doesn't change; each call that can lead back to the function it is in has consumed at least one byte since that function was entered"
	r.explain = "the numeric analysis of C08: the change of each candidate between a loop's head and its next round, and of the position in the event between a function's entry and each call in a cycle of the call graph"
	r.notCovered = "whether the number of steps is linear; the stack space that nesting needs; flatteners that users supply"
	r.assume = []string{"functions of the standard library return", "ints of 64 bits don't overflow when counting bytes"}
	a, in := p.flattening(r)
	loops := a.progress(r, in)
	r.floor("loops in the flattener", loops, 5)
}

// progress checks that the loops and recursions in the given functions come to an end
func (a *zAnalysis) progress(r *Report, in map[*ssa.Function]bool) int {
	p := a.p
	n := 0
	var fns []*ssa.Function
	for f := range in {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		zf := a.funcs[f]
		if zf == nil || zf.reached == nil {
			continue
		}
		var hs []*ssa.BasicBlock
		for h := range zf.loops {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for k, h := range hs {
			if !zf.reached[h] {
				continue
			}
			n++
			why, ok := zf.loop(h).proves()
			r.check(ok, "loop", fmt.Sprintf("%s: loop %d of %d", p.fname(f), k+1, len(hs)), p.pos(loopPos(h, zf.loops[h])), why)
			r.facts["loop at "+p.pos(loopPos(h, zf.loops[h]))] = why
		}
		// a graph with more than one way into a cycle
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if zf.reached[b] && zf.order[s] <= zf.order[b] && !s.Dominates(b) {
					r.fail("loop", p.fname(f)+": cycle with two entries", p.pos(instrPos(b.Instrs[len(b.Instrs)-1])), "nothing is known about it")
				}
			}
		}
	}
	// recursion
	scc := a.cycles(fns)
	var cs []ssa.CallInstruction
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					for _, t := range a.targets(c.Common()) {
						if in[t] && scc[f] != 0 && scc[t] == scc[f] {
							cs = append(cs, c)
							break
						}
					}
				}
			}
		}
	}
	// the measure has to be the same memory in all functions of the cycle
	key := func(nm zName) string { return fmt.Sprintf("%s %c %s", typeOfBase(nm.v), nm.kind, nm.path) }
	// what each call has consumed, by measure: 1 for something, 0 for perhaps nothing, and nothing if that isn't known
	step := map[ssa.CallInstruction]map[string]int{}
	parts := map[int][]ssa.CallInstruction{}
	for _, c := range cs {
		f := c.Parent()
		if a.funcs[f] == nil || !a.funcs[f].reached[c.Block()] {
			continue
		}
		step[c] = map[string]int{}
		for nm, pr := range a.recs[c] {
			if nm.path == "" || !a.passesOn(c, nm.v) || pr.lo < 0 {
				continue
			}
			if pr.lo >= 1 && !pr.noUp {
				step[c][key(nm)] = 1
			} else if _, ok := step[c][key(nm)]; !ok {
				step[c][key(nm)] = 0
			}
		}
		parts[scc[f]] = append(parts[scc[f]], c)
	}
	var ids []int
	for id := range parts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		// a measure is good if no call takes any back and each cycle has a call that consumes some
		var best []ssa.CallInstruction
		shown := false
		keys := map[string]bool{}
		for _, c := range parts[id] {
			for k := range step[c] {
				keys[k] = true
			}
		}
		for k := range keys {
			bad := a.idleCalls(parts[id], func(c ssa.CallInstruction) (int, bool) { n, ok := step[c][k]; return n, ok })
			if !shown || len(bad) < len(best) {
				best, shown = bad, true
			}
		}
		if !shown {
			best = parts[id]
		}
		idle := map[ssa.CallInstruction]bool{}
		for _, c := range best {
			idle[c] = true
		}
		for _, c := range parts[id] {
			r.check(!idle[c], "recursion", p.fname(c.Parent())+": "+p.exprAt(c), p.pos(instrPos(c)), "nothing is shown to have been consumed since the function was entered, or to be bounded")
			n++
		}
	}
	return n
}

func typeOfBase(v ssa.Value) string { return v.Type().String() }

// passesOn: the call gives the callee the caller's own parameter as the one of its type
func (a *zAnalysis) passesOn(c ssa.CallInstruction, v ssa.Value) bool {
	for _, t := range a.targets(c.Common()) {
		ok := false
		for i, pr := range t.Params {
			if i < len(c.Common().Args) && types.Identical(pr.Type(), v.Type()) {
				ok = c.Common().Args[i] == v
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// cycles numbers the strongly connected components of the call graph that have a cycle
func (a *zAnalysis) cycles(fns []*ssa.Function) map[*ssa.Function]int {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	next := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					out = append(out, a.targets(c.Common())...)
					for _, arg := range c.Common().Args {
						out = append(out, closuresOf(arg)...)
					}
				}
			}
		}
		return out
	}
	for _, f := range fns {
		m := map[*ssa.Function]bool{}
		work := next(f)
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			if m[g] || !a.p.isOurs(g) {
				continue
			}
			m[g] = true
			work = append(work, next(g)...)
		}
		reach[f] = m
	}
	out := map[*ssa.Function]int{}
	n := 0
	for _, f := range fns {
		if !reach[f][f] || out[f] != 0 {
			continue
		}
		n++
		out[f] = n
		for _, g := range fns {
			if reach[f][g] && reach[g] != nil && reach[g][f] {
				out[g] = n
			}
		}
	}
	return out
}

func loopPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (pos token.Pos) {
	for b := range body {
		for _, in := range b.Instrs {
			if q := instrPos(in); q.IsValid() && (!pos.IsValid() || q < pos) {
				pos = q
			}
		}
	}
	return pos
}

func debugZones(p *Prog, r *Report) {
	a := newZAnalysis(p)
	for _, n := range strings.Split(os.Getenv("ZROOT"), ",") {
		for _, f := range p.funcs {
			if n != "" && strings.HasSuffix(f.String(), n) {
				if os.Getenv("ZOBJ") != "" {
					a.object(f)
				} else {
					a.root(f, nil)
				}
			}
		}
	}
	a.solve()
	for _, b := range a.bad {
		fmt.Println("BAD", b)
	}
	var obs []*zObl
	for _, m := range a.obls {
		for _, o := range m {
			obs = append(obs, o)
		}
	}
	sort.Slice(obs, func(i, j int) bool { return obs[i].in.Pos() < obs[j].in.Pos() })
	n := 0
	for _, o := range obs {
		if o.ok {
			n++
			continue
		}
		fmt.Println("FAIL", p.pos(instrPos(o.in)), p.fname(o.in.Parent()), o.kind, o.what, o.why)
	}
	fmt.Println("ok", n, "of", len(obs), "functions", len(a.funcs), "steps", a.steps)
	for h, l := range a.loops {
		why, ok := l.proves()
		if !ok || os.Getenv("ZLOOPS") != "" {
			fmt.Println("LOOP", ok, p.fname(h.Parent()), h.Index, p.pos(instrPos(h.Instrs[len(h.Instrs)-1])), why)
			if !ok {
				for _, c := range l.cands {
					fmt.Println("   ", a.show(a.id(c.name)), c.lo, c.hi, c.seen, c.above, c.noUp, c.below, c.noLow)
				}
			}
		}
	}
	for _, n := range strings.Split(os.Getenv("ZDUMP"), ",") {
		for _, f := range a.sorted() {
			if n != "" && strings.HasSuffix(f.fn.String(), n) {
				for k, z := range f.entry {
					fmt.Println("ENTRY", p.fname(f.fn), k, "::", a.dump(z))
				}
				for k, z := range f.exits {
					fmt.Println("EXIT", p.fname(f.fn), k, "::", a.dump(z))
				}
			}
		}
	}
}

// idleCalls gives the calls that are on a cycle in which nothing is shown to be consumed, or that may take something back
func (a *zAnalysis) idleCalls(cs []ssa.CallInstruction, step func(ssa.CallInstruction) (int, bool)) []ssa.CallInstruction {
	var bad []ssa.CallInstruction
	next := map[*ssa.Function]map[*ssa.Function]bool{}
	var weak []ssa.CallInstruction
	for _, c := range cs {
		n, ok := step(c)
		if !ok {
			bad = append(bad, c)
			continue
		}
		if n > 0 {
			continue
		}
		weak = append(weak, c)
		for _, t := range a.targets(c.Common()) {
			if next[c.Parent()] == nil {
				next[c.Parent()] = map[*ssa.Function]bool{}
			}
			next[c.Parent()][t] = true
		}
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			if f == to {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for g := range next[f] {
				if visit(g) {
					return true
				}
			}
			return false
		}
		return visit(from)
	}
	for _, c := range weak {
		for _, t := range a.targets(c.Common()) {
			if reaches(t, c.Parent()) {
				bad = append(bad, c)
				break
			}
		}
	}
	return bad
}
