package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C13"] = checkC13
	checkers["C22"] = checkC22
	checkers["C24"] = checkC24
}

// choose splits the state on something that isn't known; it says if the choice is made
func (tm *termModel) choose(st *aState, key string) (bool, bool) {
	c := tm.ai.pred(st, key)
	if b, ok := c.(bool); ok {
		return b, true
	}
	tm.ai.extFork = st.fork(c)
	return false, false
}

type fieldSpec struct {
	path  string
	kinds []string
}

type coreScenario struct {
	name   string
	fields []fieldSpec
	err    bool
}

type coreRun struct {
	sc      coreScenario
	st      *aState
	before  *aState
	cm      aPtr
	fm0     aPtr
	fmE     [2]aPtr
	vmOld   aPtr
	x       av
	vals    map[string][]av // by path
	trees   av
	scratch int
	err     av
	probs   []string
}

func coreScenarios(existsT, existsF string, kinds []string) []coreScenario {
	var out []coreScenario
	add := func(name string, f ...fieldSpec) { out = append(out, coreScenario{name: name, fields: f}) }
	all := fieldSpec{"new", nil}
	for _, k := range kinds {
		if k != existsT && k != existsF {
			all.kinds = append(all.kinds, k)
		}
	}
	k1, k2 := all.kinds[0], all.kinds[1]
	add("all kinds of value on a new path", all)
	add("two values on a path that is there", fieldSpec{"old", []string{k1, k2}})
	add("two fields, not in order", fieldSpec{"b", []string{k1}}, fieldSpec{"a", []string{k2, k1}})
	add("three fields of two values, not in order", fieldSpec{"c", []string{k1, k2}}, fieldSpec{"a", []string{k2, k1}}, fieldSpec{"b", []string{k1, k1}})
	add("nested paths", fieldSpec{"n\nb\nc", []string{k1}}, fieldSpec{"n\na", []string{k1}}, fieldSpec{"n", []string{k1}})
	add("a path under one that is there", fieldSpec{"old", []string{k1}}, fieldSpec{"old\nmore", []string{k1}}, fieldSpec{"in\ndeep\ntoo", []string{k1}})
	for _, e := range []string{existsT, existsF} {
		add(e+" on a new path", fieldSpec{"new", []string{e}})
		add(e+" on a path that has it", fieldSpec{map[string]string{existsT: "e1", existsF: "e2"}[e], []string{e}})
		add(e+" on a path that has the other", fieldSpec{map[string]string{existsT: "e2", existsF: "e1"}[e], []string{e}})
		add(e+" first of three", fieldSpec{"c", []string{k1}}, fieldSpec{"a", []string{e}}, fieldSpec{"b", []string{k1, k2}})
		add(e+" second of three", fieldSpec{"a", []string{k1, k2}}, fieldSpec{"b", []string{e}}, fieldSpec{"c", []string{k1}})
		add(e+" last of three", fieldSpec{"a", []string{k1, k2}}, fieldSpec{"b", []string{k1}}, fieldSpec{"c", []string{e}})
	}
	add("both kinds of exists", fieldSpec{"f", []string{existsF}}, fieldSpec{"e", []string{existsT}})
	add("a field without values", fieldSpec{"new", nil})
	add("a field without values among others", fieldSpec{"a", []string{k1}}, fieldSpec{"b", nil}, fieldSpec{"c", []string{k1}})
	add("no fields")
	out = append(out, coreScenario{name: "an invalid pattern", err: true}, coreScenario{name: "a pattern that turns out invalid late", err: true, fields: []fieldSpec{{"a", []string{k1}}}})
	return out
}

// fieldMatcherWith makes a field matcher with the given content
func (tm *termModel) fieldMatcherWith(st *aState, f func(f *types.Var, z av) av) aPtr {
	ai := tm.ai
	fp := aPtr{cell: ai.cell(st, tm.structValue(tm.p.namedType("fmFields"), f))}
	return aPtr{cell: ai.cell(st, tm.structValue(tm.p.namedType("fieldMatcher"), func(f *types.Var, z av) av {
		if strings.Contains(f.Type().String(), "atomic.Pointer") {
			return fp
		}
		return z
	}))}
}

func (tm *termModel) mapOf(st *aState, kv ...av) aMap {
	m := &aMapCell{idx: map[string]int{}, own: st.own}
	for i := 0; i+1 < len(kv); i += 2 {
		m.put(tm.ai, kv[i], kv[i+1])
	}
	return aMap{tm.ai.cell(st, m)}
}

// emptyFM makes a field matcher with empty maps
func (tm *termModel) emptyFM(st *aState) aPtr {
	return tm.fieldMatcherWith(st, func(f *types.Var, z av) av {
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			return tm.mapOf(st)
		}
		return z
	})
}

func (tm *termModel) coreRuns() []coreRun {
	p, ai := tm.p, tm.ai
	fn := p.method("coreMatcher", "addPattern")
	kinds := p.constsOf("valType")
	modes := p.constsOf("MatcherBuildMode")
	if fn == nil || len(kinds) == 0 || len(modes) == 0 {
		ai.undecided("addPattern or the kinds of values aren't found")
	}
	names := sortedNames(kinds)
	var et, ef string
	for _, n := range names {
		if strings.HasPrefix(n, "exists") {
			if strings.Contains(n, "True") {
				et = n
			} else {
				ef = n
			}
		}
	}
	if et == "" || ef == "" {
		ai.undecided("the kinds for exists aren't found")
	}
	saved := tm.extra
	defer func() { tm.extra = saved }()
	var out []coreRun
	for _, sc := range coreScenarios(et, ef, names) {
		st := ai.newState()
		st.base = ai.base
		run := coreRun{sc: sc, x: aOpaque{id: -1, tag: "X new"}, vals: map[string][]av{}}
		pfT, tvT := p.namedType("patternField"), p.namedType("typedVal")
		var fields []av
		for _, f := range sc.fields {
			var vals []av
			for i, k := range f.kinds {
				vals = append(vals, tm.structValue(tvT, func(fl *types.Var, z av) av {
					switch {
					case namedName(fl.Type()) == "valType":
						return kinds[k]
					case isKind(fl.Type(), types.String):
						return fmt.Sprintf("%s %d %s", f.path, i, k)
					}
					return z
				}))
			}
			run.vals[f.path] = vals
			var vs av = aNil{}
			if len(vals) > 0 {
				vs = ai.newSlice(st, vals)
			}
			fields = append(fields, aPtr{cell: ai.cell(st, tm.structValue(pfT, func(fl *types.Var, z av) av {
				if isKind(fl.Type(), types.String) {
					return f.path
				}
				return vs
			}))})
		}
		run.vmOld = aPtr{cell: ai.cell(st, ai.zero(p.namedType("valueMatcher")))}
		for i := range run.fmE {
			run.fmE[i] = tm.fieldMatcherWith(st, func(f *types.Var, z av) av {
				if _, ok := f.Type().Underlying().(*types.Map); ok {
					return tm.mapOf(st)
				}
				if f.Name() == "matches" {
					return ai.newSlice(st, []av{aOpaque{id: -20 - i, tag: fmt.Sprint("X e", i)}})
				}
				return z
			})
		}
		run.fm0 = tm.fieldMatcherWith(st, func(f *types.Var, z av) av {
			switch f.Name() {
			case "transitions":
				return tm.mapOf(st, "old", run.vmOld)
			case "existsTrue":
				return tm.mapOf(st, "e1", run.fmE[0])
			case "existsFalse":
				return tm.mapOf(st, "e2", run.fmE[1])
			case "matches":
				return ai.newSlice(st, []av{aOpaque{id: -10, tag: "X old"}})
			}
			return z
		})
		run.trees = tm.segments(st, "old", "in\ndeep")
		cfP := aPtr{cell: ai.cell(st, tm.structValue(p.namedType("coreFields"), func(f *types.Var, z av) av {
			switch {
			case isPtrToNamed(f.Type(), "fieldMatcher"):
				return run.fm0
			case isPtrToNamed(f.Type(), "segmentsTree"):
				return run.trees
			}
			return z
		}))}
		run.cm = aPtr{cell: ai.cell(st, tm.structValue(p.namedType("coreMatcher"), func(f *types.Var, z av) av {
			switch {
			case strings.Contains(f.Type().String(), "atomic.Pointer"):
				return cfP
			case isPtrToNamed(f.Type(), "closureBuffers"):
				run.scratch = ai.cell(st, ai.zero(p.namedType("closureBuffers")))
				return aPtr{cell: run.scratch}
			}
			return z
		}))}
		tm.extra = func(st *aState, fn *ssa.Function, name string, args []av, in ssa.CallInstruction) (av, bool) {
			switch {
			case fn.Name() == "patternFromJSON" && p.isOurs(fn):
				var fs av = aNil{}
				if len(fields) > 0 {
					fs = ai.newSlice(st, fields)
				}
				var e av = aNil{}
				if sc.err {
					e = aOpaque{id: -2, tag: "error invalid pattern"}
				}
				st.log = append(st.log, aEvent{name: "read", in: in})
				return aTuple{[]av{fs, e}}, true
			case tm.isValueAdder(fn):
				ev := aEvent{name: "value", in: in}
				for i, t := range params(fn) {
					switch {
					case isPtrToNamed(t, "valueMatcher"):
						ev.args = append([]av{args[i]}, ev.args...)
					case namedName(t) == "typedVal":
						ev.args = append(ev.args, args[i])
					case isPtrToNamed(t, "typedVal"):
						if q, ok := args[i].(aPtr); ok {
							ev.args = append(ev.args, aGet(st.load(q.cell), q.path))
						}
					}
				}
				ev.res = tm.emptyFM(st)
				st.log = append(st.log, ev)
				return ev.res, true
			}
			return nil, false
		}
		run.before = st.clone()
		args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
			switch {
			case isPtrToNamed(t, "coreMatcher"):
				return run.cm, true
			case namedName(t) == "X" || t.String() == "any" || t.String() == "interface{}":
				return run.x, true
			case isKind(t, types.String):
				return "the pattern", true
			case namedName(t) == "MatcherBuildMode":
				return modes[sortedNames(modes)[0]], true
			}
			return nil, false
		})
		np := len(ai.problem)
		outs := ai.run(st, fn, args)
		run.probs = append(run.probs, ai.problem[np:]...)
		if len(outs) == 0 {
			out = append(out, run)
		}
		for _, o := range outs {
			r := run
			r.st = o
			if len(o.result) > 0 {
				r.err = o.result[len(o.result)-1]
			}
			out = append(out, r)
		}
	}
	return out
}

// segments makes a tree of paths by the package's own functions
func (tm *termModel) segments(st *aState, paths ...string) av {
	p, ai := tm.p, tm.ai
	var mk *ssa.Function
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil && len(results(f)) == 1 && isPtrToNamed(results(f)[0], "segmentsTree") && f.Signature.Variadic() && len(params(f)) == 1 {
			mk = f
		}
	}
	if mk == nil {
		ai.undecided("no function that makes a tree of paths")
	}
	var el []av
	for _, s := range paths {
		el = append(el, s)
	}
	outs := ai.run(st, mk, []av{ai.newSlice(st, el)})
	if len(outs) != 1 || outs[0] != st || len(st.result) != 1 {
		ai.undecided("the making of a tree of paths has %d outcomes", len(outs))
	}
	r := st.result[0]
	st.result = nil
	return r
}

// loadFields gives the content that an atomic pointer in a matcher leads to
func (tm *termModel) loadFields(st *aState, v av) (aAgg, bool) {
	q, ok := v.(aPtr)
	if !ok {
		return aAgg{}, false
	}
	a, ok := aGet(st.load(q.cell), q.path).(aAgg)
	if !ok {
		return aAgg{}, false
	}
	for _, f := range a.f {
		if fp, ok := f.(aPtr); ok {
			if c, ok := aGet(st.load(fp.cell), fp.path).(aAgg); ok {
				return c, true
			}
		}
	}
	return aAgg{}, false
}

func (tm *termModel) mapGet(st *aState, m av, key string) av {
	a, ok := m.(aMap)
	if !ok {
		return nil
	}
	c, ok := st.load(a.cell).(*aMapCell)
	if !ok {
		return nil
	}
	if i, ok := c.idx["s"+key]; ok {
		return c.vals[i]
	}
	return nil
}

func (tm *termModel) fmField(st *aState, fm av, name string) av {
	a, ok := tm.loadFields(st, fm)
	i := fieldNamed(tm.p.namedType("fmFields"), name)
	if !ok || i < 0 {
		return aUnk{"field matcher's " + name}
	}
	return a.f[i]
}

func (tm *termModel) hasMatch(st *aState, fm av, x av) bool {
	el, ok := tm.ai.elems(st, tm.fmField(st, fm, "matches"))
	if !ok {
		return false
	}
	for _, e := range el {
		if termKey(e) == termKey(x) {
			return true
		}
	}
	return false
}

// checkCore checks what adding a pattern to a core matcher does; part chooses the obligations
func (tm *termModel) checkCore(r *Report, part string) {
	p := tm.p
	fn := p.method("coreMatcher", "addPattern")
	where := p.pos(fn.Pos())
	runs := tm.coreRuns()
	n := 0
	for i := range runs {
		run := &runs[i]
		name := run.sc.name
		n++
		if run.st == nil {
			r.fail("pattern", name, where, "adding the pattern has no outcome: "+strings.Join(run.probs, "; "))
			continue
		}
		if len(run.probs) > 0 {
			r.fail("pattern", name, where, "adding the pattern can panic: "+run.probs[0])
		}
		for _, m := range run.st.marks {
			r.fail("pattern", name, where, "undecided: "+m)
		}
		_, noErr := run.err.(aNil)
		switch part {
		case "rejected":
			pubs, at := 0, where
			for _, e := range run.st.log {
				if e.name == "publish" || e.name == "value" {
					pubs++
					at = p.pos(instrPos(e.in))
				}
			}
			if run.sc.err {
				r.check(!noErr, "error returned", name, where, "AddPattern reports that the pattern is invalid")
				r.check(pubs == 0, "nothing published", name, at, "an invalid pattern changes nothing")
				r.check(tm.sameShared(run), "nothing changed", name, at, "an invalid pattern leaves the matcher as it was")
			} else {
				r.check(noErr, "accepted", name, where, "a valid pattern is accepted")
			}
		case "kinds":
			if run.sc.err {
				continue
			}
			if !noErr {
				r.fail("accepted", name, where, "a valid pattern isn't accepted")
				continue
			}
			tm.checkBuilt(r, run, where)
		case "kept":
			if run.sc.err {
				continue
			}
			tm.checkKept(r, run, where)
		}
	}
	r.floor("patterns added", n, 20)
}

// sameShared says if the matcher's memory is as it was, closure buffers aside
func (tm *termModel) sameShared(run *coreRun) bool {
	for c, v := range run.before.written() {
		if c == run.scratch {
			continue
		}
		if m, ok := v.(*aMapCell); ok {
			w, ok := run.st.load(c).(*aMapCell)
			if !ok || len(m.keys) != len(w.keys) {
				return false
			}
			for i := range m.vals {
				if termKey(m.vals[i]) != termKey(w.vals[i]) {
					return false
				}
			}
			continue
		}
		if termKey(v) != termKey(run.st.load(c)) {
			return false
		}
	}
	return true
}

// checkBuilt: from the published start, each of the pattern's values leads on to the next field, and after the last the pattern's X
// is reported; the published tree of paths has each path
func (tm *termModel) checkBuilt(r *Report, run *coreRun, where string) {
	p := tm.p
	st, name := run.st, run.sc.name
	cf, ok := tm.loadFields(st, run.cm)
	if !ok {
		r.fail("published", name, where, "what is published isn't known")
		return
	}
	cfT := p.namedType("coreFields")
	state := cf.f[fieldIx(cfT, func(v *types.Var) bool { return isPtrToNamed(v.Type(), "fieldMatcher") })]
	tree := cf.f[fieldIx(cfT, func(v *types.Var) bool { return isPtrToNamed(v.Type(), "segmentsTree") })]
	var fields []fieldSpec
	fields = append(fields, run.sc.fields...)
	sort.Slice(fields, func(i, j int) bool { return fields[i].path < fields[j].path })
	cur := map[string]av{termKey(state): state}
	all := map[string]av{termKey(state): state}
	dead := len(fields) == 0
	for _, f := range fields {
		next := map[string]av{}
		if len(f.kinds) == 0 {
			dead = true
		}
		if dead {
			break
		}
		for _, k := range sortedKeys(cur) {
			fm := cur[k]
			for i, kind := range f.kinds {
				what := fmt.Sprintf("%s: %s value of %q", name, kind, f.path)
				var to []av
				switch {
				case strings.HasPrefix(kind, "exists"):
					m := "existsFalse"
					if strings.Contains(kind, "True") {
						m = "existsTrue"
					}
					if v := tm.mapGet(st, tm.fmField(st, fm, m), f.path); v != nil {
						to = append(to, v)
					}
				default:
					vm := tm.mapGet(st, tm.fmField(st, fm, "transitions"), f.path)
					for _, e := range st.log {
						if e.name == "value" && vm != nil && termKey(e.args[0]) == termKey(vm) && len(e.args) > 1 && termKey(e.args[1]) == termKey(run.vals[f.path][i]) {
							to = append(to, e.res)
						}
					}
				}
				r.check(len(to) > 0, "value", what, where, "the value was added to what is published for its field")
				for _, t := range to {
					next[termKey(t)] = t
					all[termKey(t)] = t
				}
			}
		}
		cur = next
	}
	for _, k := range sortedKeys(all) {
		if len(fields) == 0 {
			break // what such a pattern means isn't defined
		}
		has := tm.hasMatch(st, all[k], run.x)
		end := cur[k] != nil && !dead
		if end {
			r.check(has, "end", name, where, "the pattern's X is reported after its last field")
		} else {
			r.check(!has, "not before the end", name, where, "the pattern's X isn't reported before its last field")
		}
	}
	// each published value matcher and field that was changed is reached: what was built elsewhere is lost
	for _, f := range run.sc.fields {
		ok, why := tm.treeHas(st, tree, f.path)
		r.check(ok, "path", fmt.Sprintf("%s: %q", name, f.path), where, why)
	}
}

// treeHas walks the tree of paths with the tracker's methods, as a flattener does
func (tm *termModel) treeHas(st *aState, tree av, path string) (bool, string) {
	p, ai := tm.p, tm.ai
	call := func(name string, recv av, seg string) []av {
		f := p.method("segmentsTree", name)
		if f == nil {
			ai.undecided("the tree has no method %s", name)
		}
		s := st.clone()
		var el []av
		for _, b := range []byte(seg) {
			el = append(el, int64(b))
		}
		outs := ai.run(s, f, []av{recv, ai.newSlice(s, el)})
		if len(outs) != 1 {
			return nil
		}
		res := append([]av(nil), outs[0].result...)
		for i, v := range res {
			if e, ok := ai.elems(outs[0], v); ok {
				t := ""
				for _, c := range e {
					if b, ok := c.(int64); ok {
						t += string(rune(b))
					}
				}
				res[i] = t
			}
		}
		return res
	}
	segs := strings.Split(path, "\n")
	node := tree
	for i, s := range segs {
		used := call("IsSegmentUsed", node, s)
		if len(used) != 1 || used[0] != true {
			return false, fmt.Sprintf("the tree of paths says that %q isn't used", s)
		}
		if i == len(segs)-1 {
			got := call("PathForSegment", node, s)
			if len(got) != 1 || got[0] != path {
				return false, fmt.Sprintf("the tree of paths gives %v for %q", got, path)
			}
			return true, "the published tree of paths leads to the path"
		}
		n := call("Get", node, s)
		if len(n) != 2 || n[1] != true {
			return false, fmt.Sprintf("the tree of paths has no node %q", s)
		}
		node = n[0]
		if v, ok := node.(aIface); ok {
			node = v.v
		}
	}
	return false, "an empty path"
}

// checkKept: what was in the matcher before is in it afterwards
func (tm *termModel) checkKept(r *Report, run *coreRun, where string) {
	p := tm.p
	st, name := run.st, run.sc.name
	cf, ok := tm.loadFields(st, run.cm)
	if !ok {
		r.fail("published", name, where, "what is published isn't known")
		return
	}
	old, _ := tm.loadFields(run.before, run.cm)
	tm.keptFields(r, run, "the matcher", p.namedType("coreFields"), old, cf, where)
	cfT := p.namedType("coreFields")
	tree := cf.f[fieldIx(cfT, func(v *types.Var) bool { return isPtrToNamed(v.Type(), "segmentsTree") })]
	for _, path := range []string{"old", "in\ndeep"} {
		ok, why := tm.treeHas(st, tree, path)
		r.check(ok, "kept path", fmt.Sprintf("%s: %q", name, path), where, why)
	}
	for _, q := range []struct {
		what string
		fm   aPtr
	}{{"the start", run.fm0}, {"the state behind an existsTrue", run.fmE[0]}, {"the state behind an existsFalse", run.fmE[1]}} {
		a, ok1 := tm.loadFields(run.before, q.fm)
		b, ok2 := tm.loadFields(st, q.fm)
		if !ok1 || !ok2 {
			r.fail("kept", name+": "+q.what, where, "its fields aren't known")
			continue
		}
		tm.keptFields(r, run, q.what, p.namedType("fmFields"), a, b, where)
	}
}

// keptFields compares two versions of a struct: maps and slices keep what they have, pointers stay
func (tm *termModel) keptFields(r *Report, run *coreRun, what string, t types.Type, old, nu aAgg, where string) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		c := fmt.Sprintf("%s: %s of %s", run.sc.name, f.Name(), what)
		switch ft := f.Type().Underlying().(type) {
		case *types.Map:
			a, ok := old.f[i].(aMap)
			if !ok {
				continue
			}
			m := run.before.load(a.cell).(*aMapCell)
			lost := ""
			for j, k := range m.keys {
				ks, _ := k.(string)
				v := tm.mapGet(run.st, nu.f[i], ks)
				if v == nil || termKey(v) != termKey(m.vals[j]) {
					lost = fmt.Sprintf("its entry for %q is lost", ks)
				}
			}
			r.check(lost == "", "kept", c, where, orOK(lost, "keeps its entries"))
		case *types.Slice:
			a, ok1 := tm.ai.elems(run.before, old.f[i])
			b, ok2 := tm.ai.elems(run.st, nu.f[i])
			ok := ok1 && ok2
			for _, x := range a {
				found := false
				for _, y := range b {
					found = found || termKey(x) == termKey(y)
				}
				ok = ok && found
			}
			r.check(ok, "kept", c, where, "keeps its elements")
		case *types.Pointer:
			if namedName(ft.Elem()) == "fieldMatcher" {
				r.check(termKey(old.f[i]) == termKey(nu.f[i]), "kept", c, where, "is the same state")
			}
		}
	}
}

// checkValues checks what adding a value to a value matcher does
func (tm *termModel) checkValues(r *Report, part string) {
	p, ai := tm.p, tm.ai
	fn := p.method("valueMatcher", "addTransition")
	where := p.pos(fn.Pos())
	runs := tm.addRuns()
	vfT := p.namedType("vmFields")
	ix := func(n string) int {
		i := fieldNamed(vfT, n)
		if i < 0 {
			ai.undecided("vmFields has no %s", n)
		}
		return i
	}
	start, sm, st1, nums := ix("start"), ix("singletonMatch"), ix("singletonTransition"), ix("hasNumbers")
	sigs := map[string]map[string]bool{}
	n := 0
	for i := range runs {
		run := &runs[i]
		n++
		name := run.name()
		if run.st == nil {
			r.fail("value", name, where, "adding the value panics: "+strings.Join(run.panics, "; "))
			continue
		}
		if len(run.panics) > 0 {
			r.fail("value", name, where, "adding the value can panic: "+run.panics[0])
		}
		for _, m := range run.st.marks {
			r.fail("value", name, where, "undecided: "+m)
		}
		pub := tm.publishedFields(run)
		cur := run.old
		if len(pub) > 0 {
			cur = pub[len(pub)-1]
		}
		isNil := func(v av) bool { _, ok := v.(aNil); return ok }
		textIs := func(v av, text av) bool {
			if plainKey(v) == plainKey(text) {
				return true
			}
			// known to be equal
			return ai.knownEqual(run.st, v, text)
		}
		var terms []aOpaque
		if !isNil(cur.f[start]) {
			terms = subterms(tm.autoTerm(run.st, cur.f[start]))
		}
		inStart := func(id int) bool {
			for _, t := range terms {
				if t.id == id {
					return true
				}
			}
			return false
		}
		switch part {
		case "kinds":
			var how, sig string
			if isNil(cur.f[start]) && run.result != nil && termKey(cur.f[st1]) == termKey(run.result) && textIs(cur.f[sm], run.text) {
				how, sig = "it is the one string", "makeStringFA"
			}
			for _, e := range run.st.log {
				if e.name != "built" || run.result == nil || termKey(e.res) != termKey(run.result) {
					continue
				}
				t := e.note.(aOpaque)
				if !inStart(t.id) || !tm.usesValue(t, run) {
					continue
				}
				how = fmt.Sprint("built by ", t.wrap[0])
				sig = fmt.Sprint(t.wrap[0])
				for _, a := range t.args {
					if _, ok := a.(int64); ok {
						sig += fmt.Sprint(" ", a)
					}
				}
			}
			if how == "" {
				r.fail("value", name, where, "what is published doesn't have an automaton of this value that leads to the state that is returned")
				continue
			}
			r.pass("value", name, where, how)
			if sigs[sig] == nil {
				sigs[sig] = map[string]bool{}
			}
			sigs[sig][run.kind] = true
			if run.kind == "numberType" {
				r.check(cur.f[nums] == true, "numbers", name, where, "that there are numbers is published")
			}
		case "kept":
			if !isNil(run.old.f[start]) {
				ok := !isNil(cur.f[start]) && inStart(tm.autoTerm(run.st, run.old.f[start]).(aOpaque).id)
				r.check(ok, "kept values", name, where, "the automaton that is published is made from the old one as well")
			}
			if !isNil(run.old.f[st1]) {
				ok := false
				if !isNil(cur.f[st1]) && isNil(cur.f[start]) {
					ok = termKey(cur.f[st1]) == termKey(run.old.f[st1]) && termKey(cur.f[sm]) == termKey(run.old.f[sm])
				}
				for _, e := range run.st.log {
					if e.name != "built" || !inStart(e.note.(aOpaque).id) || termKey(e.res) != termKey(run.old.f[st1]) {
						continue
					}
					for _, a := range e.note.(aOpaque).args {
						if plainKey(a) == plainKey(run.old.f[sm]) {
							ok = isNil(cur.f[st1])
						}
					}
				}
				r.check(ok, "kept values", name, where, "the one string that was there still leads to its state")
			}
			if run.old.f[nums] == true {
				r.check(cur.f[nums] == true, "kept numbers", name, where, "that there are numbers is still known")
			}
		}
	}
	if part == "kinds" {
		text := map[string]bool{"stringType": true, "literalType": true, "numberType": true}
		for _, s := range sortedKeys(sigs) {
			var ks []string
			own := true
			for _, k := range sortedKeys(sigs[s]) {
				ks = append(ks, k)
				own = own && text[k]
			}
			r.check(len(ks) == 1 || own, "own kind", strings.Join(ks, ", "), where, "built by "+s)
		}
	}
	r.floor("values added", n, 100)
}

// usesValue says if a built automaton was made from the run's value
func (tm *termModel) usesValue(t aOpaque, run *addRun) bool {
	keys := map[string]bool{plainKey(run.val): true, plainKey(run.text): true}
	for _, f := range run.val.(aAgg).f {
		if o, ok := f.(aOpaque); ok {
			keys[plainKey(o)] = true
		}
	}
	for _, a := range t.args {
		if keys[plainKey(a)] {
			return true
		}
		if q, ok := a.(aPtr); ok && keys[plainKey(aGet(run.st.load(q.cell), q.path))] {
			return true
		}
	}
	return false
}

func checkC22(p *Prog, r *Report) {
	r.rule = "each kind of value is added to what is published, as its own kind, and leads on to the rest of its pattern"
	r.explain = "Abstract interpretation of the value matcher's addTransition for each constant of the type of kinds, each previous content and each build mode, with the builders as terms: what is published afterwards must contain the builder's term for the value and its kind, and what is returned must be the state that term leads to. Then of the core matcher's addPattern for fields with one or two values, two fields and each form of exists: each value is handed to a value matcher that hangs in what was published, and the last one leads to the X."
	r.notCovered = "what the builders make of a value's text (C16, C18, C25, N01)"
	tm := newTermModel(p)
	tm.checkValues(r, "kinds")
	tm.checkCore(r, "kinds")
}

func checkC13(p *Prog, r *Report) {
	r.rule = "nothing is published or changed before the whole pattern has been read and found valid"
	r.explain = "Abstract interpretation of the core matcher's and the pruner's addPattern with a reader that fails: each path on which it fails has to return the error, publish nothing, change nothing reachable from the matcher and release its locks. Points-to analysis of the pattern reader: each of its writes, in each calling context, hits only memory it allocated."
	r.notCovered = "pattern stores supplied by the user, whose Add can fail after the pattern was built"
	tm := newTermModel(p)
	tm.checkCore(r, "rejected")
	tm.checkPruner(r, "rejected")
	// reading a pattern writes only what it allocates
	m := analyse(p, "patternFromJSON")
	m.reportProblems(r)
	cl := p.classifier(m.pta)
	n := 0
	m.each(func(i *inst, in ssa.Instruction) {
		for _, ac := range m.accesses(i, in) {
			if !ac.write {
				continue
			}
			n++
			if c := cl.class(m.pta, ac.l); c != clFresh {
				r.fail("reader writes", p.fname(i.fn)+" / "+ac.what, m.where(i, in), "reading a pattern can write "+ac.l.String()+", via "+i.chain())
			}
		}
	})
	r.pass("reader writes", "all writes", "-", fmt.Sprintf("%d writes examined", n))
	r.floor("writes of the pattern reader", n, 40)
}

func checkC24(p *Prog, r *Report) {
	r.rule = "what is reported is live; what replaces the matcher was built from what is live; a deleted X can't come back with its old patterns"
	r.explain = "Abstract interpretation of the pruner's addPattern, deletePatterns, matchesForFields and rebuild with symbolic X values, matches and live sets (the library's own store, and an arbitrary one), with and without a rebuild policy: each match that is returned was in the live set when asked after the automaton gave it; what replaces the matcher was given each live pattern and none else, in its build mode, without an error; after deletePatterns the X isn't in the live set, and adding an X again doesn't bring old patterns back."
	r.notCovered = "live sets of more than three patterns and events with more than two matches are covered by the loops' being the same for each element, which isn't shown"
	tm := newTermModel(p)
	tm.checkPruner(r, "deleted")
}

func (ai *aInterp) knownEqual(st *aState, v, w av) bool {
	a, b := plainKey(v), plainKey(w)
	if a > b {
		a, b = b, a
	}
	if id, ok := ai.preds["bytes "+a+"="+b]; ok {
		if x, ok := st.dom[id].single(); ok && x == 1 {
			return true
		}
	}
	return false
}

// plainKey is the key of a term, conversions between strings and bytes aside
func plainKey(v av) string {
	if o, ok := v.(aOpaque); ok && o.tag == "conv" {
		return plainKey(o.args[0])
	}
	return termKey(v)
}
