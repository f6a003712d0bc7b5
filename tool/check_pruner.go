package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The matcher that supports deletion, interpreted with the matcher inside as something whose calls are logged, and with
// the package's own store of live patterns or an unknown one.

type liveEntry struct {
	x       av
	pattern string
	mode    int64
}

type prunerSetup struct {
	name     string
	opaque   bool // the store of live patterns isn't the package's own
	trigger  bool
	entries  []liveEntry
	gone     []av // deleted, not yet purged
	inner    aPtr
	live     av
	trigg    av
	m        aPtr
	xs       []av
	innerErr aOpaque
}

func xOf(n string) aOpaque {
	id := 0
	for _, c := range n {
		id = id*131 + int(c)
	}
	return aOpaque{id: -1000 - id, tag: "X " + n}
}

func (tm *termModel) pruner(st *aState, ps *prunerSetup) {
	p, ai := tm.p, tm.ai
	ps.inner = aPtr{cell: ai.cell(st, ai.zero(p.namedType("coreMatcher")))}
	ps.innerErr = aOpaque{id: -3, tag: "error of the matcher"}
	if ps.opaque {
		ps.live = aOpaque{id: -4, tag: "the live patterns"}
	} else {
		eT, mT := p.namedType("memStateEntry"), p.namedType("memState")
		if eT == nil || mT == nil {
			ai.undecided("the store of live patterns isn't found")
		}
		var el []av
		for _, e := range ps.entries {
			el = append(el, tm.structValue(eT, func(f *types.Var, z av) av {
				switch {
				case isKind(f.Type(), types.String):
					return e.pattern
				case namedName(f.Type()) == "MatcherBuildMode":
					return e.mode
				}
				if _, ok := f.Type().Underlying().(*types.Interface); ok {
					return e.x
				}
				return z
			}))
		}
		ms := tm.structValue(mT, func(f *types.Var, z av) av {
			if s, ok := f.Type().Underlying().(*types.Slice); ok && namedName(s.Elem()) == "memStateEntry" && len(el) > 0 {
				return ai.newSlice(st, el)
			}
			return z
		})
		ps.live = aIface{t: types.NewPointer(mT), v: aPtr{cell: ai.cell(st, ms)}}
	}
	if ps.trigger {
		ps.trigg = aOpaque{id: -5, tag: "the rebuild policy"}
	} else {
		ps.trigg = aNil{}
	}
	ps.m = aPtr{cell: ai.cell(st, tm.structValue(p.namedType("prunerMatcher"), func(f *types.Var, z av) av {
		switch {
		case isPtrToNamed(f.Type(), "coreMatcher"):
			return ps.inner
		case namedName(f.Type()) == "LivePatternsState":
			return ps.live
		case namedName(f.Type()) == "rebuildTrigger":
			return ps.trigg
		case namedName(f.Type()) == "prunerStats":
			return tm.structValue(p.namedType("prunerStats"), func(f *types.Var, z av) av {
				if k, ok := z.(int64); ok {
					return aGrown{k}
				}
				return z
			})
		}
		if m, ok := f.Type().Underlying().(*types.Map); ok && isKind(m.Elem(), types.Bool) {
			var kv []av
			for _, x := range ps.gone {
				kv = append(kv, x, true)
			}
			return tm.mapOf(st, kv...)
		}
		return z
	}))}
}

type prunerRun struct {
	ps   prunerSetup
	op   string
	x    av
	mode int64
	st   *aState
	err  av
	res  av
}

func (tm *termModel) prunerField(st *aState, ps *prunerSetup, is func(*types.Var) bool) av {
	a, ok := st.load(ps.m.cell).(aAgg)
	i := fieldIx(tm.p.namedType("prunerMatcher"), is)
	if !ok || i < 0 {
		return aUnk{"field of the matcher"}
	}
	return a.f[i]
}

func (tm *termModel) prunerInner(st *aState, ps *prunerSetup) av {
	return tm.prunerField(st, ps, func(f *types.Var) bool { return isPtrToNamed(f.Type(), "coreMatcher") })
}

// marked says if an X is remembered as one whose patterns are still in the matcher
func (tm *termModel) marked(st *aState, ps *prunerSetup, x av) bool {
	m := tm.prunerField(st, ps, func(f *types.Var) bool {
		m, ok := f.Type().Underlying().(*types.Map)
		return ok && isKind(m.Elem(), types.Bool)
	})
	a, ok := m.(aMap)
	if !ok {
		return false
	}
	c, ok := st.load(a.cell).(*aMapCell)
	if !ok {
		return false
	}
	k, _ := tm.ai.key(x)
	i, ok := c.idx[k]
	return ok && c.vals[i] == true
}

// liveNow lists the entries of the package's own store
func (tm *termModel) liveNow(st *aState, ps *prunerSetup) ([]liveEntry, bool) {
	l, ok := tm.prunerField(st, ps, func(f *types.Var) bool { return namedName(f.Type()) == "LivePatternsState" }).(aIface)
	if !ok {
		return nil, false
	}
	q, ok := l.v.(aPtr)
	if !ok {
		return nil, false
	}
	a, ok := aGet(st.load(q.cell), q.path).(aAgg)
	if !ok {
		return nil, false
	}
	mT, eT := tm.p.namedType("memState"), tm.p.namedType("memStateEntry")
	i := fieldIx(mT, func(f *types.Var) bool {
		s, ok := f.Type().Underlying().(*types.Slice)
		return ok && namedName(s.Elem()) == "memStateEntry"
	})
	if i < 0 {
		return nil, false
	}
	el, ok := tm.ai.elems(st, a.f[i])
	if !ok {
		return nil, false
	}
	var out []liveEntry
	for _, e := range el {
		ea, ok := e.(aAgg)
		if !ok {
			return nil, false
		}
		var le liveEntry
		s := eT.Underlying().(*types.Struct)
		for j := 0; j < s.NumFields(); j++ {
			switch v := ea.f[j].(type) {
			case string:
				le.pattern = v
			case int64:
				le.mode = v
			default:
				le.x = v
			}
		}
		out = append(out, le)
	}
	return out, true
}

func entryKey(x av, pattern string, mode int64) string {
	return fmt.Sprint(termKey(x), "|", pattern, "|", mode)
}

func (tm *termModel) prunerCall(fn *ssa.Function, ps prunerSetup, op string, x av, mode int64, given func(st *aState, t types.Type) (av, bool)) []prunerRun {
	ai := tm.ai
	savedX, savedC := tm.extra, ai.extCall
	defer func() { tm.extra, ai.extCall = savedX, savedC }()
	st := ai.newState()
	st.base = ai.base
	tm.pruner(st, &ps)
	tm.extra = func(st *aState, fn *ssa.Function, name string, args []av, in ssa.CallInstruction) (av, bool) {
		if fn.Signature.Recv() == nil || !isPtrToNamed(fn.Signature.Recv().Type(), "coreMatcher") {
			return nil, false
		}
		switch {
		case strings.HasPrefix(fn.Name(), "addPattern"):
			ok, decided := tm.choose(st, fmt.Sprint("inner add ", len(st.log)))
			if !decided {
				return nil, true
			}
			var e av = aNil{}
			if !ok {
				e = ps.innerErr
			}
			st.log = append(st.log, aEvent{name: "inner add", args: args, res: e, in: in})
			return e, true
		case strings.HasPrefix(fn.Name(), "matchesFor"):
			ok, decided := tm.choose(st, fmt.Sprint("inner match ", len(st.log)))
			if !decided {
				return nil, true
			}
			st.log = append(st.log, aEvent{name: "inner match", args: args, res: ok, in: in})
			if !ok {
				return aTuple{[]av{aNil{}, ps.innerErr}}, true
			}
			return aTuple{[]av{ai.newSlice(st, ps.xs), aNil{}}}, true
		}
		return nil, false
	}
	defer func(g bool) { ai.grow = g }(ai.grow)
	ai.grow = true
	ai.extCall = func(ai *aInterp, st *aState, args []av, in ssa.CallInstruction) (av, bool) {
		c := in.Common()
		if !c.IsInvoke() || len(args) == 0 {
			return nil, false
		}
		o, ok := args[0].(aOpaque)
		if !ok {
			return nil, false
		}
		key := fmt.Sprint(o.tag, " ", c.Method.Name(), " ", len(st.log))
		switch {
		case o.id == -5:
			b, decided := tm.choose(st, key)
			if !decided {
				return nil, true
			}
			st.log = append(st.log, aEvent{name: "policy", args: args, res: b, in: in})
			return b, true
		case o.id == -4:
			good, decided := tm.choose(st, key)
			if !decided {
				return nil, true
			}
			rs := c.Signature().Results()
			var out []av
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				switch {
				case isErrorType(t):
					var e av = aNil{}
					if !good {
						e = aOpaque{id: -6, tag: "error of the live patterns"}
					}
					out = append(out, e)
				case isKind(t, types.Bool):
					b, decided := tm.choose(st, key+" found")
					if !decided {
						return nil, true
					}
					out = append(out, b)
				case isKind(t, types.Int):
					b, decided := tm.choose(st, key+" some")
					if !decided {
						return nil, true
					}
					n := int64(0)
					if b {
						n = 2
					}
					out = append(out, n)
				default:
					out = append(out, aUnk{"result"})
				}
			}
			ev := aEvent{name: "live " + c.Method.Name(), args: args[1:], in: in, note: good}
			if len(out) > 1 {
				ev.res = out[0]
			}
			st.log = append(st.log, ev)
			if len(out) == 1 {
				return out[0], true
			}
			return aTuple{out}, true
		}
		return nil, false
	}
	args := tm.argsFor(st, fn, func(t types.Type) (av, bool) {
		if isPtrToNamed(t, "prunerMatcher") {
			return ps.m, true
		}
		if namedName(t) == "X" {
			return x, true
		}
		if namedName(t) == "MatcherBuildMode" {
			return mode, true
		}
		if given != nil {
			return given(st, t)
		}
		return nil, false
	})
	np := len(ai.problem)
	outs := ai.run(st, fn, args)
	var out []prunerRun
	for _, o := range outs {
		r := prunerRun{ps: ps, op: op, x: x, mode: mode, st: o}
		if n := len(o.result); n > 0 {
			r.err = o.result[n-1]
			r.res = o.result[0]
		}
		out = append(out, r)
	}
	if len(ai.problem) > np {
		ai.undecided("%s can panic: %s", op, ai.problem[np])
	}
	return out
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (tm *termModel) checkPruner(r *Report, part string) {
	p := tm.p
	add := p.method("prunerMatcher", "addPattern")
	del := p.method("prunerMatcher", "deletePatterns")
	match := p.method("prunerMatcher", "matchesForFields")
	rebuild := p.method("prunerMatcher", "rebuildWhileLocked")
	contains := p.method("memState", "Contains")
	if add == nil || del == nil || match == nil || rebuild == nil || contains == nil {
		r.fail("anchor", "prunerMatcher", "-", "a method isn't found")
		return
	}
	xa, xb, xd, xn := xOf("a"), xOf("b"), xOf("deleted"), xOf("new")
	entries := []liveEntry{{xa, "pattern a", 0}, {xb, "pattern b", 1}, {xa, "pattern a2", 1}}
	n := 0
	fin := func(run *prunerRun) (string, bool) {
		n++
		name := fmt.Sprintf("%s, %s", run.op, run.ps.name)
		for _, m := range run.st.marks {
			r.fail("undecided", name, "-", m)
		}
		_, ok := run.err.(aNil)
		return name, ok
	}
	at := func(f *ssa.Function) string { return p.pos(f.Pos()) }
	// innerAdds are the patterns that were added to a matcher
	innerAdds := func(run *prunerRun, m av) (map[string]int, map[string]int) {
		out, failed := map[string]int{}, map[string]int{}
		for _, e := range run.st.log {
			if e.name != "inner add" || termKey(e.args[0]) != termKey(m) {
				continue
			}
			var x av
			pat, mode := "?", int64(-1)
			f := p.method("coreMatcher", "addPattern")
			for i, t := range params(f)[1:] {
				switch {
				case isKind(t, types.String):
					pat, _ = e.args[i+1].(string)
				case namedName(t) == "MatcherBuildMode":
					mode, _ = e.args[i+1].(int64)
				case i == 0:
					x = e.args[i+1]
				}
			}
			if _, ok := e.res.(aNil); !ok {
				failed[entryKey(x, pat, mode)]++
				continue
			}
			out[entryKey(x, pat, mode)]++
		}
		return out, failed
	}
	// afterwards: what replaced the matcher has each live pattern, and if nothing replaced it the deleted ones are remembered
	afterwards := func(run *prunerRun, name, where string, gone []av, fearless bool) {
		if part != "deleted" {
			return
		}
		m := tm.prunerInner(run.st, &run.ps)
		if _, isNil := m.(aNil); isNil {
			r.fail("matcher", name, where, "there's no matcher left")
			return
		}
		if termKey(m) == termKey(run.ps.inner) {
			for _, x := range gone {
				r.check(tm.marked(run.st, &run.ps, x), "deleted remembered", name, where, "the X of deleted patterns that are still in the matcher are remembered")
			}
			return
		}
		if run.ps.opaque {
			bad := false
			for _, e := range run.st.log {
				if e.name == "live Iterate" {
					bad = e.note == false // the last one counts
				}
			}
			r.check(!bad || fearless, "rebuilt", name, where, "the old matcher stays if the new one can't be built")
			return
		}
		live, ok := tm.liveNow(run.st, &run.ps)
		adds, failed := innerAdds(run, m)
		if !ok {
			r.fail("rebuilt", name, where, "the live patterns aren't known")
			return
		}
		want := map[string]int{}
		for _, e := range live {
			want[entryKey(e.x, e.pattern, e.mode)]++
		}
		for k := range want {
			if failed[k] > 0 {
				r.check(fearless, "rebuilt", name, where, "the old matcher stays if the new one can't be built")
				return
			}
		}
		why := ""
		for _, k := range sortedKeys(want) {
			if adds[k] == 0 {
				why = "a live pattern isn't in the new matcher: " + k
			}
		}
		for _, k := range sortedKeys(adds) {
			if want[k] == 0 {
				why = "the new matcher has what isn't a live pattern: " + k
			}
		}
		r.check(why == "", "rebuilt", name, where, orOK(why, "the new matcher has exactly the live patterns"))
	}
	setups := []prunerSetup{
		{name: "own store, no rebuild policy", entries: entries, gone: []av{xd}},
		{name: "own store, a rebuild policy", entries: entries, gone: []av{xd}, trigger: true},
		{name: "unknown store, no rebuild policy", opaque: true, gone: []av{xd}},
		{name: "unknown store, a rebuild policy", opaque: true, gone: []av{xd}, trigger: true},
	}
	text := func(st *aState, t types.Type) (av, bool) {
		if isKind(t, types.String) {
			return "pattern new", true
		}
		return nil, false
	}
	for _, ps := range setups {
		for _, q := range []struct {
			n string
			x av
		}{{"a new X", xn}, {"an X that is there", xa}, {"an X that was deleted", xd}} {
			for _, run := range tm.prunerCall(add, ps, "adding a pattern of "+q.n, q.x, 1, text) {
				name, ok := fin(&run)
				where := at(add)
				m := tm.prunerInner(run.st, &run.ps)
				key := entryKey(q.x, "pattern new", 1)
				fail := false // the matcher refused this very pattern
				liveAdded, liveErr := 0, false
				for _, e := range run.st.log {
					if e.name == "inner add" {
						if _, good := e.res.(aNil); !good {
							fail = true
						}
					}
					if e.name == "live Add" {
						liveAdded++
						liveErr = liveErr || e.note == false
						if part == "deleted" {
							r.check(len(e.args) == 3 && entryKey(e.args[0], fmt.Sprint(e.args[1]), asInt(e.args[2])) == key, "live entry", name, where, "what is stored is the X, pattern and mode that were added")
						}
					}
				}
				if live, known := tm.liveNow(run.st, &run.ps); known {
					has := 0
					for _, e := range live {
						if entryKey(e.x, e.pattern, e.mode) == key {
							has++
						}
					}
					liveAdded = has
					if part == "deleted" {
						r.check(len(live) == len(entries)+has, "live entries kept", name, where, "the other live patterns are still live")
					}
				}
				if part == "rejected" {
					refused := false
					for _, e := range run.st.log {
						if e.name == "inner add" && len(e.args) > 2 && strings.Contains(fmt.Sprint(e.args), "pattern new") && liveAdded == 0 {
							if _, good := e.res.(aNil); !good {
								refused = true
							}
						}
					}
					if refused {
						r.check(!ok, "error returned", name, where, "that the matcher refused the pattern is reported")
					}
					if !ok && !liveErr {
						r.check(liveAdded == 0, "nothing stored", name, where, "a pattern that is refused isn't stored as a live one")
						r.check(termKey(m) == termKey(run.ps.inner) || tm.rebuiltOK(run), "matcher kept", name, where, "a pattern that is refused leaves a complete matcher")
					}
					continue
				}
				if ok {
					adds, _ := innerAdds(&run, m)
					its, at := 0, -1
					for i, e := range run.st.log {
						if e.name == "live Iterate" {
							its++
						}
						if e.name == "policy" {
							at = i
						}
					}
					if termKey(m) == termKey(run.ps.inner) || run.ps.opaque && its == 1 && at < 0 {
						r.check(adds[key] > 0, "added", name, where, "the pattern is in the matcher that is used afterwards")
					}
					r.check(liveAdded == 1, "live", name, where, "the pattern is stored as a live one once")
					if termKey(q.x) == termKey(xd) {
						r.check(termKey(m) != termKey(run.ps.inner), "revived", name, where, "the deleted patterns of the X have been purged from the matcher")
						if run.ps.opaque {
							it := false
							for _, e := range run.st.log {
								it = it || e.name == "live Iterate" && e.note == true
							}
							r.check(it, "revived", name+" (built from the live ones)", where, "by building it from the live patterns")
						}
					}
				} else {
					r.check(fail || liveErr || liveFailed(run.st), "error", name, where, "an error is reported only if something failed")
				}
				if liveErr {
					r.check(!ok, "error of the store", name, where, "that the pattern couldn't be stored is reported")
				}
				gone := []av{xd}
				if ok && termKey(q.x) == termKey(xd) {
					gone = nil
				}
				policy := false
				for _, e := range run.st.log {
					policy = policy || e.name == "policy" && e.res == true
				}
				afterwards(&run, name, where, gone, policy)
			}
		}
		if part != "deleted" {
			continue
		}
		for _, q := range []struct {
			n string
			x av
		}{{"an X that isn't there", xn}, {"an X that is there", xa}} {
			for _, run := range tm.prunerCall(del, ps, "deleting the patterns of "+q.n, q.x, 1, nil) {
				name, ok := fin(&run)
				where := at(del)
				deleted, liveErr := false, false
				if live, known := tm.liveNow(run.st, &run.ps); known {
					has, others := 0, 0
					for _, e := range live {
						if termKey(e.x) == termKey(q.x) {
							has++
						} else {
							others++
						}
					}
					was := 0
					for _, e := range entries {
						if termKey(e.x) == termKey(q.x) {
							was++
						}
					}
					deleted = was > 0
					r.check(ok, "delete", name, where, "succeeds")
					r.check(has == 0, "deleted", name, where, "no pattern of the X is live any more")
					r.check(others == len(entries)-was, "others kept", name, where, "the patterns of other X are still live")
				}
				asked := false
				for _, e := range run.st.log {
					if e.name == "live Delete" {
						asked = true
						liveErr = e.note == false
						deleted = !liveErr && e.res != int64(0)
						r.check(termKey(e.args[0]) == termKey(q.x), "deleted", name, where, "the X that is deleted is the one that was given")
					}
				}
				if ps.opaque {
					r.check(asked, "deleted", name+" (asked)", where, "the store is asked to delete the X")
					if liveErr {
						r.check(!ok, "error of the store", name, where, "that the patterns couldn't be deleted is reported")
					}
				}
				gone := []av{xd}
				if deleted {
					gone = append(gone, q.x)
				}
				afterwards(&run, name, where, gone, false)
			}
		}
		// matching
		for _, xs := range [][]av{nil, {xa}, {xa, xn, xb}} {
			ps := ps
			ps.xs = xs
			for _, run := range tm.prunerCall(match, ps, fmt.Sprint("a match of ", len(xs), " X"), nil, 0, nil) {
				name, ok := fin(&run)
				where := at(match)
				liveErr, innerErr, inner := false, false, false
				want := map[string]int{}
				for _, e := range run.st.log {
					switch e.name {
					case "inner match":
						inner = true
						innerErr = innerErr || e.res == false
						r.check(termKey(e.args[0]) == termKey(run.ps.inner), "asks the matcher", name, where, "the matcher is asked")
					case "live Contains":
						liveErr = liveErr || e.note == false
						if e.res == true && inner && e.note == true {
							want[termKey(e.args[0])]++
						}
					}
				}
				if !ps.opaque {
					for _, x := range xs {
						for _, e := range entries {
							if termKey(e.x) == termKey(x) {
								want[termKey(x)] = 1
							}
						}
					}
				}
				if innerErr || liveErr {
					r.check(!ok, "error of a match", name, where, "an error of the matcher or of the store is reported")
				}
				if ok {
					el, known := tm.ai.elems(run.st, run.res)
					why := ""
					if !known {
						why = "what is reported isn't known"
					}
					got := map[string]bool{}
					for _, x := range el {
						got[termKey(x)] = true
						if want[termKey(x)] == 0 {
							why = "reports an X that wasn't found in the live patterns"
						}
					}
					for _, k := range sortedKeys(want) {
						if !got[k] {
							why = "doesn't report an X that was found in the live patterns"
						}
					}
					r.check(why == "", "reported", name, where, orOK(why, "reports exactly the X that were found in the live patterns"))
				} else {
					r.check(innerErr || liveErr, "error", name, where, "an error is reported only if something failed")
				}
				afterwards(&run, name, where, []av{xd}, false)
			}
		}
		for _, fearless := range []bool{false, true} {
			for _, run := range tm.prunerCall(rebuild, ps, fmt.Sprint("a rebuild, fearless ", fearless), nil, 0, func(st *aState, t types.Type) (av, bool) {
				if isKind(t, types.Bool) {
					return fearless, true
				}
				return nil, false
			}) {
				name, ok := fin(&run)
				where := at(rebuild)
				m := tm.prunerInner(run.st, &run.ps)
				kept := termKey(m) == termKey(run.ps.inner)
				failed := liveFailed(run.st)
				for _, e := range run.st.log {
					if e.name == "inner add" {
						if _, good := e.res.(aNil); !good {
							failed = true
						}
					}
				}
				r.check(ok == !failed, "rebuild's error", name, where, "an error is reported exactly if something failed")
				if failed && !fearless {
					r.check(kept, "rebuild failed", name, where, "the old matcher stays if the new one can't be built")
				}
				if ok {
					r.check(!kept, "rebuild", name, where, "the new matcher is used")
				}
				afterwards(&run, name, where, []av{xd}, fearless)
			}
		}
	}
	if part == "deleted" {
		ps := setups[0]
		for _, q := range []struct {
			x    av
			want bool
		}{{xa, true}, {xb, true}, {xn, false}, {xd, false}} {
			st := tm.ai.newState()
			st.base = tm.ai.base
			tm.pruner(st, &ps)
			outs := tm.ai.run(st, contains, []av{ps.live.(aIface).v, q.x})
			ok := len(outs) == 1 && len(outs[0].result) == 2 && outs[0].result[0] == q.want
			r.check(ok, "the own store", fmt.Sprint("asked for ", q.x.(aOpaque).tag), at(contains), "says if it has patterns of the X")
		}
	}
	r.floor("outcomes of calls", n, 15)
}

// rebuiltOK: the matcher is one that was completely built in this call
func (tm *termModel) rebuiltOK(run prunerRun) bool {
	m := tm.prunerInner(run.st, &run.ps)
	if _, ok := m.(aPtr); !ok {
		return false
	}
	return true
}

func liveFailed(st *aState) bool {
	for _, e := range st.log {
		if strings.HasPrefix(e.name, "live ") && e.note == false {
			return true
		}
	}
	return false
}

func asInt(v av) int64 {
	if i, ok := v.(int64); ok {
		return i
	}
	return -1
}
