package main

import (
	"fmt"
	"slices"
	"sort"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The automata that are built for characters without regard to case, computed for each character of the folding classes
// and for the characters at the ends of the gaps between them.

// langOf enumerates the byte strings that lead from a state to one from which the last byte of a value and its end lead
// to a match
func langOf(ai *aInterp, st *aState, start av, end int64, most int) []string {
	g := &graphs{tm: &termModel{p: ai.p, ai: ai}}
	var out []string
	closure := func(vs []av) map[string]av { return g.reach(st, vs, nil) }
	step := func(set map[string]av, b int64) map[string]av {
		var next []av
		for _, v := range set {
			if n := ai.stateTable(st, v).next(b); n != nil {
				if _, isNil := n.(aNil); !isNil {
					next = append(next, n)
				}
			}
		}
		return closure(next)
	}
	matches := func(set map[string]av) bool {
		for _, v := range set {
			if len(g.read(st, v).fms) > 0 {
				return true
			}
		}
		return false
	}
	var visit func(set map[string]av, text string)
	visit = func(set map[string]av, text string) {
		if len(out) > 80 {
			return
		}
		if len(text) > 0 && matches(step(step(set, end), 0xf5)) {
			out = append(out, text)
		}
		if len(text) >= most {
			return
		}
		// the bytes at which the steps change are enough to find the ones that lead on
		cuts := map[int64]bool{0: true}
		for _, v := range set {
			for _, c := range ai.stateTable(st, v).ceil {
				cuts[c] = true
			}
		}
		var cs []int64
		for c := range cuts {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		for i, c := range cs {
			if c >= 0xf5 {
				break
			}
			n := step(set, c)
			if len(n) == 0 {
				continue
			}
			hi := int64(0xf5)
			if i+1 < len(cs) {
				hi = min(hi, cs[i+1])
			}
			for b := c; b < hi; b++ {
				visit(n, text+string([]byte{byte(b)}))
			}
		}
	}
	visit(closure([]av{start}), "")
	return out
}

func checkFoldAutomata(p *Prog, r *Report) {
	fn := p.pkg.Func("makeMonocaseFA")
	if fn == nil || len(fn.Params) != 2 {
		r.fail("folding-used", "makeMonocaseFA", "-", "there's no function that builds automata for values without regard to case, or it isn't known how it's called")
		return
	}
	where := p.pos(fn.Pos())
	class := map[rune][]int32{}
	for _, cl := range oracleFolding {
		for _, c := range cl {
			class[rune(c)] = cl
		}
	}
	var chars []rune
	for c := rune(0x20); c <= utf8.MaxRune; c++ {
		if c == '"' || c >= 0xd800 && c < 0xe000 {
			continue
		}
		_, in := class[c]
		_, before := class[c-1]
		_, after := class[c+1]
		w := utf8.RuneLen(c) != utf8.RuneLen(c-1) || utf8.RuneLen(c) != utf8.RuneLen(c+1)
		if in || before || after || w || c < 0x80 || c == utf8.MaxRune || c == 0xd7ff || c == 0xe000 {
			chars = append(chars, c)
		}
	}
	var texts [][]rune
	for _, c := range chars {
		texts = append(texts, []rune{c})
	}
	// characters of all lengths, with and without others in their class, next to each other
	few := []rune{'a', 's', '1', 0xe9, 0x3b8, 0x4e00, 0x1e9e, 0x13b0, 0x10400, 0x1f600}
	for _, a := range few {
		for _, b := range few {
			texts = append(texts, []rune{a, b})
		}
	}
	const workers = 8
	type finding struct {
		c   []rune
		why string
	}
	var mu sync.Mutex
	var bad []finding
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ai := newInterp(p)
			ok := func() (ok bool) {
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						bad = append(bad, finding{nil, fmt.Sprint(e)})
						mu.Unlock()
					}
				}()
				ai.initGlobals()
				return true
			}()
			if !ok {
				return
			}
			for i := w; i < len(texts); i += workers {
				if why := foldOne(ai, fn, texts[i], class); why != "" {
					mu.Lock()
					bad = append(bad, finding{texts[i], why})
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(bad, func(i, j int) bool { return slices.Compare(bad[i].c, bad[j].c) < 0 })
	for i, b := range bad {
		if i >= 20 {
			break
		}
		r.fail("folding-used", fmt.Sprintf("%s for %q", p.fname(fn), string(b.c)), where, b.why)
	}
	if len(bad) == 0 {
		r.pass("folding-used", p.fname(fn), where, fmt.Sprintf("for each of %d characters it builds an automaton that accepts exactly the characters of its class; the same for %d pairs of characters", len(chars), len(few)*len(few)))
	}
	r.facts["characters whose automata were computed"] = len(chars)
}

func foldOne(ai *aInterp, fn *ssa.Function, text []rune, class map[rune][]int32) (why string) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(aUndecided)
			if !ok {
				panic(e)
			}
			why = "undecided: " + u.msg
		}
	}()
	want := map[string]bool{"": true}
	most := 0
	for _, c := range text {
		most += 4
		longer := map[string]bool{}
		for t := range want {
			longer[t+string(c)] = true
			for _, x := range class[c] {
				longer[t+string(rune(x))] = true
			}
		}
		want = longer
	}
	st := ai.newState()
	st.base = ai.base
	var el []av
	for _, b := range []byte(`"` + string(text) + `"`) {
		el = append(el, int64(b))
	}
	val := ai.newSlice(st, el)
	ai.steps = 0
	pp := ai.global(st, "sharedNullPrinter")
	nProblems := len(ai.problem)
	outs := ai.run(st, fn, []av{val, pp})
	if len(ai.problem) > nProblems {
		return "it can panic: " + ai.problem[nProblems]
	}
	if len(outs) != 1 || len(outs[0].result) == 0 || len(outs[0].marks) > 0 {
		return "what it builds can't be computed"
	}
	o := outs[0]
	tab := ai.stateTable(o, o.result[0])
	after := tab.next('"')
	if after == nil {
		return "it doesn't start with the quote"
	}
	got := map[string]bool{}
	for _, s := range langOf(ai, o, after, '"', most) {
		got[s] = true
		if !want[s] {
			return fmt.Sprintf("the automaton accepts the bytes %x (%q) too", s, s)
		}
	}
	for s := range want {
		if !got[s] {
			return fmt.Sprintf("the automaton doesn't accept the bytes %x (%q)", s, s)
		}
	}
	return ""
}
