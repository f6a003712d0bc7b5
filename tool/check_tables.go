package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C16"] = checkC16
	checkers["C17"] = checkC17
	checkers["C25"] = checkC25
}

const unicodeMax = 0x10ffff

var scalarValues = iset{{0, 0xd7ff}, {0xe000, unicodeMax}}

// interpFor interprets the package's initialisation
func interpFor(p *Prog, r *Report) *aInterp {
	ai := newInterp(p)
	ai.initGlobals()
	r.facts["abstract steps of initialisation"] = ai.steps
	return ai
}

// globalsOfType finds the package-level variables of a type
func globalsOfType(p *Prog, match func(types.Type) bool) []*ssa.Global {
	var out []*ssa.Global
	for _, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && match(g.Type().(*types.Pointer).Elem()) {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func isKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func checkC16(p *Prog, r *Report) {
	r.rule = "constant propagation through package initialisation gives the folding table; each class of characters with the same common case folding must be one cycle of it, and for each character the automaton that is built without regard to case, computed by abstract interpretation of its builder, must accept exactly the characters of its class"
	r.explain = "The contents of the folding table are computed from its initialiser and compared, entry by entry, with the classes of CaseFolding.txt's C records in Unicode " + oracleUnicodeVersion + ". The builder of automata for equals-ignore-case is then interpreted on a text of each of the classes' characters, each ASCII character, and the characters next to the classes' and at the borders of the lengths of UTF-8, and the automaton it makes is read back and compared with the class."
	r.notCovered = "texts of more than one character other than the quotes, and how automata are merged and matched"
	ai := interpFor(p, r)
	st := ai.newState()
	gs := globalsOfType(p, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isKind(m.Key(), types.Int32) && isKind(m.Elem(), types.Int32)
	})
	r.floor("folding tables", len(gs), 1)
	for _, g := range gs {
		m, ok := st.load(ai.eval(st, g).(aPtr).cell).(aMap)
		var mc *aMapCell
		if ok {
			mc, ok = st.load(m.cell).(*aMapCell)
		}
		if !ok {
			r.fail("folding-table", g.Name(), p.pos(g.Pos()), "its contents can't be computed from its initialiser")
			continue
		}
		tab := map[int32]int32{}
		for i, k := range mc.keys {
			a, ok1 := k.(int64)
			b, ok2 := mc.vals[i].(int64)
			if !ok1 || !ok2 {
				r.fail("folding-table", g.Name(), p.pos(g.Pos()), "has an entry that isn't a constant")
				continue
			}
			tab[int32(a)] = int32(b)
		}
		r.floor("folding table entries", len(tab), 2800)
		in := map[int32]bool{}
		for _, cl := range oracleFolding {
			seen := map[int32]bool{}
			for _, c := range cl {
				in[c] = true
			}
			x := cl[0]
			for i := 0; i <= len(cl); i++ {
				seen[x] = true
				y, ok := tab[x]
				if !ok {
					r.fail("folding-class", fmt.Sprintf("class of %#x", cl[0]), p.pos(g.Pos()), fmt.Sprintf("%#x has no entry", x))
					break
				}
				x = y
				if x == cl[0] {
					break
				}
			}
			same := len(seen) == len(cl) && x == cl[0]
			for _, c := range cl {
				same = same && seen[c]
			}
			r.check(same, "folding-class", fmt.Sprintf("class of %#x", cl[0]), p.pos(g.Pos()), fmt.Sprintf("the table must lead from each of %#x to the next and back to the first", cl))
		}
		for k, v := range tab {
			if !in[k] {
				r.fail("folding-extra", fmt.Sprintf("%#x", k), p.pos(g.Pos()), fmt.Sprintf("%#x is no character with a common case folding, but the table maps it to %#x", k, v))
			}
		}
		r.pass("folding-extra", "all entries", p.pos(g.Pos()), fmt.Sprintf("%d entries are in %d classes", len(tab), len(oracleFolding)))
		checkFoldWrites(p, r, g)
	}
	checkFoldAutomata(p, r)
}

// checkFoldWrites shows that the table stays as it was initialised
func checkFoldWrites(p *Prog, r *Report, g *ssa.Global) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.MapUpdate); ok {
					if ld, ok := c.Map.(*ssa.UnOp); ok && ld.X == g && f.Name() != "init" {
						r.fail("folding-table", "write in "+p.fname(f), p.pos(in.Pos()), "the table is changed after its initialisation")
					}
				}
			}
		}
	}
}

// regexpOutcome is one way in which the reader can treat a text
type regexpOutcome struct {
	st       *aState
	ok       bool
	err      av
	branches [][]av
}

// readText interprets the regexp reader on a text of known and symbolic characters
func readText(ai *aInterp, chars func(st *aState) []av) []regexpOutcome {
	p := ai.p
	fn := p.pkg.Func("readRegexp")
	if fn == nil {
		ai.undecided("there's no readRegexp")
	}
	ai.textRunes = true
	defer func() { ai.textRunes = false }()
	st := ai.newState()
	var arg av = st.norm(aText{chars(st)})
	before := len(ai.problem)
	outs := ai.run(st, fn, []av{arg})
	if len(ai.problem) > before {
		ai.undecided("the reader can panic: %v", ai.problem[before])
	}
	var res []regexpOutcome
	for _, s := range outs {
		o := regexpOutcome{st: s}
		if len(s.result) != 2 {
			ai.undecided("unexpected results of the reader")
		}
		for _, m := range s.marks {
			ai.undecided("the reader's decision can't be computed: %s", m)
		}
		o.err = s.result[1]
		switch s.result[1].(type) {
		case aNil:
			o.ok = true
		case aIface, aOpaque, aPtr:
		default:
			ai.undecided("whether the reader returns an error is unknown: %v", s.result[1])
		}
		if o.ok {
			pt, ok := s.result[0].(aPtr)
			var parse aAgg
			if ok {
				parse, ok = aGet(s.load(pt.cell), pt.path).(aAgg)
			}
			if !ok {
				ai.undecided("the reader's result is unknown")
			}
			stt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if namedName(stt.Field(i).Type()) == "regexpRoot" {
					bs, ok := ai.elems(s, parse.f[i])
					if !ok {
						ai.undecided("the reader's tree is unknown")
					}
					for _, b := range bs {
						as, ok := ai.elems(s, b)
						if !ok {
							ai.undecided("a branch of the reader's tree is unknown")
						}
						o.branches = append(o.branches, as)
					}
				}
			}
		}
		res = append(res, o)
	}
	return res
}

// atomOf gets the parts of the only atom of an outcome
type atomParts struct {
	dot      bool
	ranges   [][2]av
	key      av
	min, max av
	sub      bool
	subtree  [][]av
}

func (ai *aInterp) atomOf(o regexpOutcome) (*atomParts, bool) {
	if len(o.branches) != 1 || len(o.branches[0]) != 1 {
		return nil, false
	}
	return ai.atomParts(o.st, o.branches[0][0]), true
}

func (ai *aInterp) atomParts(st *aState, v av) *atomParts {
	pt, ok := v.(aPtr)
	var a aAgg
	if ok {
		a, ok = aGet(st.load(pt.cell), pt.path).(aAgg)
	}
	if !ok {
		ai.undecided("an atom is unknown")
	}
	t, ok := ai.p.namedType("quantifiedAtom").Underlying().(*types.Struct)
	if !ok {
		ai.undecided("no quantifiedAtom")
	}
	out := &atomParts{}
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		switch {
		case namedName(f.Type()) == "RuneRange":
			el, ok := ai.elems(st, a.f[i])
			if !ok {
				ai.undecided("an atom's ranges are unknown")
			}
			for _, e := range el {
				g, ok := e.(aAgg)
				if !ok || len(g.f) != 2 {
					ai.undecided("a range is unknown")
				}
				out.ranges = append(out.ranges, [2]av{st.norm(g.f[0]), st.norm(g.f[1])})
			}
		case isKind(f.Type(), types.Bool):
			out.dot, ok = a.f[i].(bool)
			if !ok {
				ai.undecided("whether an atom is '.' is unknown")
			}
		case isKind(f.Type(), types.String):
			out.key = st.norm(a.f[i])
		case namedName(f.Type()) == "regexpRoot":
			_, isNil := a.f[i].(aNil)
			out.sub = !isNil
			bs, ok := ai.elems(st, a.f[i])
			if !ok {
				ai.undecided("an atom's subtree is unknown")
			}
			for _, b := range bs {
				as, ok := ai.elems(st, b)
				if !ok {
					ai.undecided("a branch of a subtree is unknown")
				}
				out.subtree = append(out.subtree, as)
			}
		case strings.HasSuffix(f.Name(), "Min"):
			out.min = st.norm(a.f[i])
		case strings.HasSuffix(f.Name(), "Max"):
			out.max = st.norm(a.f[i])
		}
	}
	return out
}

// concreteRanges gives the ranges of an atom if they are all known
func concreteRanges(a *atomParts) ([]ival, bool) {
	var out []ival
	for _, x := range a.ranges {
		lo, ok1 := x[0].(int64)
		hi, ok2 := x[1].(int64)
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, ival{lo, hi})
	}
	return out, true
}

func oracleCategory(name string) iset {
	get := func(n string) iset {
		var v []ival
		t := oracleCategories[n]
		for i := 0; i+1 < len(t); i += 2 {
			v = append(v, ival{int64(t[i]), int64(t[i+1])})
		}
		return isFrom(v)
	}
	rest := func() iset {
		s := isOf(0, unicodeMax)
		for n := range oracleCategories {
			s = s.minus(get(n))
		}
		return s
	}
	if name == "Cn" {
		return rest()
	}
	if len(name) == 2 {
		return get(name)
	}
	var s iset
	for n := range oracleCategories {
		if n[:1] == name {
			s = s.or(get(n))
		}
	}
	if name == "C" {
		s = s.or(rest())
	}
	return s
}

// the names that I-Regexp's grammar allows
var oraclePropNames = map[string]string{"L": "lmotu", "M": "cen", "N": "dlo", "P": "cdefios", "Z": "lps", "S": "ckmo", "C": "cfno"}

func checkC17(p *Prog, r *Report) {
	r.rule = "value-set analysis of the regexp reader on ~p{..}, ~P{..} and classes made of them, with symbolic category letters: it must accept exactly the categories of the grammar, and the ranges it then takes from the tables must be exactly Unicode's, sorted and disjoint"
	r.explain = "The tables' contents are computed by constant propagation through package initialisation. The reader is analysed with an abstract interpreter whose integers are constants or symbols with a set of possible values; each outcome gives the letters that lead to it and the ranges in the parsed tree. They are compared with the categories of Unicode " + oracleUnicodeVersion + "."
	r.notCovered = "that ranges are turned into the right automata"
	ai := interpFor(p, r)
	any := isOf(0, unicodeMax)
	expect := map[string]bool{}
	for k, d := range oraclePropNames {
		expect[k] = true
		for _, c := range d {
			expect[k+string(c)] = true
		}
	}
	keys := map[string]string{}
	type form struct {
		name           string
		pre, post      string
		neg, inv, atom bool
	}
	forms := []form{
		{"~p{%s}", "~p{", "}", false, false, true},
		{"~P{%s}", "~P{", "}", true, false, true},
		{"[~p{%s}]", "[~p{", "}]", false, false, false},
		{"[^~p{%s}]", "[^~p{", "}]", false, true, false},
		{"[~P{%s}]", "[~P{", "}]", true, false, false},
	}
	total := 0
	for _, f := range forms {
		got := map[string]bool{}
		for _, letters := range []int{1, 2} {
			var syms []aSym
			outs := readText(ai, func(st *aState) []av {
				cs, _ := aChars(f.pre)
				cs = append([]av(nil), cs...)
				syms = nil
				for i := 0; i < letters; i++ {
					s := ai.symbol(st, any)
					syms = append(syms, s)
					cs = append(cs, s)
				}
				po, _ := aChars(f.post)
				return append(cs, po...)
			})
			for _, o := range outs {
				total++
				if !o.ok {
					continue
				}
				name := ""
				known := true
				for _, s := range syms {
					k, ok := o.st.norm(s).(int64)
					known = known && ok
					name += string(rune(k))
				}
				if !known {
					r.fail("property-names", f.name, "regexp reader", "accepts a whole set of category names: "+fmt.Sprint(o.st.dom[syms[0].id]))
					continue
				}
				cons := strings.Replace(f.name, "%s", name, 1)
				if !expect[name] {
					// ~p{LX} with X = } reads as ~p{L} followed by }
					if strings.HasSuffix(name, "}") {
						continue
					}
					r.fail("property-names", cons, "regexp reader", "is accepted but isn't a category name")
					continue
				}
				got[name] = true
				a, ok := ai.atomOf(o)
				if !ok {
					r.fail("property-ranges", cons, "regexp reader", "isn't read as one atom")
					continue
				}
				rs, ok := concreteRanges(a)
				if !ok {
					r.fail("property-ranges", cons, "regexp reader", "its ranges can't be computed")
					continue
				}
				why := ""
				for i, x := range rs {
					if x.lo > x.hi || x.lo < 0 || x.hi > unicodeMax {
						why = fmt.Sprintf("has the bad range %s-%s", hex(x.lo), hex(x.hi))
					}
					if i > 0 && x.lo <= rs[i-1].hi {
						why = fmt.Sprintf("its ranges overlap or aren't in order at %s", hex(x.lo))
					}
				}
				want := oracleCategory(name)
				if f.neg != f.inv {
					want = isOf(0, unicodeMax).minus(want)
				}
				have := isFrom(rs)
				if why == "" && !have.eq(want) {
					why = fmt.Sprintf("has %v that Unicode doesn't and lacks %v", have.minus(want), want.minus(have))
				}
				r.check(why == "", "property-ranges", cons, "regexp reader", why)
				if f.atom {
					k, isS := a.key.(string)
					if !isS {
						r.fail("property-key", cons, "regexp reader", "the name under which its automaton is kept can't be computed")
						continue
					}
					if old, ok := keys[k]; ok && k != "" && old != have.long() {
						r.fail("property-key", cons, "regexp reader", fmt.Sprintf("its automaton is kept under the name %q, which is also that of different ranges", k))
					} else {
						r.pass("property-key", cons, "regexp reader", "kept under the name "+k)
					}
					keys[k] = have.long()
				}
			}
		}
		for n := range expect {
			r.check(got[n], "property-names", strings.Replace(f.name, "%s", n, 1), "regexp reader", "is accepted")
		}
	}
	r.facts["abstract outcomes"] = total
	r.facts["abstract steps"] = ai.steps
	r.floor("categories", len(expect), 35)
}

func evalAt(v av, x aSym, at int64) (int64, bool) {
	switch v := v.(type) {
	case int64:
		return v, true
	case aSym:
		if v.id == x.id {
			return at + v.off, true
		}
	}
	return 0, false
}

// automaton states as the interpreter built them

type absTable struct {
	ceil  []int64
	steps []av
	eps   []av
}

func (ai *aInterp) tableOf(st *aState, v av) *absTable {
	a, ok := v.(aAgg)
	if !ok {
		ai.undecided("an automaton's table is unknown")
	}
	t := ai.p.namedType("smallTable").Underlying().(*types.Struct)
	out := &absTable{}
	seen := 0
	for i := 0; i < t.NumFields(); i++ {
		el, ok := ai.elems(st, a.f[i])
		switch {
		case isSliceOf(t.Field(i).Type(), func(e types.Type) bool { return isKind(e, types.Byte) }):
			if !ok {
				ai.undecided("a table's ceilings are unknown")
			}
			seen++
			for _, e := range el {
				k, ok := e.(int64)
				if !ok {
					ai.undecided("a table's ceiling is unknown")
				}
				out.ceil = append(out.ceil, k)
			}
		case isSliceOf(t.Field(i).Type(), func(e types.Type) bool {
			pt, ok := e.Underlying().(*types.Pointer)
			return ok && namedName(pt.Elem()) == "faState"
		}):
			if !ok {
				ai.undecided("a table's steps are unknown")
			}
			seen++
			if strings.HasPrefix(strings.ToLower(t.Field(i).Name()), "eps") {
				out.eps = el
			} else {
				out.steps = el
			}
		}
	}
	if seen < 3 {
		ai.undecided("the parts of a table aren't as expected")
	}
	return out
}

func isSliceOf(t types.Type, el func(types.Type) bool) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && el(s.Elem())
}

// next is the step on a byte: nil if there's none
func (t *absTable) next(b int64) av {
	for i, c := range t.ceil {
		if b < c {
			if i < len(t.steps) {
				return t.steps[i]
			}
			return nil
		}
	}
	return nil
}

// stateTable is the table of the state that v points at
func (ai *aInterp) stateTable(st *aState, v av) *absTable {
	pt, ok := v.(aPtr)
	if !ok {
		ai.undecided("a state is unknown")
	}
	a, ok := aGet(st.load(pt.cell), pt.path).(aAgg)
	if !ok {
		ai.undecided("a state is unknown")
	}
	t := ai.p.namedType("faState").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if namedName(t.Field(i).Type()) == "smallTable" {
			return ai.tableOf(st, a.f[i])
		}
	}
	ai.undecided("a state has no table")
	return nil
}

// well-formed UTF-8 as an automaton (Unicode Standard, table 3-7)
const (
	u8Start = iota
	u8One
	u8Two
	u8Three
	u8E0
	u8ED
	u8F0
	u8F4
	u8Done
	u8Dead
)

func u8Next(s int, b int64) int {
	in := func(lo, hi int64) bool { return b >= lo && b <= hi }
	switch s {
	case u8Start:
		switch {
		case b < 0x80:
			return u8Done
		case in(0xc2, 0xdf):
			return u8One
		case b == 0xe0:
			return u8E0
		case b == 0xed:
			return u8ED
		case in(0xe1, 0xef):
			return u8Two
		case b == 0xf0:
			return u8F0
		case in(0xf1, 0xf3):
			return u8Three
		case b == 0xf4:
			return u8F4
		}
	case u8One:
		if in(0x80, 0xbf) {
			return u8Done
		}
	case u8Two:
		if in(0x80, 0xbf) {
			return u8One
		}
	case u8Three:
		if in(0x80, 0xbf) {
			return u8Two
		}
	case u8E0:
		if in(0xa0, 0xbf) {
			return u8One
		}
	case u8ED:
		if in(0x80, 0x9f) {
			return u8One
		}
	case u8F0:
		if in(0x90, 0xbf) {
			return u8Two
		}
	case u8F4:
		if in(0x80, 0x8f) {
			return u8Two
		}
	}
	return u8Dead
}

func checkC25(p *Prog, r *Report) {
	r.rule = "the automaton for '.', whose parts are all constants in the source, is computed by constant propagation and compared with the UTF-8 automaton by a product construction; so are the loops that wildcards make"
	r.explain = "The product visits each pair of a state of the constant automaton and a state of the automaton for well-formed UTF-8 (table 3-7 of the Unicode Standard), for all 256 bytes."
	r.notCovered = "how automata are traversed and combined"
	ai := interpFor(p, r)
	fn := p.pkg.Func("makeDotFA")
	if fn == nil {
		r.fail("dot", "makeDotFA", "-", "there's no makeDotFA")
		return
	}
	st := ai.newState()
	dest := aPtr{cell: ai.cell(st, ai.zero(p.namedType("faState")))}
	var args []av
	for _, pr := range fn.Params {
		switch {
		case isPtrTo(pr.Type(), p.namedType("faState")):
			args = append(args, dest)
		default:
			args = append(args, ai.unknownOf(st, pr.Type()))
		}
	}
	outs := ai.run(st, fn, args)
	pairs := 0
	for _, o := range outs {
		if len(o.marks) > 0 {
			ai.undecided("%v", o.marks)
		}
		var root *absTable
		v := o.result[0]
		if _, ok := v.(aPtr); ok {
			root = ai.stateTable(o, v)
		} else {
			root = ai.tableOf(o, v)
		}
		type pair struct {
			key string
			u   int
		}
		seen := map[pair]bool{}
		var visit func(t *absTable, key string, u int, trail string)
		visit = func(t *absTable, key string, u int, trail string) {
			if seen[pair{key, u}] {
				return
			}
			seen[pair{key, u}] = true
			pairs++
			r.check(len(t.eps) == 0, "dot-epsilon", "makeDotFA "+trail, p.pos(fn.Pos()), "the automaton has no epsilons, so a step decides")
			for b := int64(0); b < 256; b++ {
				n := t.next(b)
				un := u8Next(u, b)
				nk, alive := "", false
				if n != nil {
					if _, isNil := n.(aNil); !isNil {
						alive = true
						nk, _ = ai.key(n)
					}
				}
				dk, _ := ai.key(dest)
				why := ""
				switch {
				case un == u8Dead && alive:
					why = "goes on with a byte that no character has there"
				case un != u8Dead && !alive:
					why = "doesn't go on with a byte that a character has there"
				case un == u8Done && nk != dk:
					why = "isn't at the next step after a whole character"
				case un != u8Done && alive && nk == dk:
					why = "is at the next step before the character's end"
				}
				if why != "" {
					r.fail("dot", fmt.Sprintf("after %s byte %s", trail, hex(b)), p.pos(fn.Pos()), "the automaton for '.' "+why)
					continue
				}
				if alive && nk != dk {
					visit(ai.stateTable(o, n), nk, un, trail+fmt.Sprintf("s%d,", un))
				}
			}
			r.pass("dot", fmt.Sprintf("state after %q", trail), p.pos(fn.Pos()), "agrees with UTF-8 on all 256 bytes")
		}
		visit(root, "start", u8Start, "")
	}
	r.floor("pairs of states", pairs, 8)

	// the loops of wildcards
	valid := isFrom([]ival{{0, 0xbf}, {0xc2, 0xf4}})
	for _, name := range []string{"makeShellStyleFA", "makeWildCardFA"} {
		fn := p.pkg.Func(name)
		if fn == nil {
			r.fail("wildcard-loop", name, "-", "there's no such function")
			continue
		}
		for _, text := range []string{"\"*\"", "\"a*\"", "\"*a\"", "\"a*b\""} {
			st := ai.newState()
			var el []av
			for i := 0; i < len(text); i++ {
				el = append(el, int64(text[i]))
			}
			args := []av{ai.newSlice(st, el)}
			for _, pr := range fn.Params[1:] {
				args = append(args, ai.unknownOf(st, pr.Type()))
			}
			n := 0
			for _, o := range ai.run(st, fn, args) {
				n++
				if len(o.marks) > 0 {
					ai.undecided("%v", o.marks)
				}
				loops, why := ai.wildLoops(o, o.result[0], valid)
				r.check(loops == 1 && why == "", "wildcard-loop", name+" of "+text, p.pos(fn.Pos()), "there's one state that stays where it is on every byte of UTF-8 and on no other: "+why)
			}
			r.check(n == 1, "wildcard-loop", name+" of "+text, p.pos(fn.Pos()), "one automaton results")
		}
	}
	r.facts["abstract steps"] = ai.steps
}

func (ai *aInterp) unknownOf(st *aState, t types.Type) av {
	if types.IsInterface(t) {
		// a printer: the null printer, if there is one
		if g := ai.p.pkg.Var("sharedNullPrinter"); g != nil {
			v := st.load(ai.eval(st, g).(aPtr).cell)
			if _, ok := v.(aIface); ok {
				return v
			}
			if types.IsInterface(g.Type().(*types.Pointer).Elem()) {
				return v
			}
			return aIface{g.Type().(*types.Pointer).Elem(), v}
		}
	}
	return aUnk{"argument"}
}

// wildLoops counts the reachable states that loop on all valid bytes for which they or the states that an epsilon leads
// to have no other step
func (ai *aInterp) wildLoops(st *aState, start av, valid iset) (int, string) {
	seen := map[string]bool{}
	n := 0
	why := ""
	var visit func(v av)
	visit = func(v av) {
		k, _ := ai.key(v)
		if _, isNil := v.(aNil); isNil || seen[k] {
			return
		}
		seen[k] = true
		t := ai.stateTable(st, v)
		var self, other iset
		for b := int64(0); b < 256; b++ {
			nx := t.next(b)
			if nx == nil {
				continue
			}
			if _, isNil := nx.(aNil); isNil {
				continue
			}
			nk, _ := ai.key(nx)
			if nk == k {
				self = self.or(isPoint(b))
				continue
			}
			// a step to a state with an epsilon back here loops as well
			back := false
			for _, e := range ai.stateTable(st, nx).eps {
				ek, _ := ai.key(e)
				back = back || ek == k
			}
			if back {
				self = self.or(isPoint(b))
			} else {
				other = other.or(isPoint(b))
			}
			visit(nx)
		}
		for _, e := range t.eps {
			visit(e)
		}
		if self.count() > 100 {
			n++
			if !self.eq(valid) {
				why = fmt.Sprintf("lacks %v, has also %v", valid.minus(self), self.minus(valid))
			}
		}
		_ = other
	}
	visit(start)
	return n, why
}

func (s iset) long() string {
	var sb strings.Builder
	for _, x := range s {
		fmt.Fprintf(&sb, "%x-%x,", x.lo, x.hi)
	}
	return sb.String()
}
