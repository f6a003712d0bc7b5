package main

import (
	"fmt"
	"math"
	"strings"
)

func init() { checkers["C18"] = checkC18 }

// The grammar of RFC 9485 with ~ as the escape and the empty alternative, written down a second time as a recursive
// descent that gives sets of characters.

var (
	gNormal = isFrom([]ival{{0, 0x27}, {',', ','}, {'-', '-'}, {0x2f, 0x3e}, {0x40, 0x5a}, {0x5e, 0x7a}, {0x7e, 0xd7ff}, {0xe000, unicodeMax}, {'\\', '\\'}}).minus(isPoint('~'))
	gCC     = isFrom([]ival{{0, 0x2c}, {0x2e, 0x5a}, {0x5e, 0xd7ff}, {0xe000, unicodeMax}, {'\\', '\\'}}).minus(isPoint('~'))
	// escapes that stand for the same character
	gEscSelf = isFrom([]ival{{0x28, 0x2b}, {'-', '-'}, {'.', '.'}, {'?', '?'}, {0x5b, 0x5e}, {0x7b, 0x7d}, {'~', '~'}})
	gEscMap  = map[int64]int64{'n': '\n', 'r': '\r', 't': '\t'}
)

const gUnbounded = int64(math.MaxInt64)

type gPiece struct {
	set      iset
	dot      bool
	sub      []gBranch
	isSub    bool
	min, max int64
}
type gBranch []gPiece

type gReader struct {
	t   []int64
	i   int
	bad bool
}

func gRead(t []int64) ([]gBranch, bool) {
	g := &gReader{t: t}
	root := g.branches()
	return root, !g.bad && g.i == len(g.t)
}

func (g *gReader) peek() int64 {
	if g.i < len(g.t) {
		return g.t[g.i]
	}
	return -1
}

func (g *gReader) take() int64 {
	c := g.peek()
	if c < 0 {
		g.bad = true
		return -1
	}
	g.i++
	return c
}

func (g *gReader) branches() []gBranch {
	if c := g.peek(); c == -1 || c == ')' {
		return nil
	}
	out := []gBranch{g.branch()}
	for !g.bad && g.peek() == '|' {
		g.i++
		out = append(out, g.branch())
	}
	return out
}

func (g *gReader) branch() gBranch {
	var out gBranch
	for !g.bad && g.peek() != -1 && g.peek() != '|' && g.peek() != ')' {
		p := g.atom()
		p.min, p.max = 1, 1
		switch g.peek() {
		case '*':
			g.i++
			p.min, p.max = 0, gUnbounded
		case '+':
			g.i++
			p.max = gUnbounded
		case '?':
			g.i++
			p.min = 0
		case '{':
			g.i++
			p.min = g.number()
			p.max = p.min
			if g.peek() == ',' {
				g.i++
				p.max = gUnbounded
				if g.peek() != '}' {
					p.max = g.number()
				}
			}
			if g.take() != '}' || p.min > p.max {
				g.bad = true
			}
		}
		out = append(out, p)
	}
	return out
}

func (g *gReader) number() int64 {
	n, any := int64(0), false
	for c := g.peek(); c >= '0' && c <= '9'; c = g.peek() {
		n = 10*n + c - '0'
		any = true
		g.i++
	}
	if !any {
		g.bad = true
	}
	return n
}

func (g *gReader) atom() gPiece {
	c := g.take()
	switch {
	case g.bad:
	case gNormal.has(c):
		return gPiece{set: isPoint(c)}
	case c == '.':
		return gPiece{dot: true}
	case c == '(':
		s := g.branches()
		if g.take() != ')' {
			g.bad = true
		}
		return gPiece{isSub: true, sub: s}
	case c == '~':
		s, _ := g.escape(true)
		return gPiece{set: s}
	case c == '[':
		return gPiece{set: g.class()}
	}
	g.bad = true
	return gPiece{}
}

// escape reads what follows ~; the second result says if it is a single character
func (g *gReader) escape(props bool) (iset, bool) {
	c := g.take()
	if gEscSelf.has(c) {
		return isPoint(c), true
	}
	if m, ok := gEscMap[c]; ok {
		return isPoint(m), true
	}
	if props && (c == 'p' || c == 'P') && g.take() == '{' {
		a := g.take()
		details, ok := oraclePropNames[string(rune(a))]
		if ok {
			name := string(rune(a))
			b := g.take()
			if b > 0 && b != '}' {
				if !strings.ContainsRune(details, rune(b)) {
					g.bad = true
				}
				name += string(rune(b))
				b = g.take()
			}
			if b != '}' || g.bad {
				g.bad = true
				return nil, false
			}
			s := oracleCategory(name)
			if c == 'P' {
				s = isOf(0, unicodeMax).minus(s)
			}
			return s, false
		}
	}
	g.bad = true
	return nil, false
}

func (g *gReader) class() iset {
	neg := false
	if g.peek() == '^' {
		g.i++
		neg = true
	}
	var s iset
	first := true
	if g.peek() == '-' {
		g.i++
		s = isPoint('-')
		first = false
	}
	for !g.bad && (first || g.peek() != ']' && g.peek() != '-') {
		first = false
		s = s.or(g.cce1())
	}
	if g.peek() == '-' {
		g.i++
		s = s.or(isPoint('-'))
	}
	if g.take() != ']' {
		g.bad = true
	}
	if neg {
		s = isOf(0, unicodeMax).minus(s)
	}
	return s
}

func (g *gReader) ccchar() (iset, bool) {
	c := g.take()
	if c == '~' {
		return g.escape(false)
	}
	if !gCC.has(c) {
		g.bad = true
	}
	return isPoint(c), true
}

func (g *gReader) cce1() iset {
	if g.peek() == '~' && g.i+1 < len(g.t) && (g.t[g.i+1] == 'p' || g.t[g.i+1] == 'P') {
		g.i++
		s, _ := g.escape(true)
		return s
	}
	lo, _ := g.ccchar()
	if g.bad || g.peek() != '-' || g.i+1 < len(g.t) && g.t[g.i+1] == ']' {
		return lo
	}
	g.i++
	hi, _ := g.ccchar()
	if g.bad || lo[0].lo > hi[0].lo {
		g.bad = true
		return nil
	}
	return isOf(lo[0].lo, hi[0].lo)
}

// gTexts are texts with at most one symbolic character, ?. What the characters in except would mean there isn't said
// clearly by the grammar, or is documented otherwise.
var gTexts = []struct{ text, except string }{
	{"?", ""}, {"a?", ""}, {"?a", "["}, {"~?", ""}, {"a~?b", ""}, {"~?*", ""},
	{"a?*", ""}, {"a*?", ""}, {"a??", ""}, {"a+?", ""}, {".?", ""}, {"a|?", ""}, {"?|a", ""}, {"|?", ""},
	{"(?", ""}, {"(?)", ""}, {"(a?)", ""}, {"(?a)", "["}, {"(a)?", ""}, {"(a|?)", ""}, {"(a?b)", "["}, {"((a)?b)", "["}, {"(a)?(b)", "["},
	{"a{?", ""}, {"a{?}", ""}, {"a{2?", ""}, {"a{2?}", ""}, {"a{?2}", ""}, {"a{2,?", ""}, {"a{2,?}", ""}, {"a{2,1?}", ""}, {"a{2,?1}", ""}, {"a{0,?}", ""}, {"a{2,3}?", ""}, {"a{2}?", ""}, {"a{12?}", ""}, {"(a){?}", ""}, {"[a]{?}", ""}, {".{?}", ""}, {"~p{L}{?}", ""}, {"a{3?}b", ""},
	{"[?", ""}, {"[?]", "^]"}, {"[?a]", "^]"}, {"[a?]", ""}, {"[a?b]", ""}, {"[ab?]", ""}, {"[~?]", ""}, {"[~?a]", ""}, {"[a~?]", ""}, {"[^?]", "]^"}, {"[^?a]", "]^"}, {"[^a?]", ""}, {"[^~?]", ""},
	{"[?-z]", "^]-~"}, {"[a-?]", ""}, {"[ca-?]", ""}, {"[a-?c]", ""}, {"[!-~?]", ""}, {"[~?-~~]", ""}, {"[~?-~?]", ""}, {"[-?]", ""}, {"[?-]", "^]"}, {"[~?-]", ""}, {"[a-c?]", ""}, {"[a-c-?]", ""}, {"[a-c?-e]", ""}, {"[^a-?]", ""},
	{"[a]?", ""}, {"[a]?[b]", "["}, {"[a?-b]", "~"},
	{"~p{?}", ""}, {"~P{?}", ""}, {"~p{L?}", ""}, {"~P{N?}", ""}, {"~p{Z?", ""}, {"~p{Lu?", ""}, {"~p?Lu}", ""}, {"[~p{?}]", ""}, {"[~P{S?}a]", ""}, {"[a~p{Z?}]", ""}, {"[^~p{M?}]", ""}, {"~p{Lu}?", ""},
	{"~", ""}, {"~p", ""}, {"~P", ""}, {"~p{", ""}, {"~p{?", ""}, {"~p{L", ""}, {"[", ""}, {"[^", ""}, {"[^?", ""}, {"[a-", ""}, {"[?-", ""}, {"[~", ""}, {"[~p", ""}, {"[~p{", ""}, {"[~p{L", ""}, {"[a-~", ""}, {"[a-~?", ""},
	{"a{", ""}, {"a{1", ""}, {"a{1,", ""}, {"a{1,2", ""}, {"(", ""}, {"(a", ""}, {"(a|", ""}, {"(~p", ""}, {"((a)", ""}, {"(a{", ""}, {"(a{1", ""}, {"([a", ""}, {"a|~p", ""}, {"a|b{", ""}, {"a|[b", ""},
	{"", ""}, {"a||b", ""}, {"()", ""}, {"(|a)", ""}, {"(a|)", ""}, {"a|b|c", ""}, {"((a|b)c)*", ""},
}

func checkC18(p *Prog, r *Report) {
	r.rule = "value-set analysis of the regexp reader on texts with a symbolic character; for each outcome, the set of characters that leads to it and the meaning it gets must be the grammar's"
	r.explain = "The reader is analysed with an abstract interpreter whose characters are symbols with a set of possible code points; each comparison, table lookup and membership test splits the set. For each of the texts the outcomes partition all scalar values; for each part, whether it's accepted and the parsed tree's branches, sets of characters and bounds of repetition are compared with RFC 9485's productions with the documented escape ~."
	r.notCovered = "texts that aren't instances of the templates (the grammar's productions are covered, but not all ways to nest them), ranges that start with ^ or -, and numbers that don't fit 32 bits"
	ai := interpFor(p, r)
	steps0 := ai.steps
	nout, npoints := 0, 0
	// the grammar treats characters from 0x7f up alike, but for the surrogates
	special := map[int64]bool{}
	for c := int64(0); c < 0x100; c++ {
		special[c] = true
	}
	for _, c := range []int64{0xd7ff, 0xe000, 0xfffd, unicodeMax} {
		special[c] = true
	}
	for _, tc := range gTexts {
		name := strings.ReplaceAll(tc.text, "?", "x")
		parts := strings.Split(tc.text, "?")
		dom := scalarValues
		for _, c := range tc.except {
			dom = dom.minus(isPoint(int64(c)))
		}
		var x aSym
		build := func(sym av) []av {
			var t []av
			for i, s := range parts {
				if i > 0 {
					t = append(t, sym)
				}
				cs, _ := aChars(s)
				t = append(t, cs...)
			}
			return t
		}
		outs := readText(ai, func(st *aState) []av {
			x = ai.symbol(st, dom)
			return build(x)
		})
		var covered iset
		bad := ""
		for _, o := range outs {
			nout++
			d := o.st.dom[x.id]
			covered = covered.or(d)
			pts := map[int64]bool{}
			for _, iv := range d {
				pts[iv.lo], pts[iv.hi] = true, true
			}
			for c := range special {
				if d.has(c) {
					pts[c] = true
				}
			}
			if len(parts) == 1 {
				pts = map[int64]bool{'x': true}
			}
			for pt := range pts {
				npoints++
				var t []int64
				for _, e := range build(pt) {
					t = append(t, e.(int64))
				}
				want, ok := gRead(t)
				why := ""
				if ok != o.ok {
					why = "is accepted, which the grammar doesn't"
					if ok {
						why = "is rejected, which the grammar doesn't"
					}
				} else if ok {
					why = ai.diffTree(o.st, o.branches, want, x, pt)
				}
				if why != "" && (bad == "" || len(bad) > 400) {
					bad = fmt.Sprintf("with x=%s (as with %v) the text %s", hex(pt), d, why)
				}
			}
		}
		if bad == "" && !covered.eq(dom) {
			bad = fmt.Sprintf("no outcome for %v", dom.minus(covered))
		}
		r.check(bad == "", "regexp-grammar", fmt.Sprintf("%q", name), "regexp reader", bad)
	}
	r.floor("texts", len(gTexts), 100)
	r.facts["abstract outcomes"] = nout
	r.facts["points compared"] = npoints
	r.facts["abstract steps"] = ai.steps - steps0
}

// diffTree compares a parsed tree with the grammar's
func (ai *aInterp) diffTree(st *aState, have [][]av, want []gBranch, x aSym, pt int64) string {
	if len(have) == 0 && len(want) == 1 && len(want[0]) == 0 || len(want) == 0 && len(have) == 1 && len(have[0]) == 0 {
		return ""
	}
	if len(have) != len(want) {
		return fmt.Sprintf("is read as %d alternatives, not %d", len(have), len(want))
	}
	for i := range have {
		if len(have[i]) != len(want[i]) {
			return fmt.Sprintf("is read as an alternative of %d parts, not %d", len(have[i]), len(want[i]))
		}
		for j, v := range have[i] {
			a, w := ai.atomParts(st, v), want[i][j]
			mn, ok1 := evalAt(a.min, x, pt)
			mx, ok2 := evalAt(a.max, x, pt)
			if !ok1 || !ok2 {
				return "is read with unknown bounds of repetition"
			}
			if mx >= math.MaxInt32-1 {
				mx = gUnbounded
			}
			if mn != w.min || mx != w.max {
				return fmt.Sprintf("is read as repeated %d to %d times, not %d to %d", mn, mx, w.min, w.max)
			}
			if a.sub != w.isSub || a.dot != w.dot {
				return "is read as another kind of part"
			}
			if a.sub {
				if why := ai.diffTree(st, a.subtree, w.sub, x, pt); why != "" {
					return why
				}
				continue
			}
			if a.dot {
				continue
			}
			var rs []ival
			for k, q := range a.ranges {
				lo, ok1 := evalAt(q[0], x, pt)
				hi, ok2 := evalAt(q[1], x, pt)
				if !ok1 || !ok2 {
					return "is read as an unknown set of characters"
				}
				if lo > hi || k > 0 && lo <= rs[k-1].hi {
					return "is read as ranges that are out of order"
				}
				rs = append(rs, ival{lo, hi})
			}
			if s := isFrom(rs).and(scalarValues); !s.eq(w.set.and(scalarValues)) {
				if len(s)+len(w.set) > 12 {
					return "is read as another set of characters"
				}
				return fmt.Sprintf("is read as the characters %v, not %v", s, w.set)
			}
		}
	}
	return ""
}
