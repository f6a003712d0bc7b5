package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

func init() {
	checkers["C30"] = checkC30
	checkers["C31"] = checkC31
	checkers["C32"] = checkC32
}

var (
	plainByte = isOf(0x20, 0x7f).minus(chars(`"\`))
	contByte  = isOf(0x80, 0xbf)
	// the encodings of characters of each length
	hexDigit  = chars("0123456789abcdefABCDEF")
	wideChars = [][]any{
		{isOf(0xc2, 0xdf), contByte},
		{isPoint(0xe0), isOf(0xa0, 0xbf), contByte},
		{isOf(0xe1, 0xec), contByte, contByte},
		{isPoint(0xed), isOf(0x80, 0x9f), contByte},
		{isOf(0xee, 0xef), contByte, contByte},
		{isPoint(0xf0), isOf(0x90, 0xbf), contByte, contByte},
		{isOf(0xf1, 0xf3), contByte, contByte, contByte},
		{isPoint(0xf4), isOf(0x80, 0x8f), contByte, contByte},
	}
)

// sysKinds are values of each kind, and how long the strings are that they are matched with
var sysKinds = []struct {
	v refVal
	n int
}{
	{rvExact(""), 2}, {rvExact("a"), 3}, {rvExact("ab"), 4}, {rvExact("é"), 3}, {rvExact("a€z"), 3},
	{rvLiteral("true"), 4}, {rvLiteral("false"), 1}, {rvLiteral("null"), 4}, {rvNumber("3"), 2}, {rvNumber("-1.5"), 2},
	{rvPrefix(""), 2}, {rvPrefix("a"), 3}, {rvPrefix("abc"), 5}, {rvPrefix("é"), 3},
	{rvGlob{"shellstyle", "*"}, 3}, {rvGlob{"shellstyle", "a*"}, 4}, {rvGlob{"shellstyle", "*a"}, 4}, {rvGlob{"shellstyle", "ab*cd"}, 6},
	{rvGlob{"shellstyle", "a*a"}, 5}, {rvGlob{"shellstyle", "*ab"}, 4}, {rvGlob{"shellstyle", "ab"}, 3}, {rvGlob{"shellstyle", "*é"}, 3},
	{rvGlob{"wildcard", "*"}, 3}, {rvGlob{"wildcard", "a*b*c"}, 6}, {rvGlob{"wildcard", "*a*"}, 5}, {rvGlob{"wildcard", "*a*b"}, 5}, {rvGlob{"wildcard", "a*ab"}, 5},
	{rvGlob{"wildcard", `a\*b`}, 4}, {rvGlob{"wildcard", `*\**`}, 4}, {rvGlob{"wildcard", `\**a`}, 4}, {rvGlob{"wildcard", ""}, 2}, {rvGlob{"wildcard", "*é*"}, 3}, {rvGlob{"wildcard", "a*b*a*b"}, 6},
	{rvBut{"a"}, 3}, {rvBut{"ab", "c"}, 4}, {rvBut{"ab", "ac", "a"}, 4}, {rvBut{"", "é"}, 3}, {rvBut{"abc", "abd", "b"}, 4},
	{rvCase(""), 2}, {rvCase("a"), 3}, {rvCase("a1k"), 4}, {rvCase("Sé"), 3}, {rvCase("K"), 2}, {rvCase("ſk"), 3},
	{rvRegexp(""), 2}, {rvRegexp("a"), 3}, {rvRegexp("."), 3}, {rvRegexp("a.b"), 4}, {rvRegexp("a*"), 4}, {rvRegexp("a+b"), 5}, {rvRegexp("a?b"), 3}, {rvRegexp("(ab)*"), 5},
	{rvRegexp("a|bc"), 4}, {rvRegexp("(a|b)*c"), 5}, {rvRegexp("a{2,3}"), 5}, {rvRegexp("(ab?){1,2}"), 5}, {rvRegexp("a{2,}"), 5}, {rvRegexp("a{0}b"), 3}, {rvRegexp("[a-c]x"), 3},
	{rvRegexp("[^~P{Nd}0-4]b"), 3}, {rvRegexp("[a-]+"), 3}, {rvRegexp(".*a"), 4}, {rvRegexp("a.*"), 4}, {rvRegexp("a.*b"), 5}, {rvRegexp(".*"), 3}, {rvRegexp("(a*)*b"), 4}, {rvRegexp("(a|)(b|)"), 3},
	{rvRegexp("~*~.a"), 4}, {rvRegexp("[é-ü]"), 2}, {rvRegexp("[^~P{Lt}a-z]"), 2}, {rvRegexp("(a|b){2}(c?)"), 4}, {rvRegexp("(a.|.b)+"), 5}, {rvRegexp("~p{Nd}a"), 3}, {rvRegexp("(a+b?)+"), 4}, {rvRegexp("|a"), 2},
	{rvRegexp("a||b"), 2}, {rvRegexp("(()|a)b"), 3}, {rvRegexp("[0-9]{1,2}~.[0-9]"), 5},
	{rvRegexp("(ab|a)*c"), 5}, {rvRegexp("(ab|a){2,3}"), 5}, {rvRegexp("a{0,2}"), 4}, {rvRegexp("a{0,1}b{2}"), 4}, {rvRegexp("a{2}b"), 4}, {rvRegexp("a{1,}b"), 4}, {rvRegexp("(a|ab)(c|bcd)"), 5}, {rvRegexp("((a|b)c)*"), 5}, {rvRegexp("(a{2}){2}"), 5},
	{rvRegexp("[ab]{2}"), 3}, {rvRegexp(".{2}"), 3}, {rvRegexp("(ab)+"), 5}, {rvRegexp("(a|b)?c"), 3}, {rvRegexp("(ab){2,}"), 6}, {rvRegexp("a*b+c?"), 4}, {rvRegexp("(a?b?)c"), 4}, {rvRegexp("(a*|b)+c"), 4}, {rvRegexp("(a|b|ca|cb)d"), 4}, {rvRegexp("a{0,}b"), 4}, {rvRegexp("(.b)?.{1,2}"), 5}, {rvRegexp("((a)|(b(c|)))*"), 4},
	{rvRegexp("[^~P{Lt}]?a"), 3}, {rvRegexp("[a-cx-z]~n"), 3}, {rvRegexp("a{3,5}"), 7}, {rvRegexp("(a(b|c)*)+d"), 5}, {rvRegexp("é+|ü"), 3}, {rvRegexp("[😀-😂]a*"), 2},
	{rvGlob{"wildcard", "a*a*a"}, 5}, {rvGlob{"wildcard", `a*\\`}, 4}, {rvGlob{"wildcard", `*\\*`}, 4}, {rvGlob{"wildcard", `\\*a`}, 4}, {rvGlob{"wildcard", "*😀"}, 2}, {rvGlob{"wildcard", "é*ü"}, 2}, {rvGlob{"shellstyle", "a*bcb"}, 6}, {rvGlob{"shellstyle", `\*a`}, 4}, {rvGlob{"shellstyle", "*aab"}, 6},
	{rvBut{"ab", "cd"}, 4}, {rvBut{"abc", "aef", "b"}, 4}, {rvBut{"a", "abcd"}, 5}, {rvBut{"éa", "éb", "ü"}, 3}, {rvBut{"x\"", "x"}, 4}, {rvBut{"1", "true"}, 5},
	{rvBut{"kab", "kac", "kad", "med"}, 4}, {rvBut{"a", "ab", "b", "c", "d", "ea", "ebc"}, 4}, {rvBut{"aa", "ab", "ba", "bb"}, 3}, {rvBut{"a", "b", "a"}, 3}, {rvBut{"aaa", "aab", "aba", "baa", "bbb", "cc", "dd", "ee", "abab"}, 5},
	{rvCase("aBc"), 4}, {rvCase("Ⱥa"), 2}, {rvCase("äS"), 3}, {rvCase("k1K"), 4}, {rvCase("İi"), 2}, {rvCase("ΣΑς"), 2}, {rvPrefix(`"`), 3}, {rvPrefix("a€"), 3}, {rvPrefix("1"), 3}, {rvExact("1"), 3}, {rvExact("true"), 5}, {rvExact("😀a"), 2},
}

func checkC30(p *Prog, r *Report) {
	r.rule = "abstract interpretation of New, AddPattern and MatchesForEvent for one pattern of each kind and events with a value that has symbolic bytes: X is reported exactly if the value, as a reference reader reads it, is in the language that the documentation gives the pattern"
	var jobs []func(h *sysHarness)
	for _, k := range sysKinds {
		for _, mode := range sysModes {
			jobs = append(jobs, func(h *sysHarness) {
				ps := []sysPattern{one("X", "a", k.v)}
				s := h.build(mode, ps)
				for n := 0; n <= k.n; n++ {
					h.event(s, ps, mode, template(nil, `{"a":"`, repeat(plainByte, n), `"}`))
				}
				for _, w := range wideChars {
					h.event(s, ps, mode, template(nil, `{"a":"`, w, `"}`))
					h.event(s, ps, mode, template(nil, `{"a":"`, plainByte, w, `"}`))
					h.event(s, ps, mode, template(nil, `{"a":"`, w, plainByte, `"}`))
				}
				h.event(s, ps, mode, template(nil, `{"a":"`, wideChars[0], wideChars[0], `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"\`, chars(`"\/bn`), `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"`, plainByte, `\`, chars(`"\/bn`), plainByte, `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"`, plainByte, `\"\"`, plainByte, `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"\u00`, hexDigit, hexDigit, `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"a\u0000`, plainByte, `"}`))
				h.event(s, ps, mode, template(nil, `{"a":"`, plainByte, `\u`, chars("02"), chars("013"), `0`, chars("0a"), plainByte, `"}`))
				h.event(s, ps, mode, template(nil, `{"a":`, chars("-0123456789tfn"), `}`))
				h.event(s, ps, mode, template(nil, `{"a":`, chars("tfn"), repeat(anyASCII, 3), `}`))
				h.event(s, ps, mode, template(nil, `{"a":-1.`, chars("0123456789"), `}`))
				h.event(s, ps, mode, template(nil, `{"a":[`, chars(`13"`), plainByte, chars(`13"`), `]}`))
				h.event(s, ps, mode, template(nil, `{"b":"`, plainByte, `"}`))
			})
		}
	}
	sysJobs(p, r, jobs).finish(1000)
	r.explain = fmt.Sprint(len(sysKinds)) + " values of the nine kinds, each as the only pattern of an instance, in both build modes. Events have values of up to six symbolic ASCII characters, characters of each length of UTF-8 (all of them), numbers, literals and arrays. The reference says for each set of values whether the documented definition accepts it, and splits the set where it has to."
	r.notCovered = "other pattern texts; longer values; bytes that aren't UTF-8; anything-but with values that aren't strings"
	sysAssume(r)
}

// sysMix are values of each kind that have strings in common with each other
var sysMix = []refVal{
	rvExact("a"), rvExact("ab"), rvExact("b"), rvPrefix("a"), rvPrefix("ab"), rvGlob{"shellstyle", "a*"}, rvGlob{"shellstyle", "*b"}, rvGlob{"wildcard", "*a*"}, rvGlob{"wildcard", "a*b"},
	rvBut{"a"}, rvBut{"ab", "b"}, rvCase("ab"), rvCase("k"), rvRegexp("a."), rvRegexp("a*b"), rvRegexp("(a|b)+"), rvRegexp(".*b"), rvRegexp("a?"), rvNumber("3"), rvLiteral("true"), rvExact(""),
}

func (h *sysHarness) mixed(mode string, ps []sysPattern, n int) {
	s := h.build(mode, ps)
	a := []string{"a"}
	for i := 0; i <= n; i++ {
		h.event(s, ps, mode, template(a, `{"a":"`, repeat(plainByte, i), `"}`))
	}
	h.event(s, ps, mode, template(a, `{"a":"`, wideChars[0], `"}`))
	h.event(s, ps, mode, template(a, `{"a":"`, plainByte, `\u00`, chars("07"), chars("01f"), `"}`))
	h.event(s, ps, mode, template(a, `{"a":"`, plainByte, wideChars[2], `b"}`))
	h.event(s, ps, mode, template(a, `{"a":`, chars("0123456789tfn"), `}`))
	h.event(s, ps, mode, template(a, `{"a":tru`, chars("e\""), `}`))
}

func jsonOf(ps []sysPattern) string {
	s := ""
	for _, p := range ps {
		s += " " + p.x + p.json()
	}
	return s
}

// alone says if a value must be the only one of its field
func alone(v refVal) bool {
	switch v.(type) {
	case rvBut, rvRegexp:
		return true
	}
	return false
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func checkC31(p *Prog, r *Report) {
	r.rule = "abstract interpretation of New, AddPattern and MatchesForEvent for sets of patterns, in both build modes, and events with a value that has symbolic bytes: each X is reported exactly if one of its patterns matches by itself"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	var jobs []func(h *sysHarness)
	add := func(mode string, n int, ps ...sysPattern) {
		jobs = append(jobs, func(h *sysHarness) { h.mixed(mode, ps, n) })
	}
	sets := 40
	if thorough() {
		sets = 250
	}
	for _, mode := range sysModes {
		for _, v := range sysMix {
			for _, w := range sysMix {
				add(mode, 3, one("X", "a", v), one("Y", "a", w))
				if !alone(v) && !alone(w) {
					add(mode, 2, one("X", "a", v, w))
				}
			}
		}
		for i := 0; i < sets; i++ {
			var ps []sysPattern
			for k := 0; k < 3+i%4; k++ {
				v := sysMix[rnd.Intn(len(sysMix))]
				if rnd.Intn(3) == 0 {
					v = sysKinds[rnd.Intn(len(sysKinds))].v
				}
				ps = append(ps, one(string(rune('P'+rnd.Intn(6))), "a", v))
			}
			add(mode, 3, ps...)
		}
		// many patterns: states with many steps, long lists of what to go on with, many matches for a value
		var letters, pairs, same, vals []sysPattern
		var one26 []refVal
		for i := 0; i < 26; i++ {
			l := string(rune('a' + i))
			letters = append(letters, one(strings.ToUpper(l), "a", rvExact(l)))
			pairs = append(pairs, one(strings.ToUpper(l), "a", rvExact("a"+l), rvExact(l+"z"+l)))
			same = append(same, one(strings.ToUpper(l), "a", rvPrefix([]string{"", "a", "b", "ab"}[i%4])))
			one26 = append(one26, rvExact(l+l), rvNumber(strconv.Itoa(i)))
		}
		vals = append(vals, one("X", "a", one26...), one("Y", "a", rvExact("aa"), rvExact("zz"), rvNumber("7")))
		add(mode, 2, letters...)
		add(mode, 3, pairs...)
		add(mode, 2, same...)
		add(mode, 3, vals...)
	}
	sysJobs(p, r, jobs).finish(1000)
	r.explain = "Pairs of values of each kind, as patterns with different X and as values of one pattern, and random sets of three to six patterns, some with the same X, in both build modes; events with values of up to three symbolic ASCII characters, some with characters of two and three bytes, numbers and literals. The reference is the union of what it says of each pattern by itself."
	r.notCovered = "other patterns and longer values; anything-but with values that aren't strings"
	sysAssume(r)
}

// fields makes a pattern from texts: path=value, with value a number, "", true (exists) or false (doesn't exist)
func fields(x string, fs ...string) sysPattern {
	p := sysPattern{x: x}
	for _, f := range fs {
		path, v, _ := strings.Cut(f, "=")
		sf := sysField{path: strings.ReplaceAll(path, ".", "\n")}
		switch {
		case v == "true" || v == "false":
			sf.exists = v
		case v[0] == '*':
			sf.vals = []refVal{rvGlob{"shellstyle", v}}
		default:
			for _, w := range strings.Split(v, "|") {
				sf.vals = append(sf.vals, rvExact(w))
			}
		}
		p.fields = append(p.fields, sf)
	}
	return p
}

var sysMulti = [][]string{
	{"a=1", "b=1"}, {"b=1", "a=1"}, {"a=1|2", "b=2"}, {"a.b=1", "a.c=1"}, {"a.b=1", "a.c=1", "a.d=2"}, {"a.b=1", "b=1"}, {"a.b.c=1", "a.b.d=1"}, {"a.b.c=1", "a.d=1"}, {"a.b=*1", "a.c=1"},
	{"a=true"}, {"a=false"}, {"a=true", "b=1"}, {"a=1", "b=true"}, {"a=false", "b=1"}, {"a=1", "b=false"}, {"a=true", "b=true"}, {"a=false", "b=false"}, {"a=true", "b=false"}, {"a=false", "b=true"},
	{"a=1", "b=false", "c=1"}, {"a=true", "b=1", "c=false"}, {"a=1", "b=true", "c=true"}, {"a=true", "b=true", "c=1"}, {"a=false", "b=false", "c=1"}, {"a=1", "b=false", "c=false"}, {"a=false", "b=1", "c=false"}, {"a=true", "b=false", "c=1"}, {"a=true", "b=false", "c=true"},
	{"a.b=true", "a.c=1"}, {"a.b=1", "a.c=true"}, {"a.b=true", "a.c=true"}, {"a.b=false", "a.c=1"}, {"a.b=1", "a.c=false"}, {"a.b=false"}, {"a.b.c=true", "a.d=1"}, {"a.b=1", "a.c=false", "a.d=1"}, {"a.b=false", "a.c=false"},
	{"a=1", "b=1", "c=1"}, {"a=1", "b=1", "c=2", "d=1"}, {"a=1"}, {"b=2"},
}

func sysShapes() []evTemplate {
	d := chars("12")
	q := func(parts ...any) evTemplate {
		var out []any
		for _, p := range parts {
			s, ok := p.(string)
			if !ok {
				out = append(out, p)
				continue
			}
			// D stands for a string of a digit
			for i, x := range strings.Split(s, "D") {
				if i > 0 {
					out = append(out, `"`, d, `"`)
				}
				out = append(out, x)
			}
		}
		return template(nil, out...)
	}
	name := chars("abc")
	return []evTemplate{
		q(`{"a":D,"b":D}`), q(`{"b":D,"a":D}`), q(`{"`, name, `":D}`), q(`{"`, name, `":D,"`, name, `":D}`), q(`{"`, name, `":D,"`, name, `":D,"`, name, `":D}`), q(`{}`), q(`{"x":D}`),
		q(`{"a":[D,D],"b":[D,D]}`), q(`{"a":[],"b":D}`), q(`{"a":{},"b":D}`), q(`{"a":[[]],"b":D,"c":D}`), q(`{"a":D,"b":{},"c":[]}`),
		q(`{"a":{"b":D,"c":D},"b":D}`), q(`{"a":[{"b":D,"c":D},{"b":D,"c":D}]}`), q(`{"a":[{"b":D},{"c":D}],"b":D}`), q(`{"a":[{"c":D},{"`, name, `":D}]}`), q(`{"a":[{"`, name, `":D,"`, name, `":D},{"`, name, `":D}]}`),
		q(`{"a":[{"b":[D,D],"c":D},{"c":D}]}`), q(`{"a":[[{"b":D},{"c":D}],[{"b":D,"c":D}]]}`), q(`{"a":[{"b":{"c":D,"d":D},"d":D},{"b":{"c":D},"d":D}]}`), q(`{"a":[{"b":[{"c":D},{"c":D,"d":D}],"d":D},{"d":D}]}`),
		q(`{"a":{"b":[{"c":D},{"d":D}],"d":[D,D]}}`), q(`{"a":[{"b":D,"c":D,"d":D},{"b":D,"d":D}]}`), q(`{"a":[D,{"b":D,"c":D}],"b":D}`), q(`{"a":[{"b":D},D,{"c":D}]}`), q(`{"d":D,"c":D,"b":D,"a":D}`),
		q(`{"a":[{"b":D},{"x":D},{"c":D}]}`), q(`{"a":[{"b":[],"c":D}]}`), q(`{"a":D,"d":D}`), q(`{"a":[{"b":D},{"d":D}]}`), q(`{"a":[[D],[D]],"b":[[D,D]]}`),
	}
}

func checkC32(p *Prog, r *Report) {
	r.rule = "abstract interpretation of New, AddPattern and MatchesForEvent for patterns with several fields, exists patterns among them, and events of many shapes with symbolic names and values: X is reported exactly if the event has fields with values as the pattern asks, no two of which come from different elements of the same array"
	var jobs []func(h *sysHarness)
	run := func(ps ...sysPattern) {
		for _, mode := range sysModes {
			jobs = append(jobs, func(h *sysHarness) {
				s := h.build(mode, ps)
				for _, t := range sysShapes() {
					h.event(s, ps, mode, t)
				}
			})
		}
	}
	for i, f := range sysMulti {
		run(fields("X", f...))
		for k, g := range sysMulti {
			if k != i {
				run(fields("X", f...), fields("Y", g...))
			}
		}
	}
	sysJobs(p, r, jobs).finish(1000)
	r.explain = fmt.Sprint(len(sysMulti)) + " patterns with up to four fields, nested and with exists, alone and together with each other one, in both build modes, and " + fmt.Sprint(len(sysShapes())) + " shapes of events with symbolic names and values. The reference looks for a choice of one value for each field without a conflict of array elements."
	r.notCovered = "other patterns and shapes; duplicate names in an event"
	sysAssume(r)
}
