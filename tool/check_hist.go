package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checkers["C12"] = checkC12
	checkers["C33"] = checkC33
	checkers["C34"] = checkC34
	checkers["C35"] = checkC35
}

func (h *sysHarness) method(typ, name string) func(s sysState, args ...av) sysState {
	fn := h.p.method(typ, name)
	if fn == nil {
		h.ai.undecided("%s.%s isn't found", typ, name)
	}
	return func(s sysState, args ...av) sysState {
		st := s.st.clone()
		st, rs := h.one(st, fn, append([]av{s.q}, args...)...)
		st.log = nil
		s = sysState{st, s.q}
		if len(rs) == 1 {
			switch r := rs[0].(type) {
			case aPtr:
				s.q = r
			case aNil:
			default:
				h.r.fail("error", h.history, h.p.pos(fn.Pos()), name+" gives an error")
			}
		}
		return s
	}
}

// deps gives the patterns of the texts
var histPatterns = map[string]sysPattern{
	"A":  fields("A", "a=1"),
	"B":  one("B", "a", rvPrefix("1")),
	"C":  fields("C", "a=1", "b=2"),
	"D":  one("D", "a", rvGlob{"wildcard", "*1"}),
	"E":  fields("E", "b=false"),
	"A2": {x: "A", fields: []sysField{{path: "b", vals: []refVal{rvExact("2")}}}},
	"N":  one("N", "a", rvNumber("1"), rvNumber("20")),
	"A3": fields("A", "a=2"),
	"T":  fields("T", "a.b=true", "c=1"),
	"R":  one("R", "b", rvRegexp("[12]?")),
}

func histEvents() []evTemplate {
	d := chars("123")
	return []evTemplate{
		template(nil, `{"a":"`, d, `","b":"`, d, `"}`),
		template(nil, `{"b":"`, d, `"}`),
		template(nil, `{"c":"`, d, `","a":[{"b":[]},"`, d, `",`, d, `]}`),
		template(nil, `{"a":{"b":"`, d, `"},"c":"`, d, `"}`),
		template(nil, `{"a":"`, d, d, `"}`),
	}
}

// script does what a history says: +P adds a pattern, -X deletes, ! rebuilds, ? matches an event, & goes on with a copy,
// ~ changes the build mode, @ makes the next match ask for a rebuild
func (h *sysHarness) script(ops string) {
	mode := "BuiltForComfort"
	h.history = ops
	s := h.instance(mode, "WithPatternDeletion")
	var ps []sysPattern
	check := func(s sysState) {
		f := s.st.clone()
		for _, t := range histEvents() {
			h.event(sysState{f, s.q}, ps, mode, t)
		}
	}
	for _, op := range strings.Fields(ops) {
		switch op[0] {
		case '+':
			p := histPatterns[op[1:]]
			s = h.addPattern(s, p)
			ps = append(append([]sysPattern(nil), ps...), p)
			s.st.log = nil
		case '-':
			s = h.method("Quamina", "DeletePatterns")(s, aIface{t: types.Typ[types.String], v: op[1:]})
			var left []sysPattern
			for _, p := range ps {
				if p.x != op[1:] {
					left = append(left, p)
				}
			}
			ps = left
		case '!':
			m := h.pruner(s)
			s.st = h.method("prunerMatcher", "rebuildWhileLocked")(sysState{s.st, m}, op == "!!").st
		case '?':
			text := `{"a":"1","b":"2"}`
			if len(op) > 1 {
				text = op[1:]
			}
			outs := h.event(s, ps, mode, template(nil, text))
			if len(outs) != 1 {
				h.ai.undecided("a match of a constant event has %d outcomes", len(outs))
			}
			s = outs[0]
			s.st.log = nil
		case '&':
			s = h.method("Quamina", "Copy")(s)
		case '~':
			mode = "BuiltForSpeed"
			s = h.method("Quamina", "SetMatcherBuildMode")(s, h.p.constsOf("MatcherBuildMode")[mode])
		case '@':
			st := s.st.clone()
			m := st.load(h.pruner(s).cell).(aAgg)
			trigger := -1
			str := h.p.namedType("prunerMatcher").Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				if str.Field(i).Name() == "rebuildTrigger" {
					trigger = i
				}
			}
			if trigger < 0 {
				h.ai.undecided("the trigger isn't found")
			}
			c := m.f[trigger].(aIface).v.(aPtr).cell
			st.heap[c] = h.set(st.load(c), "tooMuchFiltering", "MinAction", int64(0))
			s = sysState{st, s.q}
		}
		check(s)
	}
}

// set sets a field of a struct
func (h *sysHarness) set(v av, typ, field string, to av) av {
	str := h.p.namedType(typ).Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == field {
			return aSet(v, []int{i}, to)
		}
	}
	h.ai.undecided("%s.%s isn't found", typ, field)
	return nil
}

func (h *sysHarness) pruner(s sysState) aPtr {
	q := s.st.load(s.q.(aPtr).cell).(aAgg)
	for _, f := range q.f {
		if i, ok := f.(aIface); ok && isPtrToNamed(i.t, "prunerMatcher") {
			return i.v.(aPtr)
		}
	}
	h.ai.undecided("the deleting matcher isn't found")
	return aPtr{}
}

func checkC34(p *Prog, r *Report) {
	r.rule = "abstract interpretation of histories of AddPattern, DeletePatterns, Copy, matches and rebuilds, each followed by events with symbolic values: X is reported exactly if a pattern added with X after the last deletion of X matches"
	var jobs []func(h *sysHarness)
	for _, ops := range []string{
		"+A -A", "+A -A +A", "+A -A ! +A", "+A -A +A2", "+A +A2 -A", "+A +A2 -A ? +A3", "+A +A2 -A ! ?", "+A +B +C -B", "+A +B +C -B !", "+A +B +C -B !!", "+A +B +C -B ! -A !", "+A +B +C -A -B -C", "+A +B +C -A -B -C !",
		"+A +C -A ! +A3 -C ! +C", "+C +E -C", "+C +E -E !", "+N +D -N !", "+N +D -D ! +D", "+T +R -T ! +T -R !", "+D +B ~ +A +N -B !", "~ +D +B +A -D ! +D", "~ +N +B -N ! ~ +N", "+A & +B & -A & !", "+A & -A & +A2 & !",
		"@ +A +B -A ? ? ?", "@ +A +B -A +A2 ? ?", "@ +A +B +C -A ? -B ? -C ? +A", "@ +D +E -D ? ? +D -E ? ?", "@ +A ? ? -A ? ?", "@ +B +A -A & ? & +A ?", "+A +A -A", "+A +A ! -A !", "-A +A", "! +A !", "-A ! +A -B !", "+A -A -A +A ! -A",
		"+A -A +A -A ! +A -A", "+E -E +E ! ? -E", "+A +B +C +D +E +N +T +R -A -C -E !", "+A +B +C +D +E +N +T +R -B -D -N -T ! +B +D", "~ +A +B +C +D +E +N -A -C -E !", "+A ?{\"a\": ?{] -A ?{\"a\":\"1\" ! +A",
	} {
		jobs = append(jobs, func(h *sysHarness) { h.script(ops) })
	}
	if thorough() {
		// every history of four operations
		list := []string{"+A", "+A2", "+C", "-A", "-C", "!", "?", "+B", "-B"}
		for i := 0; i < 9*9*9*9; i++ {
			ops := "+A "
			for k, n := 0, i; k < 4; k, n = k+1, n/9 {
				ops += list[n%9] + " "
			}
			jobs = append(jobs, func(h *sysHarness) { h.script(strings.TrimSpace(ops)) })
		}
	}
	sysJobs(p, r, jobs).finish(500)
	r.explain = "Histories of operations on a deleting instance are interpreted; after every operation five event templates with symbolic bytes are matched from the state that was reached, and which X are reported is compared with a reference that knows which patterns have been added and not deleted. Rebuilds are reached directly (with both arguments) and through the trigger, whose minimum is set to zero for that; the trigger's decision is not part of the property."
	r.notCovered = "other histories and patterns; interleavings of goroutines (C03 to C05); pattern storage that is supplied by a user"
	sysAssume(r)
}

func sysAssume(r *Report) {
	r.assume = append(r.assume, "go/ssa, and the models of library functions (encoding/json's tokens among them)", "errors are made by methods of the flattener that turn a text into an error: their bodies aren't interpreted here (C08 covers them)")
}

func checkC33(p *Prog, r *Report) {
	r.rule = "abstract interpretation of New, AddPattern and MatchesForEvent for numbers in patterns and events with numbers that have symbolic digits, signs and exponents: X is reported exactly if one of its numbers is the same float64"
	dig, sign := chars("0123456789"), chars("+-")
	few := chars("019")
	tmpl := func() []evTemplate {
		return []evTemplate{
			template(nil, `{"a":`, dig, `}`), template(nil, `{"a":-`, dig, `}`), template(nil, `{"a":`, chars("12"), few, few, `}`), template(nil, `{"a":`, few, `.`, dig, few, `}`), template(nil, `{"a":-`, few, `.`, few, few, `}`),
			template(nil, `{"a":`, chars("12"), chars("eE"), dig, `}`), template(nil, `{"a":`, chars("12"), `.`, chars("05"), chars("eE"), sign, few, `}`), template(nil, `{"a":`, chars("12"), `0`, `e`, sign, few, few, `}`), template(nil, `{"a":`, chars("12"), `0000e-`, dig, `}`),
			template(nil, `{"a":0.00`, few, `e`, dig, `}`), template(nil, `{"a":900719925474099`, dig, `}`), template(nil, `{"a":900719925474099`, dig, `.`, few, `}`), template(nil, `{"a":1.797693134862315`, dig, `e308}`), template(nil, `{"a":`, few, `e-32`, chars("34"), `}`), template(nil, `{"a":-`, few, `e30`, dig, `}`),
			template(nil, `{"a":["x",`, few, `,{"a":1},`, few, `e`, few, `]}`), template(nil, `{"a":"`, dig, `"}`), template(nil, `{"a":0.3000000000000000`, dig, `}`), template(nil, `{"a":`, few, `.`, few, `,"b":`, few, `}`), template(nil, `{"a":3141592653589793238`, dig, few, `}`), template(nil, `{"a":18446744073709551`, few, few, dig, `}`),
			template(nil, `{"a":`, chars("-1"), `2147483`, dig, `48}`), template(nil, `{"a":2147483`, dig, `48}`), template(nil, `{"a":`, chars("25"), `14748364`, dig, `}`), template(nil, `{"a":429496729`, dig, `}`), template(nil, `{"a":-429496729`, dig, `.0}`), template(nil, `{"a":922337203685477580`, dig, `}`), template(nil, `{"a":-922337203685477`, chars("56"), `80`, dig, `}`), template(nil, `{"a":123456789012`, few, `4`, dig, `}`), template(nil, `{"a":`, few, few, `5536}`), template(nil, `{"a":1677721`, dig, few, `}`),
		}
	}
	sets := [][]string{
		{"0"}, {"-0"}, {"0.0"}, {"0e5"}, {"1"}, {"1.0"}, {"10e-1"}, {"0.1e1"}, {"-1"}, {"100"}, {"1e2"}, {"1E+2"}, {"1.5"}, {"15e-1"}, {"-0.5"}, {"0.1"}, {"0.10"}, {"9007199254740993"}, {"9007199254740992"}, {"9007199254740991.5"}, {"1.7976931348623157e308"}, {"5e-324"}, {"1e-323"}, {"-1e300"}, {"0.30000000000000004"}, {"31415926535897932384"}, {"18446744073709551615"}, {"1e9", "1e19", "200000"}, {"1", "-1", "10", "0.1"}, {"3", "2e0", "0.2e1", "20E-1"},
		{"2147483648", "-2147483648"}, {"4294967297", "65536"}, {"4294967296", "-4294967295", "16777217"}, {"9223372036854775807", "-9223372036854775808"}, {"123456789012349", "123456789012045"}, {"4294967.295e3", "2.147483647E9", "-2147483649"},
	}
	var jobs []func(h *sysHarness)
	for _, mode := range sysModes {
		for i, set := range sets {
			var vs []refVal
			for _, n := range set {
				vs = append(vs, rvNumber(n))
			}
			jobs = append(jobs, func(h *sysHarness) {
				lists := [][]sysPattern{{one("X", "a", vs...)}, {one("X", "a", vs...), one("Y", "a", rvNumber("1"), rvNumber(sets[(i+7)%len(sets)][0])), fields("Z", "a=1")}}
				if thorough() {
					lists = append(lists, []sysPattern{one("S", "a", rvGlob{"wildcard", "*1*"}), one("X", "a", vs...), one("Y", "a", rvNumber(sets[(i+11)%len(sets)][0]), rvPrefix("1"))})
				}
				for _, ps := range lists {
					s := h.build(mode, ps)
					for _, t := range tmpl() {
						h.event(s, ps, mode, t)
					}
				}
			})
		}
	}
	sysJobs(p, r, jobs).finish(500)
	r.explain = "For sets of numbers as patterns, events with numbers whose digits, signs and exponents are sets of bytes are interpreted; strconv.ParseFloat splits its argument into single texts and gives the float64, which the code's own encoding then goes through. Compared with equality of float64."
	r.notCovered = "other numbers; numbers that float64 can't hold"
	sysAssume(r)
}

func checkC35(p *Prog, r *Report) {
	r.rule = "abstract interpretation of MatchesForEvent for events that are spelled differently: white space (symbolic) between any two tokens, members in each order, characters of names and values written as escapes; what is reported must be what a reference that only sees the denoted members says"
	ws := chars(" \t\n\r")
	digits := []any{chars("0123456789abcdefABCDEF"), chars("0123456789abcdefABCDEF")}
	sets := [][]sysPattern{
		{fields("X", "a=1", "b=2"), fields("Y", "b=2", "c=false"), fields("Z", "a=true", "c=1")},
		{fields("X", "a.b=1", "a.c=2"), fields("Y", "a.c=2", "b=1"), one("Z", "a\nb", rvPrefix("1"))},
		{one("X", "a", rvGlob{"wildcard", "*1*"}), fields("Y", "a=1", "b=1"), one("Z", "b", rvRegexp("[12]*"))},
		{fields("X", "a=12"), one("Y", "a", rvNumber("12")), one("Z", "a", rvCase("aB")), one("W", "a", rvBut{"12", "1"})},
		{one("X", "é", rvExact("€")), one("Y", "a/b", rvExact(`"`)), one("Z", `\`, rvPrefix("1"))},
	}
	d := chars("12")
	gaps := func(tokens ...string) []evTemplate {
		var out []evTemplate
		for i := 0; i <= len(tokens); i++ {
			var parts []any
			for k, t := range tokens {
				if k == i {
					parts = append(parts, ws, ws)
				}
				// D stands for a string of a digit
				if t == "D" {
					parts = append(parts, `"`, d, `"`)
				} else {
					parts = append(parts, t)
				}
			}
			if i == len(tokens) {
				parts = append(parts, ws)
			}
			out = append(out, template(nil, parts...))
		}
		return out
	}
	events := gaps("{", `"a"`, ":", "D", ",", `"x"`, ":", "[", "1", ",", "{", `"b"`, ":", "null", "}", "]", ",", `"b"`, ":", "D", "}")
	events = append(events, gaps("{", `"a"`, ":", "{", `"b"`, ":", "D", ",", `"c"`, ":", "D", "}", ",", `"x"`, ":", "true", ",", `"b"`, ":", "12", "}")...)
	events = append(events, gaps("{", `"a"`, ":", "[", "D", ",", "{", `"c"`, ":", "D", "}", ",", "{", "}", ",", "[", "]", ",", "D", "]", ",", `"b"`, ":", "D", "}")...)
	members := [][]any{{`"a":"`, d, `"`}, {`"b":"`, d, `"`}, {`"c":"1"`}, {`"x":[{"a":"1"}]`}}
	var perm func(done []any, left [][]any)
	perm = func(done []any, left [][]any) {
		if len(left) == 0 {
			events = append(events, template(nil, append(append([]any{"{"}, done...), "}")...))
			return
		}
		for i := range left {
			d := append([]any(nil), done...)
			if len(d) > 0 {
				d = append(d, ",")
			}
			perm(append(d, left[i]...), append(append([][]any(nil), left[:i]...), left[i+1:]...))
		}
	}
	for m := 1; m < 1<<len(members); m++ {
		var left [][]any
		for i, x := range members {
			if m>>i&1 > 0 {
				left = append(left, x)
			}
		}
		perm(nil, left)
	}
	inner := [][]any{{`"b":"`, d, `"`}, {`"c":"`, d, `"`}, {`"d":{"b":"1"}`}}
	var keep []evTemplate
	keep, events = events, nil
	perm(nil, inner)
	for _, e := range events {
		keep = append(keep, template(nil, append(append([]any{`{"a":`}, e.parts...), `,"b":"1"}`)...), template(nil, append(append([]any{`{"b":"1","a":[`}, e.parts...), `]}`)...))
	}
	events = keep
	// every spelling of one character in a name and in a value
	esc := func(parts ...any) { events = append(events, template(nil, parts...)) }
	esc(`{"\u00`, digits, `":"1","b":"2"}`)
	esc(`{"a":"1`, `\u00`, digits, `","b":"2"}`)
	esc(`{"a":"\u00`, digits, `2"}`)
	esc(`{"a":"1\u`, chars("0f"), `03`, digits[:1], `"}`)
	esc(`{"a":{"\u006`, chars("0123456789abcdef"), `":"1","c":"\u003`, d, `"}}`)
	esc(`{"\u00e9":"\u20`, chars("abAB"), chars("cCdD"), `"}`)
	esc(`{"é":"\u20a`, chars("bcCdD"), `"}`)
	esc(`{"a\`, chars(`/b`), `b":"\`, chars(`"\/bfnrt`), `"}`)
	esc(`{"a/b":"\u002`, digits[:1], `"}`)
	esc(`{"\`, chars(`"\/`), `":"1`, plainByte, `"}`)
	esc(`{"\u005`, chars("bcCdD"), `":"\u0031`, plainByte, `"}`)
	esc(`{"x":"\`, chars(`"\/bfnrt`), `","a":"`, d, `"}`)
	esc(`{"x\u0022":{"y\`, chars(`"\`), `":1},"a":"`, d, `","b":"2"}`)
	var jobs []func(h *sysHarness)
	for _, mode := range sysModes {
		for _, ps := range sets {
			jobs = append(jobs, func(h *sysHarness) {
				s := h.build(mode, ps)
				for _, e := range events {
					h.event(s, ps, mode, e)
				}
			})
		}
	}
	sysJobs(p, r, jobs).finish(1000)
	r.explain = "Five sets of patterns in both build modes, and " + fmt.Sprint(len(events)) + " event templates: two symbolic white space characters in each gap between tokens of three events, every order of each subset of four members, orders of nested members, and spellings of characters by escapes with symbolic hexadecimal digits. The reference reads what the event denotes."
	r.notCovered = "other events and patterns; duplicate names"
	sysAssume(r)
}

func checkC12(p *Prog, r *Report) {
	r.rule = "abstract interpretation of two events after each other on one instance: for every outcome of the first one, whether it is accepted, rejected or read only in part, the second one's matches are what a reference says that doesn't know the first one"
	sets := [][]sysPattern{
		{fields("X", "a=1", "b=2"), fields("Y", "a.b=1", "a.c=2"), fields("Z", "c=false", "a=true")},
		{one("X", "a", rvGlob{"wildcard", "*1*"}), one("Y", "a", rvGlob{"wildcard", "*2"}), one("Z", "a", rvRegexp("(1|2)+")), one("N", "a", rvNumber("12"), rvNumber("1"), rvNumber("1.0000000001"), rvNumber("4096.5")), fields("E", "b=false")},
	}
	firsts := []string{
		`{"a":[{"b":"1","c":[]},[["2",{"x":[1]}]]],"b":"2","c":{"d":12}}`,
		`{"x":[{"a":["\\\u0031"]}],"a":{"b":["1",{"c":"2"}],"c":"2"},"c":"1"}`,
		`{"a":12,"b":["\ud834\udd1e",true],"a":-7.3e3,"c":null}`,
	}
	d := chars("12")
	seconds := func() []evTemplate {
		return []evTemplate{
			template(nil, `{"a":"`, d, `","b":"`, d, `"}`), template(nil, `{}`), template(nil, `{"a":[{"b":"1"},{"c":"2"}]}`), template(nil, `{"b":["1","2"],"a":{"c":"`, d, `","b":"1"}}`), template(nil, `{"a":`, d, `}`), template(nil, `{"a":[1.0000000001,"2"]}`), template(nil, `{"a":[409`, chars("67"), `.5,"2"]}`), template(nil, `{"x":1,"c":"1","a":["`, d, `",1`, d, `]}`),
			template(nil, `{"a":[[{"b":"`, d, `"}],{"b":"1","c":"2"}],"b":"2"}`),
		}
	}
	var jobs []func(h *sysHarness)
	for _, mode := range sysModes {
		for _, ps := range sets {
			for _, first := range firsts {
				for i := 0; i <= len(first); i++ {
					for _, t := range []evTemplate{template(nil, first[:i]), template(nil, first[:i], anyASCII), template(nil, first[:i], anyASCII, first[min(i+1, len(first)):])} {
						jobs = append(jobs, func(h *sysHarness) {
							h.history = ""
							key := mode + jsonOf(ps)
							s, ok := h.built[key]
							if !ok {
								s = h.build(mode, ps)
								h.built[key] = s
							}
							outs := h.event(s, ps, mode, t)
							h.history = "after " + t.String()
							for _, o := range outs {
								o.st.log = nil
								for _, t2 := range seconds() {
									h.event(o, ps, mode, t2)
								}
							}
						})
					}
				}
			}
		}
	}
	sysJobs(p, r, jobs).finish(1000)
	r.explain = "First events are three events with arrays, objects, escapes, numbers and unused members, cut off after each byte, cut off and followed by any ASCII byte, or with any ASCII byte in the place of each of their bytes. From each outcome's state, seven event templates with symbolic values are interpreted. Two sets of patterns, both build modes."
	r.notCovered = "other first events, longer histories: what the second event finds is whatever the first one left, and no more than that can be left by several"
	sysAssume(r)
}
