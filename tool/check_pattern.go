package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C27"] = checkC27 }

// The pattern reader, interpreted for each sequence of tokens that a JSON decoder can give (up to a bound on the number of
// elements and on nesting), compared with a reference reader of the documented form of patterns.

type pToken struct {
	k    string // { } [ ] string number true false null error eof
	s    string
	ok   bool // of a regexp: it was accepted
	base bool
}

func (t pToken) String() string {
	if t.k == "string" {
		return fmt.Sprintf("%q", t.s)
	}
	return t.k
}

type pField struct {
	path string
	vals []pVal
}

type pVal struct {
	kind string
	text string
	list []string
}

// refReader reads tokens as PATTERNS.md says. It says "complete", "incomplete" or why the pattern is invalid.
type refReader struct {
	toks   []pToken
	at     int
	fields []pField
	kinds  map[string]string
	regexp bool // what the regexp reader says
}

type refStop struct{ why string }

func (r *refReader) next() pToken {
	if r.at >= len(r.toks) {
		panic(refStop{"incomplete"})
	}
	t := r.toks[r.at]
	r.at++
	if t.k == "error" || t.k == "eof" {
		panic(refStop{"the JSON isn't well-formed"})
	}
	return t
}

func (r *refReader) read() (why string) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(refStop)
			if !ok {
				panic(e)
			}
			why = s.why
		}
	}()
	if r.next().k != "{" {
		return "the pattern isn't an object"
	}
	r.object(nil)
	return "complete"
}

func (r *refReader) object(path []string) {
	for {
		t := r.next()
		if t.k == "}" {
			return
		}
		p := append(append([]string(nil), path...), t.s)
		switch v := r.next(); v.k {
		case "{":
			r.object(p)
		case "[":
			r.array(p)
		default:
			panic(refStop{"a leaf value isn't in an array"})
		}
	}
}

func (r *refReader) array(path []string) {
	f := pField{path: strings.Join(path, "\n")}
	exclusive := false
	for {
		t := r.next()
		n := len(f.vals)
		switch t.k {
		case "]":
			r.fields = append(r.fields, f)
			return
		case "string":
			f.vals = append(f.vals, pVal{kind: "stringType", text: `"` + t.s + `"`})
		case "number":
			f.vals = append(f.vals, pVal{kind: "numberType", text: t.s})
		case "true", "false", "null":
			f.vals = append(f.vals, pVal{kind: "literalType", text: t.k})
		case "{":
			f.vals = append(f.vals, r.special(&exclusive))
		default:
			panic(refStop{"an array in an array"})
		}
		if exclusive && n > 0 {
			// the reader may say so at the end of the array
			r.late("an exclusive value isn't alone")
		}
	}
}

// late: the pattern is invalid, whatever follows
func (r *refReader) late(why string) { panic(refStop{why}) }

func (r *refReader) special(exclusive *bool) pVal {
	t := r.next()
	if t.k == "}" {
		panic(refStop{"an extended pattern is empty"})
	}
	text := func() pToken {
		v := r.next()
		if v.k != "string" {
			panic(refStop{"the value has to be a string"})
		}
		return v
	}
	var out pVal
	switch t.s {
	case "prefix":
		out = pVal{kind: "prefixType", text: `"` + text().s + `"`}
	case "equals-ignore-case":
		out = pVal{kind: "monocaseType", text: `"` + text().s + `"`}
	case "shellstyle", "wildcard":
		s := text().s
		if !refGlob(s, t.s == "wildcard") {
			panic(refStop{"malformed"})
		}
		out = pVal{kind: map[string]string{"shellstyle": "shellStyleType", "wildcard": "wildcardType"}[t.s], text: `"` + s + `"`}
	case "regexp":
		*exclusive = true
		if !text().ok {
			panic(refStop{"malformed regexp"})
		}
		out = pVal{kind: "regexpType"}
	case "exists":
		*exclusive = true
		switch r.next().k {
		case "true":
			out = pVal{kind: "existsTrueType"}
		case "false":
			out = pVal{kind: "existsFalseType"}
		default:
			panic(refStop{"the value has to be true or false"})
		}
	case "anything-but":
		*exclusive = true
		if r.next().k != "[" {
			panic(refStop{"the value has to be an array"})
		}
		out = pVal{kind: "anythingButType"}
		for {
			v := r.next()
			if v.k == "]" {
				break
			}
			if v.k != "string" {
				panic(refStop{"the values have to be strings"})
			}
			out.list = append(out.list, `"`+v.s+`"`)
		}
		if len(out.list) == 0 {
			panic(refStop{"the list is empty"})
		}
	default:
		panic(refStop{"an unknown extended pattern"})
	}
	if r.next().k != "}" {
		panic(refStop{"an extended pattern has more than one member"})
	}
	return out
}

// refGlob: no two unescaped stars side by side, and in wildcards \ only before * and \
func refGlob(s string, escapes bool) bool {
	star := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && escapes:
			i++
			if i == len(s) || s[i] != '*' && s[i] != '\\' {
				return false
			}
			star = false
		case s[i] == '*':
			if star {
				return false
			}
			star = true
		default:
			star = false
		}
	}
	return true
}

// decoder models what a JSON decoder can give next
type decoder struct {
	maxElems, maxMembers, maxDepth int
}

// alternatives lists the tokens that can follow
func (d decoder) alternatives(toks []pToken, numbers bool) []pToken {
	type level struct {
		k       string // of the bracket
		n       int    // elements so far
		key     string // the last key
		wantVal bool
		special bool
	}
	var st []level
	value := func() {
		if len(st) > 0 {
			l := &st[len(st)-1]
			l.n++
			l.wantVal = false
		}
	}
	elems, members := 0, 0
	for _, t := range toks {
		switch t.k {
		case "{", "[":
			sp := len(st) > 0 && (st[len(st)-1].k == "[" || st[len(st)-1].special)
			value()
			st = append(st, level{k: t.k, special: sp})
			elems++
		case "}", "]":
			st = st[:len(st)-1]
		case "string":
			if l := &st[len(st)-1]; l.k == "{" && !l.wantVal {
				l.wantVal, l.key = true, t.s
				members++
				continue
			}
			value()
			elems++
		case "error", "eof":
			return []pToken{{k: "eof"}}
		default:
			value()
			elems++
		}
	}
	bad := []pToken{{k: "error"}, {k: "eof"}}
	if len(toks) == 0 {
		return append(bad, pToken{k: "{"}, pToken{k: "["}, pToken{k: "string", s: "s"}, pToken{k: "number", s: "1"}, pToken{k: "true"}, pToken{k: "null"})
	}
	if len(st) == 0 {
		return []pToken{{k: "eof"}}
	}
	l := st[len(st)-1]
	full := elems >= d.maxElems
	if l.k == "{" && !l.wantVal {
		out := append(bad, pToken{k: "}"})
		if l.special {
			if l.n == 0 {
				for _, s := range []string{"prefix", "equals-ignore-case", "shellstyle", "wildcard", "regexp", "exists", "anything-but", "other"} {
					out = append(out, pToken{k: "string", s: s})
				}
			} else if l.n == 1 {
				out = append(out, pToken{k: "string", s: "prefix"})
			}
		} else if members < d.maxMembers && !full {
			out = append(out, pToken{k: "string", s: fmt.Sprint("key", members)})
		}
		return out
	}
	out := bad
	if l.k == "[" {
		out = append(out, pToken{k: "]"})
		if full {
			return out
		}
	}
	if len(st) < d.maxDepth {
		out = append(out, pToken{k: "{"}, pToken{k: "["})
	}
	switch {
	case l.special && l.key == "shellstyle":
		for _, s := range []string{"a*b", "a**b", `a\b`} {
			out = append(out, pToken{k: "string", s: s})
		}
	case l.special && l.key == "wildcard":
		for _, s := range []string{"a*b", "a**b", `a\*b`, `a\b`} {
			out = append(out, pToken{k: "string", s: s})
		}
	case l.special && l.key == "regexp":
		out = append(out, pToken{k: "string", s: "regexp", ok: true}, pToken{k: "string", s: "bad regexp"})
	default:
		out = append(out, pToken{k: "string", s: "s"})
	}
	out = append(out, pToken{k: "number", s: "12e3"}, pToken{k: "true"}, pToken{k: "false"}, pToken{k: "null"})
	return out
}

type patternRun struct {
	toks   []pToken
	st     *aState
	fields av
	err    av
}

func tokensOf(st *aState) []pToken {
	var out []pToken
	for _, e := range st.log {
		if e.name == "token" {
			out = append(out, e.note.(pToken))
		}
	}
	return out
}

// chooseN splits the state on one of n possibilities
func (tm *termModel) chooseN(st *aState, key string, n int) (int, bool) {
	for i := 0; i < n-1; i++ {
		b, decided := tm.choose(st, fmt.Sprint(key, " is ", i))
		if !decided {
			return 0, false
		}
		if b {
			return i, true
		}
	}
	return n - 1, true
}

// patternRuns interprets patternFromJSON; next says which tokens may follow
func (tm *termModel) patternRuns(next func(st *aState, toks []pToken) []pToken, text func(t pToken, st *aState) av) ([]patternRun, []string) {
	p, ai := tm.p, tm.ai
	fn := p.funcByName("patternFromJSON")
	js := p.prog.ImportedPackage("encoding/json")
	if fn == nil || js == nil {
		ai.undecided("the pattern reader or the JSON decoder isn't found")
	}
	delim, number := js.Type("Delim"), js.Type("Number")
	saved := tm.extra
	defer func() { tm.extra = saved }()
	ioEOF := func(st *aState) av {
		io := p.prog.ImportedPackage("io")
		if io == nil {
			return aOpaque{id: -7, tag: "error EOF"}
		}
		v := st.load(ai.eval(st, io.Var("EOF")).(aPtr).cell)
		return v
	}
	value := func(st *aState, t pToken) (av, av) {
		str := types.Typ[types.String]
		switch t.k {
		case "{", "}", "[", "]":
			return aIface{t: delim.Type(), v: int64(t.k[0])}, aNil{}
		case "string":
			if text != nil {
				if v := text(t, st); v != nil {
					return aIface{t: str, v: v}, aNil{}
				}
			}
			return aIface{t: str, v: t.s}, aNil{}
		case "number":
			for _, e := range st.log {
				if e.name == "UseNumber" {
					return aIface{t: number.Type(), v: t.s}, aNil{}
				}
			}
			return aIface{t: types.Typ[types.Float64], v: aUnk{"number"}}, aNil{}
		case "true", "false":
			return aIface{t: types.Typ[types.Bool], v: t.k == "true"}, aNil{}
		case "null":
			return aNil{}, aNil{}
		case "eof":
			return aNil{}, ioEOF(st)
		}
		return aNil{}, aOpaque{id: -8, tag: "error of the decoder"}
	}
	peek := func(st *aState) (pToken, bool) {
		toks := tokensOf(st)
		if len(toks) > 60 {
			ai.undecided("the reader goes on asking for tokens: %s", showTokens(toks))
		}
		alts := next(st, toks)
		i, decided := tm.chooseN(st, fmt.Sprint("token ", len(toks)), len(alts))
		if !decided {
			return pToken{}, false
		}
		return alts[i], true
	}
	tm.extra = func(st *aState, fn *ssa.Function, name string, args []av, in ssa.CallInstruction) (av, bool) {
		switch name {
		case "(*encoding/json.Decoder).Token":
			t, decided := peek(st)
			if !decided {
				return nil, true
			}
			v, e := value(st, t)
			st.log = append(st.log, aEvent{name: "token", note: t, in: in})
			return aTuple{[]av{v, e}}, true
		case "(*encoding/json.Decoder).More":
			t, decided := peek(st)
			if !decided {
				return nil, true
			}
			return t.k != "]" && t.k != "}" && t.k != "eof", true
		case "(*encoding/json.Decoder).UseNumber":
			st.log = append(st.log, aEvent{name: "UseNumber", in: in})
			return aNil{}, true
		case "(encoding/json.Number).String":
			return args[0], true
		case "(encoding/json.Delim).String":
			if c, ok := args[0].(int64); ok {
				return string(rune(c)), true
			}
		case "unicode/utf8.Valid", "unicode/utf8.ValidString":
			b, decided := tm.choose(st, "valid UTF-8")
			if !decided {
				return nil, true
			}
			st.log = append(st.log, aEvent{name: "valid", res: b, in: in})
			return b, true
		}
		if p.isOurs(fn) && fn.Name() == "readRegexp" {
			s, _ := args[0].(string)
			rt := results(fn)[0]
			tree := aPtr{cell: ai.cell(st, tm.structValue(deref(rt), func(f *types.Var, z av) av { return z }))}
			var e av = aNil{}
			if s != "regexp" {
				e = aOpaque{id: -9, tag: "error of the regexp"}
			}
			return aTuple{[]av{tree, e}}, true
		}
		return nil, false
	}
	st := ai.newState()
	st.base = ai.base
	np := len(ai.problem)
	var out []patternRun
	outs := ai.run(st, fn, []av{ai.sliceUnknown(st)})
	for _, o := range outs {
		r := patternRun{toks: tokensOf(o), st: o}
		if len(o.result) == 2 {
			r.fields, r.err = o.result[0], o.result[1]
		}
		out = append(out, r)
	}
	return out, append([]string(nil), ai.problem[np:]...)
}

// sliceUnknown is a byte slice that isn't known
func (ai *aInterp) sliceUnknown(st *aState) av { return ai.opaque("bytes of a pattern") }

func showTokens(toks []pToken) string {
	var l []string
	for _, t := range toks {
		l = append(l, t.String())
	}
	return strings.Join(l, " ")
}

// readFields turns the result of the reader into what the reference gives
func (tm *termModel) readFields(run *patternRun, kinds map[string]int64) ([]pField, string) {
	ai := tm.ai
	el, ok := ai.elems(run.st, run.fields)
	if !ok {
		return nil, "the fields aren't known"
	}
	pfT, tvT := tm.p.namedType("patternField"), tm.p.namedType("typedVal")
	var out []pField
	for _, e := range el {
		q, ok := e.(aPtr)
		if !ok {
			return nil, "a field isn't known"
		}
		a, ok := aGet(run.st.load(q.cell), q.path).(aAgg)
		if !ok {
			return nil, "a field isn't known"
		}
		var f pField
		s := pfT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isKind(s.Field(i).Type(), types.String) {
				f.path, ok = a.f[i].(string)
				if !ok {
					return nil, "a path isn't known"
				}
				continue
			}
			vs, ok := ai.elems(run.st, a.f[i])
			if !ok {
				return nil, "the values of a field aren't known"
			}
			for _, v := range vs {
				va, ok := v.(aAgg)
				if !ok {
					return nil, "a value isn't known"
				}
				var pv pVal
				vs := tvT.Underlying().(*types.Struct)
				for j := 0; j < vs.NumFields(); j++ {
					ft := vs.Field(j).Type()
					switch {
					case namedName(ft) == "valType":
						for n, k := range kinds {
							if va.f[j] == k {
								pv.kind = n
							}
						}
					case isKind(ft, types.String):
						pv.text, ok = va.f[j].(string)
						if !ok {
							pv.text = "?" + termKey(va.f[j])
						}
					case vs.Field(j).Name() == "list":
						ls, _ := ai.elems(run.st, va.f[j])
						for _, l := range ls {
							bs, ok := ai.elems(run.st, l)
							t := ""
							for _, b := range bs {
								c, isInt := b.(int64)
								ok = ok && isInt
								t += string(rune(c))
							}
							if !ok {
								t = "?"
							}
							pv.list = append(pv.list, t)
						}
					}
				}
				f.vals = append(f.vals, pv)
			}
		}
		out = append(out, f)
	}
	return out, ""
}

func checkC27(p *Prog, r *Report) {
	r.rule = "for each sequence of JSON tokens, the pattern reader accepts and gives what a reference reader of the documented form does, and reports an error otherwise"
	r.explain = "Abstract interpretation of patternFromJSON with the JSON decoder replaced by a model of which tokens can come next; every sequence within the bounds is explored, errors at each point included. The reference reader (refReader) is the documented form."
	r.notCovered = "patterns with more than five values or brackets, three members in an object or depth five; glob texts longer than five characters; what a regexp's text means (C18)"
	r.assume = append(r.assume, "encoding/json's Decoder gives the tokens of RFC 8259's grammar or an error")
	tm := newTermModel(p)
	tm.ai.limit = 40000000
	fn := p.funcByName("patternFromJSON")
	if fn == nil {
		r.fail("anchor", "patternFromJSON", "-", "not found")
		return
	}
	where := p.pos(fn.Pos())
	kinds := p.constsOf("valType")
	n, accepted := 0, 0
	asked := true
	for _, d := range []decoder{{maxElems: 5, maxMembers: 3, maxDepth: 5}} {
		runs, probs := tm.patternRuns(func(st *aState, toks []pToken) []pToken { return d.alternatives(toks, true) }, nil)
		for _, pr := range probs {
			r.fail("panic", pr, where, "reading a pattern can panic")
		}
		for i := range runs {
			run := &runs[i]
			n++
			what := showTokens(run.toks)
			for _, m := range run.st.marks {
				r.fail("undecided", what, where, m)
			}
			ref := refReader{toks: run.toks}
			status := ref.read()
			_, ok := run.err.(aNil)
			valid := false
			for _, e := range run.st.log {
				if e.name == "valid" {
					valid = valid || e.res == true
					if e.res == false {
						status = "the pattern isn't UTF-8"
					}
				}
			}
			if ok {
				accepted++
				asked = asked && valid
				if status != "complete" {
					r.fail("rejects", what, where, "the reader accepts it, but "+status)
					continue
				}
				got, why := tm.readFields(run, kinds)
				if why == "" && fmt.Sprint(got) != fmt.Sprint(ref.fields) {
					why = fmt.Sprintf("it gives %q and not %q", fmt.Sprint(got), fmt.Sprint(ref.fields))
				}
				r.check(why == "", "accepts", what, where, orOK(why, "gives the paths and values in it"))
				continue
			}
			if status == "complete" && len(ref.fields) == 0 {
				continue // a pattern without fields may be rejected
			}
			if status == "complete" || status == "incomplete" {
				r.fail("accepts", what, where, "the reader rejects it, but it's the start of a valid pattern")
			} else {
				r.pass("rejects", status, where, status)
			}
		}
	}
	tm.checkGlobTexts(r, where)
	r.check(asked, "UTF-8", "patterns that aren't UTF-8", where, "a pattern is accepted only if it was found to be valid UTF-8: the decoder would replace what isn't")
	r.facts["sequences of tokens"] = n
	r.floor("sequences of tokens", n, 1000)
	r.floor("patterns accepted", accepted, 100)
}

// checkGlobTexts: the texts of wildcard and shellstyle patterns, their characters being any
func (tm *termModel) checkGlobTexts(r *Report, where string) {
	n := 0
	for _, kind := range []string{"shellstyle", "wildcard"} {
		for size := 0; size <= 5; size++ {
			script := []pToken{{k: "{"}, {k: "string", s: "key"}, {k: "["}, {k: "{"}, {k: "string", s: kind}, {k: "string", s: "TEXT"}, {k: "}"}, {k: "]"}, {k: "}"}, {k: "eof"}}
			next := func(st *aState, toks []pToken) []pToken {
				return []pToken{script[min(len(toks), len(script)-1)]}
			}
			runs, probs := tm.patternRuns(next, func(t pToken, st *aState) av {
				if t.s != "TEXT" {
					return nil
				}
				var cs []av
				for i := 0; i < size; i++ {
					cs = append(cs, tm.ai.symbol(st, isOf(1, 127)))
				}
				st.log = append(st.log, aEvent{name: "text", args: cs})
				if size == 0 {
					return ""
				}
				return aText{cs}
			})
			for _, pr := range probs {
				r.fail("panic", kind+": "+pr, where, "reading a pattern can panic")
			}
			for i := range runs {
				run := &runs[i]
				for _, m := range run.st.marks {
					r.fail("undecided", kind, where, m)
				}
				_, ok := run.err.(aNil)
				utf := true
				var cs []av
				for _, e := range run.st.log {
					if e.name == "text" {
						cs = e.args
					}
					utf = utf && !(e.name == "valid" && e.res == false)
				}
				if !utf {
					continue
				}
				// each combination of kinds of characters that is possible here
				texts := []string{""}
				for _, c := range cs {
					d, _ := run.st.values(c)
					var more []string
					for _, cl := range []iset{isPoint('*'), isPoint('\\'), isOf(1, 127).minus(isPoint('*')).minus(isPoint('\\'))} {
						if x := d.and(cl); !x.empty() {
							for _, t := range texts {
								more = append(more, t+string(rune(x[0].lo)))
							}
						}
					}
					texts = more
				}
				for _, t := range texts {
					n++
					want := refGlob(t, kind == "wildcard")
					if ok == want {
						r.pass("text", fmt.Sprintf("%s of %d characters, valid %v", kind, size, want), where, "is accepted exactly if it's valid")
					} else {
						r.fail("text", fmt.Sprintf("%s %q", kind, t), where, fmt.Sprintf("accepted: %v, valid: %v", ok, want))
					}
				}
			}
		}
	}
	r.floor("kinds of texts of globs", n, 500)
}
