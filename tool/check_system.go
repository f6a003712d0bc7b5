package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The whole of the package, interpreted: an instance is made, patterns are added, and an event some bytes of which can be
// any is matched. The X values reported for each part of the events are compared with those of a reference matcher.

// refVal says what a value must be
type refVal interface {
	// matches says if the characters of a string, without quotes, are matched
	text() string // as JSON
	str(m *refMatch, s []av) bool
	other(m *refMatch, v []av, number bool) int // of what isn't a string: 1 yes, 0 no, -1 not said
}

type refMatch struct{ *refFlat }

type rvExact string
type rvLiteral string
type rvNumber string
type rvPrefix string
type rvGlob struct{ kind, s string }
type rvBut []string
type rvCase string
type rvRegexp string

func jsonText(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (m *refMatch) eq(s []av, w string) bool {
	b := []byte(w)
	if len(b) != len(s) {
		return false
	}
	for i := range b {
		if !m.ask(s[i], isPoint(int64(b[i]))) {
			return false
		}
	}
	return true
}

func (v rvExact) text() string                               { return jsonText(string(v)) }
func (v rvExact) str(m *refMatch, s []av) bool               { return m.eq(s, string(v)) }
func (v rvExact) other(m *refMatch, s []av, number bool) int { return 0 }

func (v rvLiteral) text() string                 { return string(v) }
func (v rvLiteral) str(m *refMatch, s []av) bool { return false }
func (v rvLiteral) other(m *refMatch, s []av, number bool) int {
	if m.eq(s, string(v)) {
		return 1
	}
	return 0
}

func (v rvNumber) text() string                 { return string(v) }
func (v rvNumber) str(m *refMatch, s []av) bool { return false }
func (v rvNumber) other(m *refMatch, s []av, number bool) int {
	if !number {
		return 0
	}
	var b []byte
	for _, x := range s {
		b = append(b, byte(m.pick(x)))
	}
	x, _ := strconv.ParseFloat(string(b), 64)
	y, _ := strconv.ParseFloat(string(v), 64)
	if x == y {
		return 1
	}
	return 0
}

func (v rvPrefix) text() string { return `{"prefix":` + jsonText(string(v)) + `}` }
func (v rvPrefix) str(m *refMatch, s []av) bool {
	return len(s) >= len(v) && m.eq(s[:len(v)], string(v))
}
func (v rvPrefix) other(m *refMatch, s []av, number bool) int { return 0 }

func (v rvGlob) text() string { return `{"` + v.kind + `":` + jsonText(v.s) + `}` }
func (v rvGlob) str(m *refMatch, s []av) bool {
	var toks []int
	for i := 0; i < len(v.s); i++ {
		switch {
		case v.s[i] == '\\' && v.kind == "wildcard":
			i++
			toks = append(toks, int(v.s[i]))
		case v.s[i] == '*':
			toks = append(toks, -1)
		default:
			toks = append(toks, int(v.s[i]))
		}
	}
	at := map[int]bool{0: true}
	spread := func() {
		for i, t := range toks {
			if at[i] && t < 0 {
				at[i+1] = true
			}
		}
	}
	spread()
	for _, c := range s {
		next := map[int]bool{}
		for i, t := range toks {
			if at[i] && (t < 0) {
				next[i] = true
			} else if at[i] && m.ask(c, isPoint(int64(t))) {
				next[i+1] = true
			}
		}
		at = next
		spread()
	}
	return at[len(toks)]
}
func (v rvGlob) other(m *refMatch, s []av, number bool) int { return 0 }

func (v rvBut) text() string {
	b, _ := json.Marshal([]string(v))
	return `{"anything-but":` + string(b) + `}`
}
func (v rvBut) str(m *refMatch, s []av) bool {
	for _, w := range v {
		if m.eq(s, w) {
			return false
		}
	}
	return true
}
func (v rvBut) other(m *refMatch, s []av, number bool) int { return -1 }

func (v rvCase) text() string { return `{"equals-ignore-case":` + jsonText(string(v)) + `}` }
func (v rvCase) str(m *refMatch, s []av) bool {
	rest := s
	for _, c := range string(v) {
		found := false
		for _, f := range refFolds(c) {
			b := []byte(string(f))
			if len(b) <= len(rest) && m.eq(rest[:len(b)], string(b)) {
				rest = rest[len(b):]
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return len(rest) == 0
}
func (v rvCase) other(m *refMatch, s []av, number bool) int { return 0 }

// refFolds are the characters with the same simple case folding as c
func refFolds(c rune) []rune {
	out := []rune{c}
	for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
		out = append(out, f)
	}
	return out
}

func (v rvRegexp) text() string { return `{"regexp":` + jsonText(string(v)) + `}` }
func (v rvRegexp) str(m *refMatch, s []av) bool {
	var t []int64
	for _, c := range string(v) {
		t = append(t, int64(c))
	}
	root, ok := gRead(t)
	if !ok {
		m.ai.undecided("the regexp %s isn't well-formed", string(v))
	}
	return m.branches(root, s, map[int]bool{0: true})[len(s)]
}
func (v rvRegexp) other(m *refMatch, s []av, number bool) int { return 0 }

// branches says where matches of a regexp that begin at any of the given places can end
func (m *refMatch) branches(bs []gBranch, s []av, from map[int]bool) map[int]bool {
	if len(bs) == 0 {
		return from
	}
	out := map[int]bool{}
	for _, b := range bs {
		at := from
		for _, p := range b {
			at = m.piece(p, s, at)
		}
		for i := range at {
			out[i] = true
		}
	}
	return out
}

func (m *refMatch) piece(p gPiece, s []av, from map[int]bool) map[int]bool {
	out := map[int]bool{}
	for n := int64(0); ; n++ {
		if n >= p.min {
			more := false
			for i := range from {
				more = more || !out[i]
				out[i] = true
			}
			if !more {
				return out
			}
		}
		if n >= p.max || len(from) == 0 {
			return out
		}
		if p.isSub {
			from = m.branches(p.sub, s, from)
			continue
		}
		set := p.set
		if p.dot {
			set = isOf(0, unicodeMax)
		}
		next := map[int]bool{}
		for i := 0; i < len(s); i++ {
			if from[i] {
				if n := m.inSet(s[i:], set); n > 0 {
					next[i+n] = true
				}
			}
		}
		from = next
	}
}

// inSet gives the length of the character that s begins with if it's in a set, 0 if it isn't
func (m *refMatch) inSet(s []av, set iset) int {
	n, lo, hi := 1, int64(0), int64(0x7f)
	switch {
	case m.ask(s[0], anyASCII):
		if m.ask(s[0], set) {
			return 1
		}
		return 0
	case m.ask(s[0], isOf(0xc2, 0xdf)):
		n, lo, hi = 2, 0x80, 0x7ff
	case m.ask(s[0], isOf(0xe0, 0xef)):
		n, lo, hi = 3, 0x800, 0xffff
	case m.ask(s[0], isOf(0xf0, 0xf4)):
		n, lo, hi = 4, 0x10000, unicodeMax
	default:
		return 0
	}
	if len(s) < n {
		return 0
	}
	for _, i := range set.and(isOf(lo, hi)).minus(isOf(0xd800, 0xdfff)) {
		for _, p := range utf8Products(i.lo, i.hi, n) {
			in := true
			for k, b := range p {
				in = in && m.ask(s[k], b)
			}
			if in {
				return n
			}
		}
	}
	return 0
}

// utf8Products gives, for a range of characters whose encodings have n bytes, the encodings as products of sets of bytes
func utf8Products(lo, hi int64, n int) [][]iset {
	for k := 1; k < n; k++ {
		m := int64(1)<<(6*k) - 1
		if lo&^m == hi&^m {
			continue
		}
		if lo&m != 0 {
			return append(utf8Products(lo, lo|m, n), utf8Products((lo|m)+1, hi, n)...)
		}
		if hi&m != m {
			return append(utf8Products(lo, hi&^m-1, n), utf8Products(hi&^m, hi, n)...)
		}
	}
	a, b := []byte(string(rune(lo))), []byte(string(rune(hi)))
	var out []iset
	for i := range a {
		out = append(out, isOf(int64(a[i]), int64(b[i])))
	}
	return [][]iset{out}
}

// sysField is what a pattern asks of one path; exists is 1 or 0 if it's an exists pattern
type sysField struct {
	path   string
	vals   []refVal
	exists string
}

type sysPattern struct {
	x      string
	fields []sysField
}

func (p sysPattern) json() string {
	type node struct {
		names []string
		sub   map[string]*node
		text  string
	}
	root := &node{sub: map[string]*node{}}
	for _, f := range p.fields {
		n := root
		for _, s := range strings.Split(f.path, "\n") {
			if n.sub[s] == nil {
				n.sub[s] = &node{sub: map[string]*node{}}
				n.names = append(n.names, s)
			}
			n = n.sub[s]
		}
		if f.exists != "" {
			n.text = `[{"exists":` + f.exists + `}]`
			continue
		}
		var vs []string
		for _, v := range f.vals {
			vs = append(vs, v.text())
		}
		n.text = "[" + strings.Join(vs, ",") + "]"
	}
	var show func(n *node) string
	show = func(n *node) string {
		if n.text != "" {
			return n.text
		}
		var parts []string
		for _, s := range n.names {
			parts = append(parts, jsonText(s)+":"+show(n.sub[s]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return show(root)
}

func one(x, path string, vs ...refVal) sysPattern {
	return sysPattern{x: x, fields: []sysField{{path: path, vals: vs}}}
}

// reported says if a pattern matches the fields: 1, 0 or -1 if it isn't said
func (m *refMatch) reported(p sysPattern, fields []refField) int {
	unsaid := false
	var try func(i int, used []refField) bool
	try = func(i int, used []refField) bool {
		if i == len(p.fields) {
			return true
		}
		f := p.fields[i]
		if f.exists == "false" {
			for _, e := range fields {
				if e.path == f.path {
					return false
				}
			}
			return try(i+1, used)
		}
		for _, e := range fields {
			if e.path != f.path {
				continue
			}
			clash := false
			for _, u := range used {
				for _, a := range u.trail {
					for _, b := range e.trail {
						clash = clash || a.array == b.array && a.pos != b.pos
					}
				}
			}
			if clash {
				continue
			}
			ok := f.exists == "true"
			for _, v := range f.vals {
				if len(e.val) > 0 && m.isQuote(e.val[0]) {
					ok = ok || v.str(m, e.val[1:len(e.val)-1])
				} else {
					switch v.other(m, e.val, e.number) {
					case 1:
						ok = true
					case -1:
						unsaid = true
					}
				}
			}
			if ok && try(i+1, append(append([]refField(nil), used...), e)) {
				return true
			}
		}
		return false
	}
	if try(0, nil) {
		return 1
	}
	if unsaid {
		return -1
	}
	return 0
}

func (m *refMatch) isQuote(v av) bool { return m.ask(v, isPoint('"')) }

// sysHarness interprets the package
type sysHarness struct {
	p                *Prog
	ai               *aInterp
	r                *Report
	newF             *ssa.Function
	add, match       *ssa.Function
	where            string
	sets, events     int
	states           int
	saw              map[string]int
	refuted          int
	decoders         []pToken
	lastSteps, steps int
	history          string // what was done before
	built            map[string]sysState
}

func newSysHarness(p *Prog, r *Report) *sysHarness {
	h := &sysHarness{p: p, r: r, saw: map[string]int{}, built: map[string]sysState{}}
	ai := newInterp(p)
	h.ai = ai
	ai.limit = 1 << 40
	ai.mixed = true
	ai.exact = true
	js := p.prog.ImportedPackage("encoding/json")
	if js == nil {
		ai.undecided("the JSON decoder isn't found")
	}
	delim, number := js.Type("Delim"), js.Type("Number")
	peek := func(st *aState, move bool) pToken {
		n := 0
		for i := len(st.log) - 1; i >= 0; i-- {
			if st.log[i].name == "pattern" {
				break
			}
			if st.log[i].name == "token" {
				n++
			}
		}
		if n >= len(h.decoders) {
			return pToken{k: "eof"}
		}
		if move {
			st.log = append(st.log, aEvent{name: "token"})
		}
		return h.decoders[n]
	}
	ai.ext = func(ai *aInterp, st *aState, name string, args []av, in ssa.CallInstruction) (av, bool) {
		fn := ai.extFn
		switch {
		case strings.HasPrefix(name, "(*sync/atomic.Pointer"):
			p, ok := args[0].(aPtr)
			if !ok {
				return nil, false
			}
			switch fn.Name() {
			case "Load":
				return aGet(st.load(p.cell), p.path), true
			case "Store", "Swap":
				old := aGet(st.load(p.cell), p.path)
				st.heap[p.cell] = aSet(st.load(p.cell), p.path, args[1])
				return old, true
			}
			ai.undecided("atomic operation %s", name)
		case name == "time.Now" || name == "time.Since" || name == "(time.Time).Sub":
			return ai.unknown(in.Value().Type()), true
		case strings.HasPrefix(name, "(*sync.") && (strings.HasSuffix(name, "Lock") || strings.HasSuffix(name, "Unlock")):
			return aNil{}, true
		case p.isOurs(fn) && fn.Signature.Recv() != nil && isPtrToNamed(fn.Signature.Recv().Type(), "flattenJSON"):
			rs, ps := results(fn), params(fn)
			if len(rs) == 1 && isErrorType(rs[0]) && len(ps) == 2 && isKind(ps[1], types.String) {
				return aOpaque{id: -11, tag: "error of the flattener"}, true
			}
		}
		switch name {
		case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
			text, ok := args[0].(string)
			if el, isEl := ai.elems(st, args[0]); isEl && !ok {
				var b []byte
				b, ok = concreteBytes(st, el)
				text = string(b)
			}
			if !ok {
				ai.undecided("the text that is decoded isn't known")
			}
			h.decoders = jsonTokens(text)
			st.log = append(st.log, aEvent{name: "pattern"})
			return aOpaque{id: -12, tag: "decoder"}, true
		case "encoding/json.NewDecoder":
			return aOpaque{id: -12, tag: "decoder"}, true
		case "(*encoding/json.Decoder).Token":
			t := peek(st, true)
			switch t.k {
			case "{", "}", "[", "]":
				return aTuple{[]av{aIface{t: delim.Type(), v: int64(t.k[0])}, aNil{}}}, true
			case "string":
				return aTuple{[]av{aIface{t: types.Typ[types.String], v: t.s}, aNil{}}}, true
			case "number":
				return aTuple{[]av{aIface{t: number.Type(), v: t.s}, aNil{}}}, true
			case "true", "false":
				return aTuple{[]av{aIface{t: types.Typ[types.Bool], v: t.k == "true"}, aNil{}}}, true
			case "null":
				return aTuple{[]av{aNil{}, aNil{}}}, true
			}
			io := p.prog.ImportedPackage("io")
			return aTuple{[]av{aNil{}, st.load(ai.eval(st, io.Var("EOF")).(aPtr).cell)}}, true
		case "(*encoding/json.Decoder).More":
			t := peek(st, false)
			return t.k != "]" && t.k != "}" && t.k != "eof", true
		case "(*encoding/json.Decoder).UseNumber":
			return aNil{}, true
		case "(encoding/json.Number).String":
			return args[0], true
		case "(encoding/json.Delim).String":
			if c, ok := args[0].(int64); ok {
				return string(rune(c)), true
			}
		case "unicode/utf8.Valid", "unicode/utf8.ValidString":
			return true, true
		}
		return nil, false
	}
	ai.initGlobals()
	h.newF = p.funcByName("New")
	h.add, h.match = p.method("Quamina", "AddPattern"), p.method("Quamina", "MatchesForEvent")
	if h.newF == nil || h.add == nil || h.match == nil {
		ai.undecided("the API isn't found")
	}
	h.where = p.pos(h.match.Pos())
	return h
}

// one runs a call that must have one outcome
func (h *sysHarness) one(st *aState, fn *ssa.Function, args ...av) (*aState, []av) {
	np := len(h.ai.problem)
	outs := h.ai.run(st, fn, args)
	if len(h.ai.problem) > np {
		h.ai.undecided("%s can panic: %s", h.p.fname(fn), h.ai.problem[np])
	}
	if len(outs) != 1 {
		h.ai.undecided("%s has %d outcomes", h.p.fname(fn), len(outs))
	}
	if m := outs[0].marks; len(m) > 0 {
		h.ai.undecided("%s: %s", h.p.fname(fn), m[0])
	}
	return outs[0], outs[0].result
}

type sysState struct {
	st *aState
	q  av
}

// instance makes an instance with the given mode
func (h *sysHarness) instance(mode string, options ...string) sysState {
	st := h.ai.newState()
	var opts []av
	for _, o := range options {
		fn := h.p.funcByName(o)
		if fn == nil {
			h.ai.undecided("%s isn't found", o)
		}
		var rs []av
		st, rs = h.one(st, fn, true)
		opts = append(opts, rs[0])
	}
	var list av = aNil{}
	if opts != nil {
		list = h.ai.newSlice(st, opts)
	}
	st, rs := h.one(st, h.newF, list)
	q := rs[0]
	if _, ok := rs[1].(aNil); !ok {
		h.ai.undecided("New gives an error")
	}
	k, ok := h.p.constsOf("MatcherBuildMode")[mode]
	set := h.p.method("Quamina", "SetMatcherBuildMode")
	if !ok || set == nil {
		h.ai.undecided("the build mode isn't found")
	}
	st, _ = h.one(st, set, q, k)
	return sysState{st, q}
}

func (h *sysHarness) addPattern(s sysState, p sysPattern) sysState {
	st := s.st
	st.log = nil
	st, rs := h.one(st, h.add, s.q, aIface{t: types.Typ[types.String], v: p.x}, p.json())
	if _, ok := rs[0].(aNil); !ok {
		h.ai.undecided("the pattern %s is rejected", p.json())
	}
	return sysState{st, s.q}
}

func jsonTokens(text string) []pToken {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var out []pToken
	for {
		t, err := dec.Token()
		if err != nil {
			return out
		}
		switch t := t.(type) {
		case json.Delim:
			out = append(out, pToken{k: t.String()})
		case string:
			out = append(out, pToken{k: "string", s: t})
		case json.Number:
			out = append(out, pToken{k: "number", s: t.String()})
		case bool:
			out = append(out, pToken{k: fmt.Sprint(t)})
		case nil:
			out = append(out, pToken{k: "null"})
		}
	}
}

// build gives an instance with patterns
func (h *sysHarness) build(mode string, ps []sysPattern) sysState {
	s := h.instance(mode)
	for _, p := range ps {
		s = h.addPattern(s, p)
	}
	h.sets++
	s.st.log = nil
	s.st.freeze()
	return s
}

// event matches an event and compares the outcomes
func (h *sysHarness) event(s sysState, ps []sysPattern, mode string, t evTemplate) []sysState {
	t.paths = nil
	events := t.String()
	for _, p := range ps {
		for _, f := range p.fields {
			t.paths = append(t.paths, f.path)
		}
	}
	h.events++
	st := s.st.clone()
	var ev []av
	for _, p := range t.parts {
		switch p := p.(type) {
		case string:
			for i := 0; i < len(p); i++ {
				ev = append(ev, int64(p[i]))
			}
		case iset:
			ev = append(ev, h.ai.symbol(st, p))
		}
	}
	what := func() string {
		var sb []string
		for _, p := range ps {
			sb = append(sb, p.json())
		}
		if h.history != "" {
			return h.history + ", " + mode + " " + strings.Join(sb, " ")
		}
		return mode + " " + strings.Join(sb, " ")
	}
	np := len(h.ai.problem)
	before := h.refuted
	outs := h.ai.run(st, h.match, []av{s.q, h.ai.newSlice(st, ev)})
	for _, pr := range h.ai.problem[np:] {
		h.r.fail("panic", what()+": "+events, h.where, pr)
	}
	var after []sysState
	for _, o := range outs {
		for _, m := range o.marks {
			h.r.fail("undecided", what()+": "+events, h.where, m)
			return after
		}
		after = append(after, sysState{o, s.q})
		var script []bool
		for {
			r := &refFlat{exact: true, st: o, ai: h.ai, ev: ev, dom: map[int64]iset{}, script: script, tree: refTree(t.paths), saw: map[string]bool{}, done: -1}
			status := r.read()
			h.states++
			h.judge(what, o, r, status, ps)
			script = r.script[:r.used]
			for len(script) > 0 && !script[len(script)-1] {
				script = script[:len(script)-1]
			}
			if len(script) == 0 {
				break
			}
			script = append([]bool(nil), script...)
			script[len(script)-1] = false
		}
	}
	if h.refuted == before {
		h.r.pass("match", what()+": "+events, h.where, "")
	}
	return after
}

func (h *sysHarness) judge(what func() string, o *aState, r *refFlat, status string, ps []sysPattern) {
	_, ok := o.result[1].(aNil)
	if status == "valid" && !ok {
		h.refuted++
		if h.refuted <= 40 {
			h.r.fail("match", fmt.Sprintf("event %q, patterns %s", h.example(r), what()), h.where, "the event is rejected")
		}
	}
	if status == "lax" && r.done >= 0 {
		r.fields = r.fields[:r.done]
		status = "valid"
	}
	if status != "valid" || r.dup || !ok {
		h.saw["unspecified"]++
		return
	}
	m := &refMatch{r}
	for i, f := range r.fields {
		r.fields[i].val = r.bytes(f.val)
	}
	got := map[string]int{}
	el, known := h.ai.elems(o, o.result[0])
	for _, e := range el {
		i, ok := e.(aIface)
		s, isS := i.v.(string)
		known = known && ok && isS
		got[s]++
	}
	if !known {
		h.r.fail("undecided", what(), h.where, "the matches aren't known")
		return
	}
	want := map[string]int{}
	for _, p := range ps {
		k := m.reported(p, r.fields)
		if w, ok := want[p.x]; !ok || k == 1 || k == -1 && w == 0 {
			want[p.x] = k
		}
	}
	for x, w := range want {
		if w == 1 {
			h.saw["matches"]++
		} else if w == 0 {
			h.saw["non-matches"]++
		}
		why := ""
		switch {
		case got[x] > 1:
			why = "is reported more than once"
		case w == 1 && got[x] == 0:
			why = "isn't reported but should be"
		case w == 0 && got[x] > 0:
			why = "is reported but shouldn't be"
		default:
			continue
		}
		h.refuted++
		if h.refuted <= 40 {
			h.r.fail("match", fmt.Sprintf("event %q, patterns %s", h.example(r), what()), h.where, fmt.Sprintf("the pattern of %s %s", x, why))
		}
	}
}

func (h *sysHarness) example(r *refFlat) string { return (&evHarness{}).example(r) }

// sysJobs runs jobs on several harnesses at the same time; the result has counted what they did
func sysJobs(p *Prog, r *Report, jobs []func(h *sysHarness)) *sysHarness {
	queue := make(chan func(h *sysHarness), len(jobs))
	for _, j := range jobs {
		queue <- j
	}
	close(queue)
	var mu sync.Mutex
	var sum *sysHarness
	var failed any
	var wg sync.WaitGroup
	for i := 0; i < min(8, runtime.NumCPU()); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					failed = e
					mu.Unlock()
				}
			}()
			h := newSysHarness(p, r)
			for j := range queue {
				mu.Lock()
				stop := failed != nil
				mu.Unlock()
				if stop {
					return
				}
				j(h)
			}
			mu.Lock()
			defer mu.Unlock()
			if sum == nil {
				sum = h
				return
			}
			sum.sets += h.sets
			sum.events += h.events
			sum.states += h.states
			for k, n := range h.saw {
				sum.saw[k] += n
			}
		}()
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	return sum
}

var sysModes = []string{"BuiltForSpeed", "BuiltForComfort"}

func (h *sysHarness) finish(min int) {
	h.r.facts["pattern sets"] = h.sets
	h.r.facts["event templates interpreted"] = h.events
	h.r.facts["outcomes compared"] = h.states
	h.r.facts["X reported as it should be"] = h.saw["matches"]
	h.r.facts["X not reported as it should be"] = h.saw["non-matches"]
	h.r.facts["outcomes about which nothing is said"] = h.saw["unspecified"]
	h.r.floor("outcomes with a match", h.saw["matches"], min)
	h.r.floor("outcomes without a match", h.saw["non-matches"], min)
}
