package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The flattener, interpreted for events some bytes of which can be any, compared with a reference reader of RFC 8259 that
// reads the same bytes as sets.

// refNode is what patterns want to know about an object: its members by name
type refNode struct {
	fields map[string]string
	nodes  map[string]*refNode
}

func refTree(paths []string) *refNode {
	root := &refNode{map[string]string{}, map[string]*refNode{}}
	for _, p := range paths {
		n := root
		segs := strings.Split(p, "\n")
		for _, s := range segs[:len(segs)-1] {
			if n.nodes[s] == nil {
				n.nodes[s] = &refNode{map[string]string{}, map[string]*refNode{}}
			}
			n = n.nodes[s]
		}
		n.fields[segs[len(segs)-1]] = p
	}
	return root
}

func (n *refNode) wanted() []string {
	var out []string
	for s := range n.fields {
		out = append(out, s)
	}
	for s := range n.nodes {
		if _, ok := n.fields[s]; !ok {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

type refPos struct{ array, pos int }

type refField struct {
	path   string
	val    []av
	number bool
	trail  []refPos
}

type refFlat struct {
	exact  bool // escapes are split into their values
	st     *aState
	ai     *aInterp
	ev     []av
	dom    map[int64]iset // the symbols' sets, narrowed
	script []bool
	used   int
	tree   *refNode
	fields []refField
	lax    int
	soft   bool
	dup    bool
	arrays int
	made   []aEvent // hexadecimal numbers that the code didn't need
	at     int
	saw    map[string]bool
	done   int // how many fields there were when all that is wanted of the event had been read, -1 if it hasn't
}

type refEnd struct{ why string }

func (r *refFlat) ask(v av, set iset) bool {
	v = r.st.norm(v)
	if k, ok := v.(int64); ok {
		return set.has(k)
	}
	s := v.(aSym)
	d, ok := r.dom[s.id]
	if !ok {
		d = r.st.dom[s.id]
	}
	set = set.shift(-s.off)
	if d.subset(set) {
		return true
	}
	if d.and(set).empty() {
		return false
	}
	if r.used == len(r.script) {
		r.script = append(r.script, true)
	}
	b := r.script[r.used]
	r.used++
	if b {
		r.dom[s.id] = d.and(set)
	} else {
		r.dom[s.id] = d.minus(set)
	}
	return b
}

func (r *refFlat) is(i int, set iset) bool { return i < len(r.ev) && r.ask(r.ev[i], set) }
func (r *refFlat) char(i int, c rune) bool { return r.is(i, isPoint(int64(c))) }

func (r *refFlat) invalid(why string) {
	if r.lax > 0 {
		panic(refEnd{"lax"})
	}
	panic(refEnd{why})
}

var jsonSpace = isPoint(' ').or(isPoint('\t')).or(isPoint('\n')).or(isPoint('\r'))

func (r *refFlat) space() {
	for r.is(r.at, jsonSpace) {
		r.at++
	}
}

func (r *refFlat) want(c rune, why string) {
	if !r.char(r.at, c) {
		r.invalid(why)
	}
	r.at++
}

// read gives "valid", "lax" or why the event is invalid
func (r *refFlat) read() (status string) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(refEnd)
			if !ok {
				panic(x)
			}
			status = e.why
		}
	}()
	r.space()
	if !r.char(r.at, '{') {
		r.invalid("it isn't a JSON object")
	}
	r.object(r.tree, nil)
	r.space()
	if r.at < len(r.ev) {
		r.invalid("something follows the object")
	}
	return "valid"
}

func (r *refFlat) note(what string) { r.saw[what] = true }

// object reads an object; node is nil if nothing in it is wanted
func (r *refFlat) object(node *refNode, trail []refPos) {
	lax := 0
	root := r.lax == 0 && node == r.tree
	defer func() {
		if !root {
			r.lax -= lax
		}
	}()
	relax := func() {
		if lax == 0 {
			lax = 1
			r.lax++
			if root {
				r.done = len(r.fields)
			}
		}
	}
	todo := map[string]bool{}
	if node != nil {
		for _, w := range node.wanted() {
			todo[w] = true
		}
	}
	r.at++
	if len(todo) == 0 {
		relax()
	}
	r.space()
	if r.char(r.at, '}') {
		r.at++
		return
	}
	for {
		if !r.char(r.at, '"') {
			r.invalid("there's no name of a member")
		}
		name := r.text()
		w := ""
		if node != nil {
			for _, s := range node.wanted() {
				if r.same(name, s) {
					w = s
					break
				}
			}
		}
		r.space()
		r.want(':', "there's no colon after a name")
		r.space()
		if w == "" {
			r.lax++
			r.value(nil, "", false, nil)
			r.lax--
		} else {
			if !todo[w] {
				r.dup = true
			}
			path, leaf := node.fields[w]
			r.value(node.nodes[w], path, leaf, trail)
			delete(todo, w)
			if len(todo) == 0 {
				relax()
			}
		}
		r.space()
		if r.char(r.at, '}') {
			r.at++
			return
		}
		r.want(',', "there's no comma after a member")
		r.space()
		if r.char(r.at, '}') {
			r.soft = true
			r.at++
			return
		}
	}
}

func (r *refFlat) emit(path string, leaf bool, trail []refPos, val []av, number bool) {
	if leaf {
		r.fields = append(r.fields, refField{path: path, val: val, number: number, trail: append([]refPos(nil), trail...)})
	}
}

// value reads a value; node is what is wanted of it if it's an object, leaf says that it's wanted itself
func (r *refFlat) value(node *refNode, path string, leaf bool, trail []refPos) {
	start := r.at
	switch {
	case r.char(r.at, '"'):
		r.note("string")
		if !leaf && node != nil {
			// the member is only used as a node: a string is read all the same
			leaf = false
		}
		t := r.text()
		r.emit(path, leaf, trail, append(append([]av{int64('"')}, t...), int64('"')), false)
	case r.char(r.at, '{'):
		r.note("object")
		if node == nil {
			r.lax++
			defer func() { r.lax-- }()
		}
		r.object(node, trail)
	case r.char(r.at, '['):
		r.note("array")
		id := r.arrays
		r.arrays++
		r.at++
		r.space()
		if r.char(r.at, ']') {
			r.at++
			return
		}
		for n := 0; ; n++ {
			r.value(node, path, leaf, append(append([]refPos(nil), trail...), refPos{id, n}))
			r.space()
			if r.char(r.at, ']') {
				r.at++
				return
			}
			r.want(',', "there's no comma after an element")
			r.space()
			if r.char(r.at, ']') {
				r.soft = true
				r.at++
				return
			}
		}
	case r.char(r.at, 't'):
		r.literal("true")
		r.emit(path, leaf, trail, r.ev[start:r.at], false)
	case r.char(r.at, 'f'):
		r.literal("false")
		r.emit(path, leaf, trail, r.ev[start:r.at], false)
	case r.char(r.at, 'n'):
		r.literal("null")
		r.emit(path, leaf, trail, r.ev[start:r.at], false)
	case r.is(r.at, digits.or(isPoint('-'))):
		r.number()
		r.note("number")
		r.emit(path, leaf, trail, r.ev[start:r.at], true)
	default:
		r.invalid("there's no value")
	}
}

var digits = isOf('0', '9')

func (r *refFlat) digits(why string) {
	if !r.is(r.at, digits) {
		r.invalid(why)
	}
	for r.is(r.at, digits) {
		r.at++
	}
}

func (r *refFlat) number() {
	if r.char(r.at, '-') {
		r.at++
	}
	if r.char(r.at, '0') {
		r.at++
	} else {
		r.digits("a number has no digits")
	}
	if r.char(r.at, '.') {
		r.note("fraction")
		r.at++
		r.digits("a number has no digits after its point")
	}
	if r.is(r.at, isPoint('e').or(isPoint('E'))) {
		r.note("exponent")
		r.at++
		if r.is(r.at, isPoint('+').or(isPoint('-'))) {
			r.at++
		}
		r.digits("a number has no digits in its exponent")
	}
	if !r.is(r.at, jsonSpace.or(isPoint(',')).or(isPoint(']')).or(isPoint('}'))) {
		r.invalid("something else than white space, a comma or a bracket follows a number")
	}
}

func (r *refFlat) literal(l string) {
	for _, c := range l {
		r.want(c, "a literal is misspelt")
	}
	r.note(l)
}

// hex is the number that four hexadecimal digits make
func (r *refFlat) hex(ds []av) av {
	n, all := int64(0), true
	for _, d := range ds {
		k, ok := r.st.norm(d).(int64)
		if !ok {
			all = false
			break
		}
		switch {
		case k <= '9':
			n = n*16 + k - '0'
		default:
			n = n*16 + k&0xf + 9
		}
	}
	if all {
		return n
	}
	for _, e := range append(append([]aEvent(nil), r.st.log...), r.made...) {
		if e.name == "hex" && termKey(aText{e.args}) == termKey(aText{ds}) {
			return e.res
		}
	}
	v := r.ai.symbol(r.st, isOf(0, 0xffff))
	r.made = append(r.made, aEvent{name: "hex", args: ds, res: v})
	return v
}

// bytes are the bytes of a text with characters that were escapes
func (r *refFlat) bytes(text []av) []av {
	var out []av
	for _, v := range text {
		w, ok := v.(refWide)
		if !ok {
			out = append(out, v)
			continue
		}
		k, ok := r.st.norm(w.v).(int64)
		if !ok {
			r.ai.undecided("an escape isn't known")
		}
		for _, b := range []byte(string(rune(k))) {
			out = append(out, int64(b))
		}
	}
	return out
}

// pick splits a byte into its values
func (r *refFlat) pick(v av) int64 {
	v = r.point(v)
	if k, ok := v.(int64); ok {
		return k
	}
	s := v.(aSym)
	d, ok := r.dom[s.id]
	if !ok {
		d = r.st.dom[s.id]
	}
	for _, i := range d {
		for x := i.lo; x < i.hi || x == i.hi; x++ {
			if r.ask(v, isPoint(x+s.off)) {
				return x + s.off
			}
		}
	}
	return -1
}

type refWide struct{ v av } // a character in a text that was an escape

// text reads a string and gives its characters
func (r *refFlat) text() []av {
	r.at++
	var out []av
	for {
		if r.at >= len(r.ev) {
			r.invalid("a string doesn't end")
		}
		switch {
		case r.char(r.at, '"'):
			r.at++
			return out
		case r.char(r.at, '\\'):
			r.note("escape")
			r.at++
			found := false
			for _, e := range [][2]rune{{'"', '"'}, {'\\', '\\'}, {'/', '/'}, {'b', 8}, {'f', 12}, {'n', 10}, {'r', 13}, {'t', 9}} {
				if r.char(r.at, e[0]) {
					out = append(out, int64(e[1]))
					r.at++
					found = true
					break
				}
			}
			if found {
				continue
			}
			if !r.char(r.at, 'u') {
				r.invalid("an escape is malformed")
			}
			r.at++
			v := r.hex4()
			if r.ask(v, isOf(0xd800, 0xdbff)) && r.lowFollows() {
				r.at += 2
				lo := r.hex4()
				r.note("pair")
				out = append(out, refWide{r.pair(v, lo)})
			} else if r.ask(v, isOf(0xd800, 0xdfff)) {
				r.note("lone")
				out = append(out, refWide{int64(0xfffd)})
			} else {
				out = append(out, refWide{v})
			}
		case r.is(r.at, isOf(0, 0x1f)):
			r.invalid("a string has a control character")
		case r.is(r.at, isOf(0x80, 0xff)):
			n := r.utf8()
			out = append(out, r.ev[r.at:r.at+n]...)
			r.at += n
		default:
			out = append(out, r.ev[r.at])
			r.at++
		}
	}
}

func (r *refFlat) hex4() av {
	for i := 0; i < 4; i++ {
		if !r.is(r.at+i, hexDigits) {
			r.invalid("an escape is malformed")
		}
	}
	r.note("unicode escape")
	ds := r.ev[r.at : r.at+4]
	if r.exact {
		ds = append([]av(nil), ds...)
		for i := range ds {
			ds[i] = r.pick(ds[i])
		}
	}
	v := r.hex(ds)
	r.at += 4
	return v
}

func (r *refFlat) lowFollows() bool {
	if !r.char(r.at, '\\') || !r.char(r.at+1, 'u') {
		return false
	}
	for i := 2; i < 6; i++ {
		if !r.is(r.at+i, hexDigits) {
			return false
		}
	}
	return r.ask(r.hex(r.ev[r.at+2:r.at+6]), isOf(0xdc00, 0xdfff))
}

func (r *refFlat) pair(hi, lo av) av {
	hi, lo = r.st.norm(hi), r.st.norm(lo)
	if h, ok := hi.(int64); ok {
		if l, ok := lo.(int64); ok {
			return (h-0xd800)<<10 | (l - 0xdc00) + 0x10000
		}
	}
	for _, e := range r.st.log {
		if e.name == "pair" && termKey(aText{e.args}) == termKey(aText{[]av{hi, lo}}) {
			return e.res
		}
	}
	return aOpaque{id: -1, tag: "pair"}
}

// utf8 gives the length of the UTF-8 sequence here; what isn't one may be accepted or not
func (r *refFlat) utf8() int {
	cont := isOf(0x80, 0xbf)
	for _, f := range []struct {
		first iset
		rest  []iset
	}{
		{isOf(0xc2, 0xdf), []iset{cont}},
		{isPoint(0xe0), []iset{isOf(0xa0, 0xbf), cont}},
		{isOf(0xe1, 0xec).or(isOf(0xee, 0xef)), []iset{cont, cont}},
		{isPoint(0xed), []iset{isOf(0x80, 0x9f), cont}},
		{isPoint(0xf0), []iset{isOf(0x90, 0xbf), cont, cont}},
		{isOf(0xf1, 0xf3), []iset{cont, cont, cont}},
		{isPoint(0xf4), []iset{isOf(0x80, 0x8f), cont, cont}},
	} {
		if !r.is(r.at, f.first) {
			continue
		}
		for i, s := range f.rest {
			if !r.is(r.at+1+i, s) {
				panic(refEnd{"lax"})
			}
		}
		return 1 + len(f.rest)
	}
	panic(refEnd{"lax"})
}

// same says if the text of a name is the wanted one
func (r *refFlat) same(name []av, w string) bool {
	if r.exact {
		name = r.bytes(name)
	}
	if len(name) != len(w) {
		return false
	}
	for i := range name {
		v := name[i]
		if x, ok := v.(refWide); ok {
			v = x.v
		}
		if _, ok := v.(aOpaque); ok {
			return false
		}
		if !r.ask(v, isPoint(int64(w[i]))) {
			return false
		}
	}
	return true
}

// evTemplate is a kind of events: strings and sets of bytes
type evTemplate struct {
	name  string
	paths []string
	parts []any
}

var (
	anyByte  = isOf(0, 255)
	anyASCII = isOf(0, 127)
)

func (t evTemplate) String() string {
	var sb strings.Builder
	for _, p := range t.parts {
		switch p := p.(type) {
		case string:
			sb.WriteString(p)
		case iset:
			sb.WriteString("·")
		}
	}
	return fmt.Sprintf("%s with %q", sb.String(), t.paths)
}

func repeat(s iset, n int) []any {
	var out []any
	for i := 0; i < n; i++ {
		out = append(out, s)
	}
	return out
}

func template(paths []string, parts ...any) evTemplate {
	t := evTemplate{paths: paths}
	for _, p := range parts {
		if l, ok := p.([]any); ok {
			t.parts = append(t.parts, l...)
		} else {
			t.parts = append(t.parts, p)
		}
	}
	return t
}

// evHarness interprets the flattener
type evHarness struct {
	p       *Prog
	ai      *aInterp
	r       *Report
	flatten *ssa.Function
	where   string
	n       int
	states  int
	saw     map[string]int
	prepare func(st *aState, fj av) // changes the flattener before it is used
	refuted int
}

func newEvHarness(p *Prog, r *Report) *evHarness {
	h := &evHarness{p: p, r: r, saw: map[string]int{}}
	h.ai = newInterp(p)
	h.ai.limit = 400000000
	h.ai.mixed = true
	h.ai.ext = func(ai *aInterp, st *aState, name string, args []av, in ssa.CallInstruction) (av, bool) {
		fn := ai.extFn
		if p.isOurs(fn) && fn.Signature.Recv() != nil && isPtrToNamed(fn.Signature.Recv().Type(), "flattenJSON") {
			rs, ps := results(fn), params(fn)
			if len(rs) == 1 && isErrorType(rs[0]) && len(ps) == 2 && isKind(ps[1], types.String) {
				return aOpaque{id: -11, tag: "error of the flattener"}, true
			}
		}
		return nil, false
	}
	h.ai.initGlobals()
	h.flatten = p.method("flattenJSON", "Flatten")
	if h.flatten == nil || p.funcByName("newSegmentsIndex") == nil || p.funcByName("newJSONFlattener") == nil {
		h.ai.undecided("the flattener isn't found")
	}
	h.where = p.pos(h.flatten.Pos())
	return h
}

// one interprets a call that has one outcome
func (h *evHarness) one(st *aState, name string, args ...av) (*aState, av) {
	fn := h.p.funcByName(name)
	outs := h.ai.run(st, fn, args)
	if len(outs) != 1 || len(outs[0].result) != 1 || len(outs[0].marks) > 0 {
		h.ai.undecided("%s has %d outcomes", name, len(outs))
	}
	return outs[0], outs[0].result[0]
}

func (h *evHarness) run(t evTemplate) {
	ai := h.ai
	st := ai.newState()
	st.base = ai.base
	var paths []av
	for _, p := range t.paths {
		paths = append(paths, p)
	}
	st, tree := h.one(st, "newSegmentsIndex", ai.newSlice(st, paths))
	st, fj := h.one(st, "newJSONFlattener")
	if i, ok := fj.(aIface); ok {
		fj = i.v
	}
	if h.prepare != nil {
		h.prepare(st, fj)
	}
	var ev []av
	for _, p := range t.parts {
		switch p := p.(type) {
		case string:
			for i := 0; i < len(p); i++ {
				ev = append(ev, int64(p[i]))
			}
		case iset:
			ev = append(ev, ai.symbol(st, p))
		}
	}
	tt := h.p.namedType("segmentsTree")
	np := len(ai.problem)
	outs := ai.run(st, h.flatten, []av{fj, ai.newSlice(st, ev), aIface{t: types.NewPointer(tt), v: tree}})
	for _, pr := range ai.problem[np:] {
		h.r.fail("panic", t.String(), h.where, pr)
	}
	h.n++
	if len(outs) == 0 && len(ai.problem) == np {
		h.ai.undecided("no outcome for %s", t)
	}
	for _, o := range outs {
		h.compare(t, o, ev)
	}
}

// example is an event of a state
func (h *evHarness) example(r *refFlat) string {
	var b []byte
	for _, v := range r.ev {
		v = r.st.norm(v)
		if s, ok := v.(aSym); ok {
			d, ok := r.dom[s.id]
			if !ok {
				d = r.st.dom[s.id]
			}
			x := int64('?')
			for _, pref := range []iset{isOf('1', '9'), isOf('0', 'z'), isOf(' ', '~'), anyByte} {
				if y := d.and(pref); !y.empty() {
					x = y[0].lo
					break
				}
			}
			b = append(b, byte(x))
			continue
		}
		b = append(b, byte(v.(int64)))
	}
	return string(b)
}

func (h *evHarness) compare(t evTemplate, o *aState, ev []av) {
	for _, m := range o.marks {
		h.r.fail("undecided", t.String(), h.where, m)
		return
	}
	var script []bool
	for {
		r := &refFlat{st: o, ai: h.ai, ev: ev, dom: map[int64]iset{}, script: script, tree: refTree(t.paths), saw: map[string]bool{}, done: -1}
		status := r.read()
		h.states++
		for k := range r.saw {
			h.saw[k]++
		}
		h.judge(t, o, r, status)
		script = r.script[:r.used]
		for len(script) > 0 && !script[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			return
		}
		script = append([]bool(nil), script...)
		script[len(script)-1] = false
	}
}

func (h *evHarness) judge(t evTemplate, o *aState, r *refFlat, status string) {
	if len(o.result) != 2 {
		h.ai.undecided("Flatten has %d results", len(o.result))
	}
	_, ok := o.result[1].(aNil)
	if status == "lax" && ok && r.done >= 0 && !r.dup {
		h.saw["stopped early"]++
		r.fields = r.fields[:r.done]
		status = "valid"
	}
	if status == "lax" || status == "valid" && r.soft && !ok {
		h.saw["unspecified"]++
		return
	}
	fail := func(why string) {
		h.refuted++
		if h.refuted > 40 {
			return
		}
		h.r.fail("event", fmt.Sprintf("%q with %q", h.example(r), t.paths), h.where, why)
	}
	if status != "valid" {
		h.saw["invalid"]++
		if ok {
			fail("is accepted, but " + status)
		} else {
			h.r.pass("rejects", status, h.where, status)
		}
		return
	}
	h.saw["valid"]++
	if !ok {
		fail("is valid, but rejected")
		return
	}
	if r.dup {
		return
	}
	if why := h.sameFields(o, r); why != "" {
		fail(why)
		return
	}
	h.r.pass("accepts", t.String(), h.where, "the fields are those of the event")
}

func (h *evHarness) sameFields(o *aState, r *refFlat) string {
	el, ok := h.ai.elems(o, o.result[0])
	if !ok {
		return "the fields aren't known"
	}
	if len(el) != len(r.fields) {
		return fmt.Sprintf("%d fields are given and not %d", len(el), len(r.fields))
	}
	fT := h.p.namedType("Field")
	pT := h.p.namedType("ArrayPos")
	ids, poss := map[int]int64{}, map[refPos]int64{}
	seenID, seenPos := map[int64]int{}, map[[2]int64]refPos{}
	for i, e := range el {
		a, ok := e.(aAgg)
		if !ok {
			return "a field isn't known"
		}
		w := r.fields[i]
		get := func(n string) av {
			return a.f[fieldNamed(fT, n)]
		}
		path, ok := h.ai.elems(o, get("Path"))
		if !ok {
			return "a path isn't known"
		}
		if s, ok := h.ai.mixedString(o, path).(string); !ok || s != w.path {
			return fmt.Sprintf("field %d has the path %q and not %q", i, s, w.path)
		}
		if n, ok := get("IsNumber").(bool); !ok || n != w.number {
			return fmt.Sprintf("field %d: IsNumber isn't %v", i, w.number)
		}
		val, ok := h.ai.elems(o, get("Val"))
		if !ok {
			return "a value isn't known"
		}
		if why := r.sameText(val, w.val); why != "" {
			return fmt.Sprintf("field %d (%q): %s", i, w.path, why)
		}
		trail, ok := h.ai.elems(o, get("ArrayTrail"))
		if !ok {
			return "an array trail isn't known"
		}
		if len(trail) != len(w.trail) {
			return fmt.Sprintf("field %d (%q): is in %d arrays, but its trail has %d", i, w.path, len(w.trail), len(trail))
		}
		for j, x := range trail {
			b, ok := x.(aAgg)
			if !ok {
				return "an array trail isn't known"
			}
			id, ok1 := b.f[fieldNamed(pT, "Array")].(int64)
			pos, ok2 := b.f[fieldNamed(pT, "Pos")].(int64)
			if !ok1 || !ok2 {
				return "an array trail isn't known"
			}
			t := w.trail[j]
			if k, ok := ids[t.array]; ok && k != id {
				return fmt.Sprintf("field %d (%q): one array has two numbers", i, w.path)
			}
			if k, ok := seenID[id]; ok && k != t.array {
				return fmt.Sprintf("field %d (%q): two arrays have the same number", i, w.path)
			}
			ids[t.array], seenID[id] = id, t.array
			if k, ok := poss[t]; ok && k != pos {
				return fmt.Sprintf("field %d (%q): one element of an array has two positions", i, w.path)
			}
			if k, ok := seenPos[[2]int64{id, pos}]; ok && k != t {
				return fmt.Sprintf("field %d (%q): two elements of an array have the same position", i, w.path)
			}
			poss[t], seenPos[[2]int64{id, pos}] = pos, t
		}
	}
	return ""
}

// sameText compares the bytes of a value with the expected ones; a character from an escape may be followed by a filler
func (r *refFlat) sameText(got, want []av) string {
	j := 0
	for i, w := range want {
		if j >= len(got) {
			return fmt.Sprintf("the value has %d characters and not %d", i, len(want))
		}
		wide := false
		if x, ok := w.(refWide); ok {
			w, wide = x.v, true
		}
		if k, ok := r.st.norm(w).(int64); ok && wide && k > 127 {
			b := []byte(string(rune(k)))
			isRune := false
			if j+1 < len(got) {
				_, isRune = got[j+1].(aFill)
			}
			if !isRune {
				for n, x := range b {
					if j >= len(got) || !r.equal(got[j], int64(x)) {
						return fmt.Sprintf("character %d of the value isn't the one in the event (byte %d of its encoding)", i, n)
					}
					j++
				}
				continue
			}
		}
		if !r.equal(got[j], w) {
			return fmt.Sprintf("character %d of the value isn't the one in the event", i)
		}
		j++
		if j < len(got) {
			if _, ok := got[j].(aFill); ok {
				j++
				continue
			}
		}
		if wide && !r.ask(w, anyASCII) {
			return "a character isn't encoded"
		}
	}
	if j < len(got) {
		return fmt.Sprintf("the value has more than the %d characters in the event", len(want))
	}
	return ""
}

func (r *refFlat) equal(x, y av) bool {
	x, y = r.point(x), r.point(y)
	return termKey(x) == termKey(y)
}

func (r *refFlat) point(v av) av {
	v = r.st.norm(v)
	if s, ok := v.(aSym); ok {
		d, ok := r.dom[s.id]
		if ok {
			if k, one := d.single(); one {
				return k + s.off
			}
		}
	}
	return v
}

func init() {
	checkers["C19"] = checkC19
}

func (h *evHarness) explain() {
	h.r.explain = "Abstract interpretation of Flatten, from a new flattener and the segments tree of a set of paths, for events that are templates: strings in which some bytes are sets of values. Every test of such a byte splits its set, so that each outcome stands for all the events in a product of sets. The reference reader reads the same product of sets and splits it further where it needs to; acceptance, and the path, value, number flag and array trail of each field, must be the same in each part."
	h.r.notCovered = "longer events than the templates', other than by what the reader's states have in common; duplicate names; what follows the last field that is wanted; trailing commas; bytes that aren't UTF-8"
	h.r.assume = append(h.r.assume, "the models of strconv.ParseUint, unicode/utf16 and conversions of strings", "errors are made by methods of the flattener that turn a text into an error: their bodies aren't interpreted here (C08 covers them)")
}

func (h *evHarness) finish(what string, minStates int, saw ...string) {
	h.r.facts["kinds of events"] = h.n
	h.r.facts["abstract outcomes compared"] = h.states
	h.r.floor("abstract outcomes compared", h.states, minStates)
	for _, s := range append(saw, "valid", "invalid") {
		h.r.floor("outcomes with: "+s, h.saw[s], 1)
	}
	if h.refuted > 40 {
		h.r.fail("event", fmt.Sprint(h.refuted-40, " more"), h.where, "further outcomes differ")
	}
}

// chars is a set of bytes
func chars(s string) iset {
	out := iset(nil)
	for _, c := range s {
		out = out.or(isPoint(int64(c)))
	}
	return out
}

func checkC19(p *Prog, r *Report) {
	r.rule = "for each event of the given kinds, some bytes of which can be any, the flattener accepts exactly the numbers and literals that RFC 8259 has, and gives exactly their bytes"
	h := newEvHarness(p, r)
	h.explain()
	leaf := chars("-0123456789tfn")
	for n := 1; n <= 8; n++ {
		h.run(template([]string{"a"}, `{"a":`, leaf, repeat(anyByte, n-1)))
	}
	for n := 1; n <= 6; n++ {
		for _, k := range [][2]string{{`{"a":`, `,"b":2}`}, {`{"a":[`, `,3],"b":2}`}, {`{"x":`, `,"a":1,"b":2}`}, {`{"a":{"b":`, `}}`}, {`{"a":[{"b":`, `},3],"b":2}`}, {`{"x":[`, `,3],"a":1}`}} {
			h.run(template([]string{"a", "b", "a\nb"}, k[0], leaf, repeat(anyASCII, n-1), k[1]))
		}
	}
	h.finish("events", 1000, "number", "true", "false", "null", "fraction", "exponent")
}

func init() { checkers["C28"] = checkC28 }

func checkC28(p *Prog, r *Report) {
	r.rule = "for each event of the given kinds, some bytes of which can be any, the flattener gives the text that RFC 8259 says the strings and names in it are"
	h := newEvHarness(p, r)
	h.explain()
	hex := repeat(hexDigits, 4)
	a := []string{"a"}
	for n := 0; n <= 5; n++ {
		h.run(template(a, `{"a":"`, repeat(anyByte, n), `"}`))
		h.run(template(a, `{"a":["`, repeat(anyASCII, n), `"]}`))
		h.run(template(a, `{"x":"`, repeat(anyASCII, n), `","a":1}`))
		h.run(template(a, `{"x":["`, repeat(anyASCII, n), `"],"a":1}`))
		h.run(template(a, `{"x":{"y":"`, repeat(anyASCII, n), `"},"a":1}`))
		h.run(template([]string{"a", "n\nb"}, `{"n":{"b":1,"y":"`, repeat(anyASCII, n), `"},"a":1}`))
	}
	for n := 0; n <= 4; n++ {
		h.run(template([]string{"ab", "b", "n\nb"}, `{"`, repeat(anyASCII, n), `":1}`))
		h.run(template([]string{"n\nb", "b"}, `{"n":{"`, repeat(anyASCII, n), `":1},"b":2}`))
	}
	for n := 0; n <= 2; n++ {
		h.run(template(a, `{"a":"\u`, hex, repeat(anyByte, n), `"}`))
		h.run(template(a, `{"a":"\u`, hex, `\u`, hex, repeat(anyByte, n), `"}`))
		h.run(template(a, `{"a":"`, repeat(anyByte, n), `\u`, repeat(anyByte, 4), `"}`))
		h.run(template(a, `{"a":"\u`, hex, `\`, repeat(anyByte, n+1), `"}`))
		h.run(template(a, `{"a":["\u`, hex, `\u`, repeat(anyByte, 4), repeat(anyASCII, n), `"]}`))
		h.run(template([]string{"ab", "b"}, `{"\u`, hex, repeat(anyASCII, n), `":1}`))
		h.run(template([]string{"ab", "b"}, `{"`, repeat(anyASCII, n), `\u`, hex, `b":1}`))
		h.run(template([]string{"ab", "b"}, `{"\u`, hex, `\u`, hex, `":1,"`, repeat(anyASCII, n), `":2}`))
		h.run(template(a, `{"\u`, hex, `":"\u`, hex, repeat(anyASCII, n), `"}`))
	}
	h.run(template(a, `{"a":"\u`, hex, `\u`, hex, `\u`, hex, `"}`))
	h.run(template(a, `{"a":"\u`, hex, `\u`, hex, `\u`, hex, `\u`, hex, `"}`))
	h.run(template(a, `{"a":"é\u`, hex, `€\n😀\u`, hex, `"}`))
	// long ones, with what can be anything at different places
	for i := 3; i <= 17; i++ {
		for _, j := range []int{0, 1, 9} {
			h.run(template(a, `{"a":"`, strings.Repeat(`\u0061`, i), `\u`, hex, `\u`, hex, strings.Repeat(`\u00e9`, j), `"}`))
			h.run(template(a, `{"a":"`, strings.Repeat("x", i), anyByte, strings.Repeat("yz", j), anyByte, `\u`, hex, `"}`))
		}
		h.run(template([]string{strings.Repeat("k", i)}, `{"`, strings.Repeat("k", i-1), anyASCII, `":1,"`, strings.Repeat(`\u006b`, i-1), `\u`, hex, `":2}`))
	}
	for _, i := range []int{31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 300} {
		h.run(template(a, `{"a":"`, strings.Repeat("x", i), anyByte, `\u`, hex, `"}`))
		h.run(template(a, `{"x":"`, strings.Repeat("x", i), anyASCII, `","a":"`, strings.Repeat("é", i), anyASCII, `"}`))
	}
	h.finish("events", 1000, "string", "escape", "unicode escape", "pair", "lone")
}

func init() { checkers["C29"] = checkC29 }

func checkC29(p *Prog, r *Report) {
	r.rule = "for each event of the given kinds, some bytes of which can be any, the flattener gives the values that the paths lead to, each with the arrays and elements it is in"
	h := newEvHarness(p, r)
	h.explain()
	s := chars("{}[],: 1")
	t := chars("{}[], 1")
	for _, paths := range [][]string{{"a"}, {"a\nb"}, {"a", "c"}, {"a\nb", "c"}, {"a\nb", "a\nc", "b"}, {"a", "a\nb", "a\nb\nc"}, {"c", "x\nc"}} {
		h.run(template(paths, `{"a"`, repeat(s, 7)))
		h.run(template(paths, `{"a":`, t, t, `"b":1`, t, t, `,"c":2`, t, t, t))
		h.run(template(paths, `{"a":`, t, t, `1`, t, t, `2`, t, t, `,"c":3`, t))
		h.run(template(paths, `{"x":`, t, t, `1`, t, t, `,"c":3`, t, t, `"a":4`, t))
		h.run(template(paths, `{"a":[`, t, `"b":[1`, t, t, `,{"c":2`, t, t, `],"c":3}`))
		h.run(template(paths, `{"a":[{"b":1`, t, t, `"c":2`, t, t, `{"b":3`, t, t, t))
		h.run(template(paths, `{"a":[[1`, t, `[2`, t, t, `{"b":[3`, t, t, t, `"c":4`))
		h.run(template(paths, `{"c":[[1`, t, `2],[3`, t, t, t, `"a":[[{"b":4`, t, t, t, t))
		h.run(template(paths, t, `"a":{"b":`, t, `"c":1`, t, t, `"c":[[1],2`, t, t, t))
	}
	// long and deep ones
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65} {
		r := strings.Repeat
		for _, paths := range [][]string{{"a", "c"}, {"a\nb", "c"}, {"a\nb", "a\nc", "b"}} {
			h.run(template(paths, `{"a":[`, r(`1,`, n), t, t, `"b"`, t, `2],"c":3}`))
			h.run(template(paths, `{"a":`, r(`[`, n), t, `1`, t, r(`]`, n), `,"c":3}`))
			h.run(template(paths, `{"a":`, r(`[0,`, n), t, `1`, t, r(`,[2]]`, n), t, `"c":3}`))
			h.run(template(paths, `{"a":[`, r(`{"b":1,"c":2},`, n), t, `"b":3`, t, `,"c":[4`, t, `],"c":5}`))
			h.run(template(paths, `{`, r(`"x":[{"y":[1]}],`, n), `"a"`, t, t, `"b":1`, t, t, `"c":2`, t))
		}
		deep := r("k\n", n) + "b"
		h.run(template([]string{deep, "k\nb", "b"}, r(`{"k":`, n), t, `"b":1`, t, r(`}`, n-1), `,"b":2}`))
		h.run(template([]string{deep, "k\nb", "b"}, r(`{"k":[`, n), t, `"b":1`, t, r(`]}`, n-1), `],"b":2}`))
	}
	h.finish("events", 1000, "string", "object", "array", "number")
}
