package main

import (
	"cmp"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// A disjunctive abstract interpreter over SSA. Integers are constants or symbols with an offset; a symbol stands for
// any value in a set that is kept per abstract state, and each comparison with a constant splits the state by that set.
// Memory is a set of cells. What isn't known is unk, and a branch on it goes both ways.

type av any

type (
	aSym struct{ id, off int64 } // symbol + offset
	aNil struct{}
	aUnk struct{ why string }
	aPtr struct {
		cell int
		path []int
	}
	aSlice struct {
		cell         int
		path         []int
		off, ln, cap int64
	}
	aAgg   struct{ f []av } // struct or array, never changed in place unless own
	aTuple struct{ f []av }
	aMap   struct{ cell int }
	aIface struct {
		t types.Type
		v av
	}
	aFunc struct {
		fn *ssa.Function
		b  []av
	}
	aOpaque struct { // some non-nil pointer-like value with an identity
		id   int
		tag  string
		wrap []av
		args []av // what it was made from
	}
	aIn struct { // the truth of: symbol id in set
		id  int64
		set iset
	}
	aRel struct { // the truth of a relation between two symbols
		a, b aSym
		op   token.Token
	}
	// aGrown is a number that is known for this run and might be much larger in a longer one: comparisons with numbers
	// below grownFrom are exact, those with larger ones can have either result
	aGrown struct{ k int64 }
	aText  struct{ r []av } // a string whose characters are symbols
	aFill  struct{}         // in text mode each character takes two elements of a byte slice, the second being this
	aIter  struct {
		m    *aMapCell
		s    []av
		pos  *int
		text bool
	}
	aMapCell struct {
		keys []av
		idx  map[string]int
		vals []av
		own  int
	}
)

type aFrame struct {
	fn    *ssa.Function
	env   map[ssa.Value]av
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	pc    int
	ret   ssa.Value // the call in the caller
	defrs []aDefer
}

type aDefer struct {
	fn   *ssa.Function
	args []av
	bind []av
	in   ssa.CallInstruction
}

type aRelFact struct {
	rel   aRel
	truth bool
}

type aState struct {
	frames []*aFrame
	heap   map[int]av
	base   map[int]av
	layers []map[int]av // what was written before the last clonings, oldest first
	dom    map[int64]iset
	rels   []aRelFact
	marks  []string
	result []av
	own    int
	log    []aEvent
}

// aEvent is something that happened on the way to a state
type aEvent struct {
	name string
	args []av
	res  av
	in   ssa.Instruction
	note any
}

type aInterp struct {
	p         *Prog
	next      int
	globals   map[*ssa.Global]int
	base      map[int]av
	steps     int
	limit     int
	ext       func(ai *aInterp, st *aState, name string, args []av, call ssa.CallInstruction) (av, bool)
	problem   []string
	textRunes bool
	exact     bool                                                                          // hexadecimal digits are split into their values
	mixed     bool                                                                          // only characters that aren't known to be ASCII take two elements
	extCall   func(ai *aInterp, st *aState, args []av, call ssa.CallInstruction) (av, bool) // for a call of something unknown
	extFork   []*aState                                                                     // set by ext to have the call done again in other states
	extFn     *ssa.Function                                                                 // the function ext is asked about
	preds     map[string]int64
	addrDown  bool // newer memory has lower addresses
	maxFrames int
	grow      bool // what counts the rounds of a loop may have become large
}

// grownFrom is where the numbers start that the analysed runs are too short to reach
const grownFrom = 64

// grown compares where one number may be larger in a longer run
func (ai *aInterp) grown(st *aState, op token.Token, x, y av) av {
	a, isA := x.(aGrown)
	b, isB := y.(aGrown)
	if !isA {
		if isB {
			if _, ok := x.(int64); ok {
				return ai.grown(st, swapOp(op), y, x)
			}
			return ai.compare(st, op, x, b.k)
		}
		return ai.compare(st, op, x, y)
	}
	if isB {
		y = b.k
	}
	c, ok := y.(int64)
	if !ok || isB || (c < grownFrom && c > -grownFrom) {
		return ai.compare(st, op, a.k, y)
	}
	ai.next++
	return ai.pred(st, fmt.Sprint("grown ", ai.next))
}

// accumulator says if a phi counts something that doesn't happen in every round, and isn't used as an index
func accumulator(ph *ssa.Phi) bool {
	b, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	idle := false
	seen := map[ssa.Value]bool{ph: true}
	var comes func(v ssa.Value) bool
	comes = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			if seen[v] {
				return true
			}
			seen[v] = true
			for _, e := range v.Edges {
				if e == ph {
					idle = true
				}
				if !comes(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			k, ok := v.Y.(*ssa.Const)
			if v.Op != token.ADD || !ok || k.Value == nil || k.Int64() <= 0 {
				return false
			}
			seen[v] = true
			return comes(v.X)
		}
		return false
	}
	for _, e := range ph.Edges {
		if e == ph {
			idle = true
		}
		if !comes(e) {
			return false
		}
	}
	if !idle {
		return false
	}
	for v := range seen {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch u.(type) {
			case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Lookup, *ssa.MakeSlice:
				return false
			}
		}
	}
	return true
}

// aOwners counts the states, to know who may change a map in place
var aOwners atomic.Int64

func newOwner() int { return int(aOwners.Add(1)) }

type aUndecided struct{ msg string }

func (ai *aInterp) undecided(f string, a ...any) { panic(aUndecided{fmt.Sprintf(f, a...)}) }

func newInterp(p *Prog) *aInterp {
	return &aInterp{p: p, globals: map[*ssa.Global]int{}, limit: 20_000_000}
}

func (ai *aInterp) newState() *aState {
	return &aState{heap: map[int]av{}, base: ai.base, dom: map[int64]iset{}, own: newOwner()}
}

func (ai *aInterp) cell(st *aState, v av) int {
	ai.next++
	st.heap[ai.next] = v
	return ai.next
}

func (ai *aInterp) opaque(tag string) av {
	ai.next++
	return aOpaque{id: ai.next, tag: tag}
}

func (st *aState) clone() *aState {
	st.layer()
	n := &aState{base: st.base, layers: st.layers, heap: map[int]av{}, dom: make(map[int64]iset, len(st.dom))}
	for k, v := range st.dom {
		n.dom[k] = v
	}
	n.rels = append([]aRelFact(nil), st.rels...)
	n.marks = append([]string(nil), st.marks...)
	n.log = append([]aEvent(nil), st.log...)
	n.frames = cloneFrames(st.frames)
	st.own, n.own = newOwner(), newOwner()
	return n
}

func cloneFrames(fs []*aFrame) []*aFrame {
	var out []*aFrame
	for _, f := range fs {
		g := *f
		g.env = make(map[ssa.Value]av, len(f.env))
		for k, v := range f.env {
			if it, ok := v.(aIter); ok {
				p := *it.pos
				it.pos = &p
				v = it
			}
			g.env[k] = v
		}
		g.defrs = append([]aDefer{}, f.defrs...)
		out = append(out, &g)
	}
	return out
}

// layer makes what the state has written a layer that it can share with its clones
func (st *aState) layer() {
	if len(st.heap) == 0 {
		return
	}
	ls, top := st.layers[:len(st.layers):len(st.layers)], st.heap
	for len(ls) > 0 && len(ls[len(ls)-1]) < 2*len(top) {
		m := make(map[int]av, len(top)+len(ls[len(ls)-1]))
		for k, v := range ls[len(ls)-1] {
			m[k] = v
		}
		for k, v := range top {
			m[k] = v
		}
		ls, top = ls[:len(ls)-1:len(ls)-1], m
	}
	st.layers, st.heap = append(ls, top), map[int]av{}
}

// written is what the state has written
func (st *aState) written() map[int]av {
	m := map[int]av{}
	for _, l := range append(st.layers[:len(st.layers):len(st.layers)], st.heap) {
		for k, v := range l {
			m[k] = v
		}
	}
	return m
}

func (st *aState) load(c int) av {
	if v, ok := st.heap[c]; ok {
		return v
	}
	for i := len(st.layers) - 1; i >= 0; i-- {
		if v, ok := st.layers[i][c]; ok {
			return v
		}
	}
	if v, ok := st.base[c]; ok {
		return v
	}
	return aUnk{"no cell"}
}

func aGet(v av, path []int) av {
	for _, i := range path {
		a, ok := v.(aAgg)
		if !ok {
			return aUnk{"part of unknown"}
		}
		if i < 0 || i >= len(a.f) {
			return aUnk{"index"}
		}
		v = a.f[i]
	}
	return v
}

func aSet(v av, path []int, x av) av {
	if len(path) == 0 {
		return x
	}
	a, ok := v.(aAgg)
	if !ok {
		return aUnk{"part of unknown"}
	}
	i := path[0]
	if i < 0 || i >= len(a.f) {
		return aUnk{"index"}
	}
	n := append([]av(nil), a.f...)
	n[i] = aSet(n[i], path[1:], x)
	return aAgg{n}
}

func subPath(path []int, i int) []int { return append(append([]int(nil), path...), i) }

func (ai *aInterp) zero(t types.Type) av {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return aNil{}
	case *types.Struct:
		f := make([]av, u.NumFields())
		for i := range f {
			f[i] = ai.zero(u.Field(i).Type())
		}
		return aAgg{f}
	case *types.Array:
		f := make([]av, u.Len())
		for i := range f {
			f[i] = ai.zero(u.Elem())
		}
		return aAgg{f}
	case *types.Tuple:
		f := make([]av, u.Len())
		for i := range f {
			f[i] = ai.zero(u.At(i).Type())
		}
		return aTuple{f}
	}
	return aNil{}
}

func (ai *aInterp) constant(c *ssa.Const) av {
	if c.Value == nil {
		return ai.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value)
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return f
		}
		if x, ok := constant.Int64Val(c.Value); ok {
			return x
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return int64(u)
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	return aUnk{"constant"}
}

func (ai *aInterp) eval(st *aState, v ssa.Value) av {
	switch v := v.(type) {
	case *ssa.Const:
		return ai.constant(v)
	case *ssa.Global:
		c, ok := ai.globals[v]
		if !ok {
			ai.next++
			c = ai.next
			ai.globals[v] = c
			var z av = aUnk{"global " + v.Name()}
			if v.Pkg == ai.p.pkg {
				z = ai.zero(v.Type().(*types.Pointer).Elem())
			} else if isErrorType(v.Type().(*types.Pointer).Elem()) {
				z = ai.opaque("error " + v.Name())
			}
			st.heap[c] = z
			if ai.base != nil && v.Pkg != ai.p.pkg {
				ai.base[c] = z
			}
		}
		return aPtr{cell: c}
	case *ssa.Function:
		return aFunc{fn: v}
	case *ssa.Builtin:
		return aUnk{"builtin"}
	}
	f := st.frames[len(st.frames)-1]
	if x, ok := f.env[v]; ok {
		return x
	}
	return aUnk{"undefined " + v.Name()}
}

// symbols

func (ai *aInterp) symbol(st *aState, dom iset) aSym {
	ai.next++
	id := int64(ai.next)
	st.dom[id] = dom
	return aSym{id: id}
}

// values is the set of values v can have, nil,false if it isn't an integer that is known
func (st *aState) values(v av) (iset, bool) {
	switch v := v.(type) {
	case int64:
		return isPoint(v), true
	case aGrown:
		return isPoint(v.k), true
	case aSym:
		return st.dom[v.id].shift(v.off), true
	}
	return nil, false
}

// norm turns a symbol with one possible value into a constant
func (st *aState) norm(v av) av {
	if g, ok := v.(aGrown); ok {
		return g.k
	}
	if s, ok := v.(aSym); ok {
		if x, ok := st.dom[s.id].single(); ok {
			return x + s.off
		}
	}
	if t, ok := v.(aText); ok {
		var sb strings.Builder
		for _, r := range t.r {
			x, ok := st.norm(r).(int64)
			if !ok {
				return v
			}
			sb.WriteRune(rune(x))
		}
		return sb.String()
	}
	return v
}

func wrapInt(t types.Type, x int64) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8:
			return int64(int8(x))
		case types.Int16:
			return int64(int16(x))
		case types.Int32:
			return int64(int32(x))
		case types.Uint8:
			return int64(uint8(x))
		case types.Uint16:
			return int64(uint16(x))
		case types.Uint32:
			return int64(uint32(x))
		}
	}
	return x
}

func typeRange(t types.Type) iset {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8:
			return isOf(math.MinInt8, math.MaxInt8)
		case types.Int16:
			return isOf(math.MinInt16, math.MaxInt16)
		case types.Int32:
			return isOf(math.MinInt32, math.MaxInt32)
		case types.Uint8:
			return isOf(0, math.MaxUint8)
		case types.Uint16:
			return isOf(0, math.MaxUint16)
		case types.Uint32:
			return isOf(0, math.MaxUint32)
		case types.Uint, types.Uint64, types.Uintptr:
			return isOf(0, math.MaxInt64)
		}
	}
	return isAll
}

func (ai *aInterp) key(v av) (string, bool) {
	switch v := v.(type) {
	case int64:
		return fmt.Sprint("i", v), true
	case aGrown:
		return fmt.Sprint("i", v.k), true
	case string:
		return "s" + v, true
	case bool:
		return fmt.Sprint("b", v), true
	case aPtr:
		return fmt.Sprint("p", v.cell, v.path), true
	case aOpaque:
		return fmt.Sprint("o", v.id), true
	case aNil:
		return "nil", true
	case float64:
		return fmt.Sprint("f", v), true
	case aIface:
		k, ok := ai.key(v.v)
		return "I" + v.t.String() + k, ok
	case aAgg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range v.f {
			k, ok := ai.key(x)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ",")
		}
		return sb.String() + "}", true
	}
	return "", false
}

// binop computes an operation; the result may be a condition on a symbol
func (ai *aInterp) binop(st *aState, in *ssa.BinOp) av {
	rx, ry := ai.eval(st, in.X), ai.eval(st, in.Y)
	x, y := st.norm(rx), st.norm(ry)
	_, gx := rx.(aGrown)
	_, gy := ry.(aGrown)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if gx || gy {
			if !gx {
				rx = x
			}
			if !gy {
				ry = y
			}
			return ai.grown(st, in.Op, rx, ry)
		}
		if t, ok := in.X.Type().Underlying().(*types.Basic); ok && (t.Kind() == types.Uint64 || t.Kind() == types.Uint || t.Kind() == types.Uintptr) {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				return opSet(in.Op, int64(uint64(b)^1<<63)).has(int64(uint64(a) ^ 1<<63))
			}
		}
		if a, ok := x.(float64); ok {
			if b, ok := y.(float64); ok {
				switch in.Op {
				case token.EQL:
					return a == b
				case token.NEQ:
					return a != b
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				default:
					return a >= b
				}
			}
		}
		return ai.compare(st, in.Op, x, y)
	}
	if a, ok := x.(float64); ok {
		if b, ok := y.(float64); ok {
			switch in.Op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
		}
	}
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			var r int64
			if t, ok := in.Type().Underlying().(*types.Basic); ok && (t.Kind() == types.Uint64 || t.Kind() == types.Uint || t.Kind() == types.Uintptr) && a < 0 {
				switch in.Op {
				case token.SHR:
					return int64(uint64(a) >> uint64(b))
				case token.QUO:
					if b != 0 {
						return int64(uint64(a) / uint64(b))
					}
				case token.REM:
					if b != 0 {
						return int64(uint64(a) % uint64(b))
					}
				}
			}
			switch in.Op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				if b == 0 {
					return aUnk{"division"}
				}
				r = a / b
			case token.REM:
				if b == 0 {
					return aUnk{"division"}
				}
				r = a % b
			case token.AND:
				r = a & b
			case token.OR:
				r = a | b
			case token.XOR:
				r = a ^ b
			case token.AND_NOT:
				r = a &^ b
			case token.SHL:
				if b < 0 || b > 63 {
					return aUnk{"shift"}
				}
				r = a << uint(b)
			case token.SHR:
				if b < 0 || b > 63 {
					return aUnk{"shift"}
				}
				r = a >> uint(b)
			default:
				return aUnk{"op"}
			}
			if w := wrapInt(in.Type(), r); gx || gy {
				return aGrown{w}
			} else {
				return w
			}
		}
	}
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok && in.Op == token.ADD {
			return a + b
		}
	}
	if in.Op == token.ADD {
		xt, ok1 := aChars(x)
		yt, ok2 := aChars(y)
		if ok1 && ok2 {
			return aText{append(append([]av(nil), xt...), yt...)}
		}
	}
	shift := func(s aSym, k int64) av {
		n := aSym{s.id, s.off + k}
		vs, _ := st.values(n)
		if !vs.subset(typeRange(in.Type())) {
			return aUnk{"overflow"}
		}
		return n
	}
	if s, ok := x.(aSym); ok {
		if k, ok := y.(int64); ok {
			switch in.Op {
			case token.ADD:
				return shift(s, k)
			case token.SUB:
				return shift(s, -k)
			}
		}
	}
	if s, ok := y.(aSym); ok {
		if k, ok := x.(int64); ok && in.Op == token.ADD {
			return shift(s, k)
		}
	}
	return aUnk{"op " + in.Op.String()}
}

func aChars(v av) ([]av, bool) {
	switch v := v.(type) {
	case string:
		var out []av
		for _, r := range v {
			out = append(out, int64(r))
		}
		return out, true
	case aText:
		return v.r, true
	}
	return nil, false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// opSet is the set of x for which x op k holds
func opSet(op token.Token, k int64) iset {
	switch op {
	case token.EQL:
		return isPoint(k)
	case token.NEQ:
		return isPoint(k).not()
	case token.LSS:
		if k == math.MinInt64 {
			return nil
		}
		return isOf(math.MinInt64, k-1)
	case token.LEQ:
		return isOf(math.MinInt64, k)
	case token.GTR:
		if k == math.MaxInt64 {
			return nil
		}
		return isOf(k+1, math.MaxInt64)
	}
	return isOf(k, math.MaxInt64)
}

func (ai *aInterp) compare(st *aState, op token.Token, x, y av) av {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return opSet(op, b).has(a)
		}
		if _, ok := y.(aSym); ok {
			return ai.compare(st, swapOp(op), y, x)
		}
	}
	if s, ok := x.(aSym); ok {
		if b, ok := y.(int64); ok {
			set := opSet(op, b).shift(-s.off)
			d := st.dom[s.id]
			if d.subset(set) {
				return true
			}
			if d.and(set).empty() {
				return false
			}
			return aIn{s.id, set}
		}
		if t, ok := y.(aSym); ok {
			if s.id == t.id {
				return opSet(op, t.off).has(s.off)
			}
			// decide by the ranges if they don't overlap
			xs, _ := st.values(s)
			ys, _ := st.values(t)
			if len(xs) > 0 && len(ys) > 0 {
				xl, xh, yl, yh := xs[0].lo, xs[len(xs)-1].hi, ys[0].lo, ys[len(ys)-1].hi
				switch op {
				case token.LSS, token.GEQ:
					if xh < yl {
						return op == token.LSS
					}
					if xl >= yh {
						return op == token.GEQ
					}
				case token.GTR, token.LEQ:
					if xl > yh {
						return op == token.GTR
					}
					if xh <= yl {
						return op == token.LEQ
					}
				case token.EQL, token.NEQ:
					if xs.and(ys).empty() {
						return op == token.NEQ
					}
				}
			}
			if s.off == t.off {
				r := aRel{aSym{id: s.id}, aSym{id: t.id}, op}
				if tr, ok := st.relKnown(r); ok {
					return tr
				}
				return r
			}
			return aUnk{"relation"}
		}
	}
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			case token.LSS:
				return a < b
			case token.GTR:
				return a > b
			case token.LEQ:
				return a <= b
			case token.GEQ:
				return a >= b
			}
		}
	}
	if a, ok := x.(bool); ok {
		if b, ok := y.(bool); ok {
			return (a == b) == (op == token.EQL)
		}
	}
	if a, ok := x.(aAgg); ok {
		if b, ok := y.(aAgg); ok && len(a.f) == len(b.f) && (op == token.EQL || op == token.NEQ) {
			all := true
			for i := range a.f {
				c, ok := ai.compare(st, token.EQL, a.f[i], b.f[i]).(bool)
				if ok && !c {
					return op == token.NEQ
				}
				all = all && ok
			}
			if all {
				return op == token.EQL
			}
			return aUnk{"comparison of aggregates"}
		}
	}
	if i, ok := x.(aIface); ok {
		if j, ok := y.(aIface); ok && i.t != nil && j.t != nil {
			if !types.Identical(i.t, j.t) {
				return op == token.NEQ
			}
			return ai.compare(st, op, i.v, j.v)
		}
		x = i.v
	}
	if i, ok := y.(aIface); ok {
		y = i.v
	}
	eq := func(e bool) av {
		switch op {
		case token.EQL:
			return e
		case token.NEQ:
			return !e
		}
		return aUnk{"order"}
	}
	if a, ok := x.(aOpaque); ok {
		// an unknown pointer can be nil, or the same as another
		if _, ok := y.(aNil); ok && strings.HasPrefix(a.tag, "sym?") {
			return eqPred(ai.pred(st, "nil:"+termKey(a)), op)
		}
		if b, ok := y.(aOpaque); ok && termKey(a) != termKey(b) && (strings.HasPrefix(a.tag, "sym") || strings.HasPrefix(b.tag, "sym")) {
			ka, kb := termKey(a), termKey(b)
			if ka > kb {
				ka, kb = kb, ka
			}
			return eqPred(ai.pred(st, "eq:"+ka+":"+kb), op)
		}
	} else if _, ok := y.(aOpaque); ok {
		if _, ok := x.(aNil); ok {
			return ai.compare(st, op, y, x)
		}
	}
	isRef := func(v av) bool {
		switch v.(type) {
		case aPtr, aSlice, aMap, aFunc, aOpaque:
			return true
		}
		return false
	}
	if _, ok := x.(aNil); ok {
		if _, ok := y.(aNil); ok {
			return eq(true)
		}
		if isRef(y) {
			return eq(false)
		}
	}
	if _, ok := y.(aNil); ok && isRef(x) {
		return eq(false)
	}
	if isRef(x) && isRef(y) {
		kx, ok1 := ai.key(x)
		ky, ok2 := ai.key(y)
		if ok1 && ok2 {
			return eq(kx == ky)
		}
	}
	return aUnk{"comparison"}
}

func eqPred(p av, op token.Token) av {
	if op == token.NEQ {
		return notCond(p)
	}
	return p
}

// termKey is a key for what a term was made from: terms made from the same things in the same way are the same
func termKey(v av) string {
	switch v := v.(type) {
	case aOpaque:
		if v.tag == "conv" {
			return "conv(" + termKey(v.args[0]) + ")"
		}
		return fmt.Sprint("o", v.id)
	case aPtr:
		return fmt.Sprint("p", v.cell, v.path)
	case aSlice:
		return fmt.Sprint("l", v.cell, v.path, v.off, v.ln)
	case aIface:
		return termKey(v.v)
	case aAgg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range v.f {
			sb.WriteString(termKey(x) + ",")
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (st *aState) relKnown(r aRel) (bool, bool) {
	for _, f := range st.rels {
		g := f.rel
		if g.a == r.b && g.b == r.a {
			g = aRel{g.b, g.a, swapOp(g.op)}
		}
		if g.a == r.a && g.b == r.b {
			op := g.op
			if !f.truth {
				op = negOp(op)
			}
			if op == r.op {
				return true, true
			}
			if op == negOp(r.op) {
				return false, true
			}
			imp := map[token.Token][]token.Token{token.LSS: {token.LEQ, token.NEQ}, token.GTR: {token.GEQ, token.NEQ}, token.EQL: {token.LEQ, token.GEQ}}
			for _, o := range imp[op] {
				if o == r.op {
					return true, true
				}
				if negOp(o) == r.op {
					return false, true
				}
			}
		}
	}
	return false, false
}

// assume restricts st to the states in which c has the truth value; false if there are none
func (st *aState) assume(c av, truth bool) bool {
	switch c := c.(type) {
	case bool:
		return c == truth
	case aIn:
		s := c.set
		if !truth {
			s = s.not()
		}
		d := st.dom[c.id].and(s)
		if d.empty() {
			return false
		}
		st.dom[c.id] = d
	case aRel:
		st.rels = append(st.rels, aRelFact{c, truth})
	}
	return true
}

// notCond negates a condition
func notCond(c av) av {
	switch c := c.(type) {
	case bool:
		return !c
	case aIn:
		return aIn{c.id, c.set.not()}
	case aRel:
		return aRel{c.a, c.b, negOp(c.op)}
	}
	return c
}

// call pushes a frame
func (ai *aInterp) call(st *aState, fn *ssa.Function, args []av, bind []av, ret ssa.Value) {
	if len(st.frames) > 200 {
		ai.undecided("recursion is too deep in %s", ai.p.fname(fn))
	}
	f := &aFrame{fn: fn, env: map[ssa.Value]av{}, block: fn.Blocks[0], ret: ret}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		}
	}
	st.frames = append(st.frames, f)
}

// run explores all abstract executions of fn and returns their final states
func (ai *aInterp) run(st *aState, fn *ssa.Function, args []av, bind ...av) []*aState {
	if st.base == nil {
		st.base = ai.base
	}
	depth := len(st.frames)
	ai.call(st, fn, args, bind, nil)
	var out []*aState
	work := []*aState{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(s.frames) == depth {
				out = append(out, s)
				break
			}
			ai.steps++
			if ai.steps > ai.limit {
				if os.Getenv("QV_TRACE") != "" {
					fmt.Println("marks", s.marks, len(work), len(out))
					for _, f := range s.frames {
						fmt.Println(f.fn, ai.p.pos(instrPos(f.block.Instrs[min(f.pc, len(f.block.Instrs)-1)])))
					}
				}
				ai.undecided("too many abstract steps in %s", ai.p.fname(fn))
			}
			more := ai.step(s)
			if more == nil {
				continue
			}
			work = append(work, more...)
			break
		}
		if len(out)+len(work) > 200000 {
			ai.undecided("too many abstract states in %s", ai.p.fname(fn))
		}
	}
	return out
}

// initGlobals interprets the package's initialisation; its memory becomes the base of later runs
func (ai *aInterp) initGlobals() {
	st := ai.newState()
	for _, m := range ai.p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			ai.eval(st, g)
		}
	}
	fn := ai.p.pkg.Func("init")
	outs := ai.run(st, fn, nil)
	if len(outs) != 1 {
		ai.undecided("package initialisation has %d abstract outcomes", len(outs))
	}
	ai.base = outs[0].written()
	for _, v := range ai.base {
		if m, ok := v.(*aMapCell); ok {
			m.own = -1
		}
	}
}

func (ai *aInterp) global(st *aState, name string) av {
	g := ai.p.pkg.Var(name)
	if g == nil {
		return aUnk{"no global " + name}
	}
	return st.load(ai.eval(st, g).(aPtr).cell)
}

// step interprets one instruction. It returns nil to go on with st, or the states to go on with.
func (ai *aInterp) step(st *aState) []*aState {
	f := st.frames[len(st.frames)-1]
	in := f.block.Instrs[f.pc]
	set := func(v ssa.Value, x av) { f.env[v] = x }
	ev := func(v ssa.Value) av { return st.norm(ai.eval(st, v)) }
	f.pc++
	switch in := in.(type) {
	case *ssa.Alloc:
		set(in, aPtr{cell: ai.cell(st, ai.zero(in.Type().(*types.Pointer).Elem()))})
	case *ssa.Phi:
		// all phis of a block at once
		vals := map[*ssa.Phi]av{}
		n := 0
		for _, i2 := range f.block.Instrs {
			ph, ok := i2.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, pr := range f.block.Preds {
				if pr == f.prev {
					v := ai.eval(st, ph.Edges[i])
					if k, ok := v.(int64); ok && ai.grow && k > 0 && f.block.Dominates(pr) && accumulator(ph) {
						v = aGrown{k}
					}
					vals[ph] = v
					break
				}
			}
		}
		for ph, v := range vals {
			set(ph, v)
		}
		f.pc = n
	case *ssa.BinOp:
		v := ai.binop(st, in)
		if _, ok := v.(aUnk); ok {
			for _, x := range []ssa.Value{in.X, in.Y} {
				if s, ok := st.norm(ev(x)).(aSym); ok {
					if out := ai.concretize(st, s, 16); out != nil {
						return out
					}
				}
			}
		}
		set(in, v)
	case *ssa.UnOp:
		x := ev(in.X)
		switch in.Op {
		case token.MUL:
			p, ok := x.(aPtr)
			if !ok {
				if _, ok := x.(aNil); ok {
					return ai.panics(st, "nil dereference", in)
				}
				set(in, aUnk{"load from unknown"})
				break
			}
			set(in, aGet(st.load(p.cell), p.path))
		case token.NOT:
			set(in, notCond(x))
		case token.SUB:
			if k, ok := x.(int64); ok {
				set(in, wrapInt(in.Type(), -k))
			} else if g, ok := x.(aGrown); ok {
				set(in, aGrown{wrapInt(in.Type(), -g.k)})
			} else {
				set(in, aUnk{"negation"})
			}
		case token.XOR:
			if k, ok := x.(int64); ok {
				set(in, wrapInt(in.Type(), ^k))
			} else {
				set(in, aUnk{"complement"})
			}
		default:
			set(in, aUnk{"unop"})
		}
	case *ssa.Store:
		p, ok := ev(in.Addr).(aPtr)
		if !ok {
			ai.undecided("store to unknown memory in %s", ai.p.fname(f.fn))
		}
		v := ev(in.Val)
		if c, ok := v.(aIn); ok {
			// what is stored has to be known
			switch d := st.dom[c.id]; {
			case d.subset(c.set):
				v = true
			case d.and(c.set).empty():
				v = false
			default:
				return redo(st.fork(c))
			}
		}
		st.heap[p.cell] = aSet(st.load(p.cell), p.path, v)
	case *ssa.FieldAddr:
		switch p := ev(in.X).(type) {
		case aPtr:
			set(in, aPtr{p.cell, subPath(p.path, in.Field)})
		case aNil:
			return ai.panics(st, "nil dereference", in)
		default:
			set(in, aUnk{"field of unknown"})
		}
	case *ssa.Field:
		set(in, aGet(ev(in.X), []int{in.Field}))
	case *ssa.IndexAddr:
		return ai.indexAddr(st, f, in)
	case *ssa.Index:
		return ai.index(st, f, in)
	case *ssa.Lookup:
		return ai.lookup(st, f, in)
	case *ssa.MapUpdate:
		m, ok := ev(in.Map).(aMap)
		if !ok {
			ai.undecided("update of an unknown map in %s", ai.p.fname(f.fn))
		}
		k := ev(in.Key)
		ks, ok := ai.key(k)
		if !ok {
			st.heap[m.cell] = aUnk{"map with unknown key"}
			break
		}
		mc, ok := st.load(m.cell).(*aMapCell)
		if !ok {
			break
		}
		if mc.own != st.own {
			n := &aMapCell{keys: append([]av(nil), mc.keys...), vals: append([]av(nil), mc.vals...), idx: map[string]int{}, own: st.own}
			for k, i := range mc.idx {
				n.idx[k] = i
			}
			mc = n
			st.heap[m.cell] = n
		}
		if i, ok := mc.idx[ks]; ok {
			mc.vals[i] = ev(in.Value)
		} else {
			mc.idx[ks] = len(mc.keys)
			mc.keys = append(mc.keys, k)
			mc.vals = append(mc.vals, ev(in.Value))
		}
	case *ssa.MakeMap:
		set(in, aMap{ai.cell(st, &aMapCell{idx: map[string]int{}, own: st.own})})
	case *ssa.MakeSlice:
		n, ok1 := ev(in.Len).(int64)
		c, ok2 := ev(in.Cap).(int64)
		if !ok1 || !ok2 || n < 0 || c < n || c > 1<<20 {
			set(in, aUnk{"make"})
			break
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		a := make([]av, c)
		for i := range a {
			a[i] = ai.zero(el)
		}
		set(in, aSlice{cell: ai.cell(st, aAgg{a}), ln: n, cap: c})
	case *ssa.Slice:
		return ai.slice(st, f, in)
	case *ssa.MakeInterface:
		set(in, aIface{in.X.Type(), ev(in.X)})
	case *ssa.ChangeInterface:
		set(in, ev(in.X))
	case *ssa.ChangeType:
		set(in, ev(in.X))
	case *ssa.Convert:
		if s, ok := ev(in.X).(aSym); ok && isKind(in.Type().Underlying(), types.Float64) {
			if out := ai.concretize(st, s, 1000); out != nil {
				return out
			}
		}
		set(in, ai.convert(st, in.X.Type(), in.Type(), ev(in.X)))
	case *ssa.MultiConvert:
		set(in, ai.convert(st, in.X.Type(), in.Type(), ev(in.X)))
	case *ssa.Extract:
		x := ev(in.Tuple)
		if t, ok := x.(aTuple); ok && in.Index < len(t.f) {
			set(in, t.f[in.Index])
		} else {
			set(in, aUnk{"extract"})
		}
	case *ssa.TypeAssert:
		x := ev(in.X)
		if i, ok := x.(aIface); ok {
			ok := false
			if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(i.t, it)
			} else {
				ok = types.Identical(i.t, in.AssertedType)
			}
			var v av = ai.zero(in.AssertedType)
			if ok {
				v = i.v
				if types.IsInterface(in.AssertedType) {
					v = i
				}
			}
			if in.CommaOk {
				set(in, aTuple{[]av{v, ok}})
			} else if ok {
				set(in, v)
			} else {
				return ai.panics(st, "type assertion", in)
			}
			break
		}
		if _, isNil := x.(aNil); isNil {
			if !in.CommaOk {
				return ai.panics(st, "type assertion of nil", in)
			}
			set(in, aTuple{[]av{ai.zero(in.AssertedType), false}})
			break
		}
		if in.CommaOk {
			set(in, aTuple{[]av{aUnk{"assert"}, aUnk{"assert"}}})
		} else {
			set(in, aUnk{"assert"})
		}
	case *ssa.MakeClosure:
		var b []av
		for _, x := range in.Bindings {
			b = append(b, ev(x))
		}
		set(in, aFunc{in.Fn.(*ssa.Function), b})
	case *ssa.Range:
		x := ev(in.X)
		pos := 0
		switch x := x.(type) {
		case aMap:
			mc, ok := st.load(x.cell).(*aMapCell)
			if !ok {
				ai.undecided("range over an unknown map in %s", ai.p.fname(f.fn))
			}
			set(in, aIter{m: mc, pos: &pos})
		case string, aText:
			cs, _ := aChars(x)
			set(in, aIter{s: cs, pos: &pos, text: true})
		default:
			ai.undecided("range over an unknown value in %s", ai.p.fname(f.fn))
		}
	case *ssa.Next:
		it := ev(in.Iter).(aIter)
		p := *it.pos
		*it.pos = p + 1
		if it.text {
			if p >= len(it.s) {
				set(in, aTuple{[]av{false, int64(0), int64(0)}})
			} else {
				set(in, aTuple{[]av{true, int64(p), it.s[p]}})
			}
			break
		}
		if p >= len(it.m.keys) {
			set(in, aTuple{[]av{false, aNil{}, aNil{}}})
		} else {
			set(in, aTuple{[]av{true, it.m.keys[p], it.m.vals[p]}})
		}
	case *ssa.If:
		c := st.norm(ai.eval(st, in.Cond))
		if i, ok := c.(aIn); ok {
			// the symbol's set may have become smaller since
			d := st.dom[i.id]
			if d.subset(i.set) {
				c = true
			} else if d.and(i.set).empty() {
				c = false
			}
		}
		if b, ok := c.(bool); ok {
			k := 1
			if b {
				k = 0
			}
			ai.jump(st, f, k)
			return nil
		}
		if i, ok := c.(aIn); ok {
			if out := ai.switchOn(st, f, i); out != nil {
				return out
			}
		}
		t := st
		e := st.clone()
		var out []*aState
		if t.assume(c, true) {
			ai.jump(t, t.frames[len(t.frames)-1], 0)
			out = append(out, t)
		}
		if e.assume(c, false) {
			ai.jump(e, e.frames[len(e.frames)-1], 1)
			out = append(out, e)
		}
		if _, ok := c.(aUnk); ok {
			for _, s := range out {
				s.marks = append(s.marks, "unknown condition at "+ai.p.pos(instrPos(in)))
			}
		}
		return out
	case *ssa.Jump:
		ai.jump(st, f, 0)
	case *ssa.Return:
		var rs []av
		for _, r := range in.Results {
			rs = append(rs, ev(r))
		}
		ai.ret(st, rs)
	case *ssa.Panic:
		return ai.panics(st, "panic", in)
	case *ssa.RunDefers:
		if n := len(f.defrs); n > 0 {
			d := f.defrs[n-1]
			f.defrs = f.defrs[:n-1]
			f.pc-- // and again, for the others
			if d.fn == nil {
				break
			}
			if ai.ext != nil {
				ai.extFork, ai.extFn = nil, d.fn
				if _, ok := ai.ext(ai, st, calleeName(d.fn), d.args, d.in); ok {
					if ai.extFork != nil {
						f.pc++
						f.defrs = append(f.defrs, d)
						return redo(ai.extFork)
					}
					break
				}
			}
			if ai.p.isOurs(d.fn) {
				ai.call(st, d.fn, d.args, d.bind, nil)
			}
		}
	case *ssa.Defer:
		fn, args, bind := ai.resolve(st, in.Common())
		f.defrs = append(f.defrs, aDefer{fn, args, bind, in})
	case *ssa.Go, *ssa.Send, *ssa.Select:
		ai.undecided("concurrency in %s", ai.p.fname(f.fn))
	case *ssa.DebugRef:
	case *ssa.Call:
		return ai.doCall(st, f, in)
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, aUnk{fmt.Sprintf("%T", in)})
		}
	}
	return nil
}

func (ai *aInterp) ret(st *aState, rs []av) {
	f := st.frames[len(st.frames)-1]
	st.frames = st.frames[:len(st.frames)-1]
	st.result = rs
	if f.ret != nil && len(st.frames) > 0 {
		c := st.frames[len(st.frames)-1]
		if len(rs) == 1 {
			c.env[f.ret] = rs[0]
		} else {
			c.env[f.ret] = aTuple{rs}
		}
	}
}

// panics ends a state
func (ai *aInterp) panics(st *aState, what string, in ssa.Instruction) []*aState {
	st.marks = append(st.marks, "panic: "+what+" at "+ai.p.pos(instrPos(in)))
	st.frames = nil
	st.result = []av{aUnk{"panic"}}
	ai.problem = append(ai.problem, what+" at "+ai.p.pos(instrPos(in)))
	return []*aState{}
}

func (ai *aInterp) jump(st *aState, f *aFrame, k int) {
	f.prev = f.block
	f.block = f.block.Succs[k]
	f.pc = 0
}

// switchOn takes tests of one symbol that follow each other, as those of a switch or of conditions with && and || do,
// as one: a state for each place they lead to instead of one for each way there
func (ai *aInterp) switchOn(st *aState, f *aFrame, c aIn) []*aState {
	type exit struct {
		from *ssa.BasicBlock
		k    int
		set  iset
	}
	var exits []exit
	paths := 0
	// test gives the condition of a block that does nothing but test the symbol
	test := func(b *ssa.BasicBlock) (iset, bool) {
		if len(b.Instrs) != 2 || len(b.Succs) != 2 {
			return nil, false
		}
		cmp, ok := b.Instrs[0].(*ssa.BinOp)
		br, ok2 := b.Instrs[1].(*ssa.If)
		if !ok || !ok2 || br.Cond != cmp || len(*cmp.Referrers()) != 1 {
			return nil, false
		}
		switch cmp.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return nil, false
		}
		op := cmp.Op
		x, y := st.norm(ai.eval(st, cmp.X)), st.norm(ai.eval(st, cmp.Y))
		if _, ok := y.(aSym); ok {
			x, y, op = y, x, swapOp(op)
		}
		s, isSym := x.(aSym)
		n, isK := y.(int64)
		if !isSym || !isK || s.id != c.id {
			return nil, false
		}
		return opSet(op, n).shift(-s.off), true
	}
	var walk func(b *ssa.BasicBlock, cond, have iset, depth int)
	walk = func(b *ssa.BasicBlock, cond, have iset, depth int) {
		for k, set := range []iset{have.and(cond), have.and(cond.not())} {
			if set.empty() {
				continue
			}
			if next, ok := test(b.Succs[k]); ok && depth < 40 && b.Succs[k] != f.block {
				walk(b.Succs[k], next, set, depth+1)
				continue
			}
			paths++
			merged := false
			for i, e := range exits {
				if to := b.Succs[k]; e.from.Succs[e.k] == to && samePhis(to, e.from, b) {
					exits[i].set = e.set.or(set)
					merged = true
					break
				}
			}
			if !merged {
				exits = append(exits, exit{b, k, set})
			}
			if paths > 200 {
				return
			}
		}
	}
	walk(f.block, c.set, st.dom[c.id], 0)
	if paths > 200 || len(exits) == 0 || len(exits) == paths {
		return nil
	}
	var out []*aState
	for i, e := range exits {
		n := st
		if i < len(exits)-1 {
			n = st.clone()
		}
		n.dom[c.id] = e.set
		g := n.frames[len(n.frames)-1]
		g.block = e.from
		ai.jump(n, g, e.k)
		out = append(out, n)
	}
	return out
}

// samePhis reports whether it makes no difference from which of two blocks another one is entered
func samePhis(to, a, b *ssa.BasicBlock) bool {
	edge := func(from *ssa.BasicBlock) int {
		n := -1
		for i, p := range to.Preds {
			if p == from {
				if n >= 0 {
					return -1
				}
				n = i
			}
		}
		return n
	}
	i, j := edge(a), edge(b)
	if i < 0 || j < 0 {
		return false
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := ph.Edges[i], ph.Edges[j]
		if x == y {
			continue
		}
		cx, ok1 := x.(*ssa.Const)
		cy, ok2 := y.(*ssa.Const)
		if !ok1 || !ok2 || cx.Value == nil || cy.Value == nil || cx.Value.ExactString() != cy.Value.ExactString() {
			return false
		}
	}
	return true
}

// predicate gives the truth of a call of a function that does nothing but compute a truth value from numbers, of which one
// isn't known, as a set of the values of that one
func (ai *aInterp) predicate(st *aState, fn *ssa.Function, args, bind []av) (av, bool) {
	if len(bind) > 0 || !isPredicate(fn, 0) {
		return nil, false
	}
	var sym *aSym
	for _, a := range args {
		switch a := a.(type) {
		case int64, bool:
		case aSym:
			if sym != nil && sym.id != a.id {
				return nil, false
			}
			sym = &a
		default:
			return nil, false
		}
	}
	if sym == nil {
		return nil, false
	}
	frames := st.frames
	st.frames = nil
	n := st.clone()
	st.frames = frames
	var set iset
	d := st.dom[sym.id]
	for _, o := range ai.run(n, fn, args) {
		if len(o.rels) != len(st.rels) || len(o.marks) != len(st.marks) || len(o.result) != 1 {
			return nil, false
		}
		switch r := o.norm(o.result[0]).(type) {
		case bool:
			if r {
				set = set.or(o.dom[sym.id])
			}
		case aIn:
			if r.id != sym.id {
				return nil, false
			}
			set = set.or(o.dom[sym.id].and(r.set))
		default:
			return nil, false
		}
	}
	switch {
	case set.empty():
		return false, true
	case d.subset(set):
		return true, true
	}
	return aIn{sym.id, set}, true
}

// isPredicate reports whether fn is a function from numbers to a truth value, without loops and effects
func isPredicate(fn *ssa.Function, depth int) bool {
	rs := fn.Signature.Results()
	if depth > 3 || rs.Len() != 1 || len(fn.Blocks) == 0 || len(fn.Blocks) > 100 || !isKind(rs.At(0).Type().Underlying(), types.Bool) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if g := in.Common().StaticCallee(); g == nil || !isPredicate(g, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// pred is the truth of an uninterpreted predicate; the same one has the same truth in a state
func (ai *aInterp) pred(st *aState, key string) av {
	id, ok := ai.preds[key]
	if !ok {
		if ai.preds == nil {
			ai.preds = map[string]int64{}
		}
		ai.next++
		id = int64(ai.next)
		ai.preds[key] = id
	}
	if _, ok := st.dom[id]; !ok {
		st.dom[id] = isOf(0, 1)
	}
	if x, ok := st.dom[id].single(); ok {
		return x == 1
	}
	return aIn{id, isPoint(1)}
}

// split returns one state per part of s's domain
func (ai *aInterp) split(st *aState, s aSym, parts []iset) []*aState {
	var out []*aState
	d := st.dom[s.id]
	for _, p := range parts {
		x := d.and(p)
		if x.empty() {
			continue
		}
		n := st.clone()
		n.dom[s.id] = x
		out = append(out, n)
	}
	return out
}

// fork gives the states in which a condition holds and in which it doesn't
func (st *aState) fork(c av) []*aState {
	t, e := st.clone(), st
	var out []*aState
	if t.assume(c, true) {
		out = append(out, t)
	}
	if e.assume(c, false) {
		out = append(out, e)
	}
	return out
}

// sub interprets a call in the middle of an instruction. It gives the result, or the states to do the instruction again
// with if the call has more than one outcome.
func (ai *aInterp) sub(st *aState, fn aFunc, args []av) (av, []*aState) {
	if !ai.p.isOurs(fn.fn) {
		ai.undecided("a call of %s can't be interpreted here", calleeName(fn.fn))
	}
	frames := st.frames
	st.frames = nil
	n := st.clone()
	st.frames = frames
	outs := ai.run(n, fn.fn, args, fn.b...)
	for _, o := range outs {
		if len(o.marks) > len(st.marks) {
			ai.undecided("%s", o.marks[len(o.marks)-1])
		}
	}
	if len(outs) == 1 && len(outs[0].result) == 1 {
		return outs[0].result[0], nil
	}
	for _, o := range outs {
		o.frames = cloneFrames(frames)
	}
	return nil, outs
}

// redo makes the states interpret the current instruction again
func redo(sts []*aState) []*aState {
	for _, s := range sts {
		s.frames[len(s.frames)-1].pc--
	}
	return sts
}

func (ai *aInterp) concretize(st *aState, s aSym, max int64) []*aState {
	d := st.dom[s.id]
	if n := d.count(); n > max || n < 0 {
		return nil
	}
	var parts []iset
	for _, i := range d {
		for x := i.lo; x <= i.hi; x++ {
			parts = append(parts, isPoint(x))
		}
	}
	return redo(ai.split(st, s, parts))
}

// sameElements splits an index into sets for which the elements read are the same, or gives one of them
func (ai *aInterp) sameElements(st *aState, in *ssa.IndexAddr, x av, s aSym) (av, []*aState) {
	for _, u := range *in.Referrers() {
		if l, ok := u.(*ssa.UnOp); !ok || l.Op != token.MUL {
			return nil, nil
		}
	}
	d := st.dom[s.id]
	if n := d.count(); n < 2 || n > 300 {
		return nil, nil
	}
	var at func(k int64) (aPtr, bool)
	switch b := x.(type) {
	case aSlice:
		at = func(k int64) (aPtr, bool) { return aPtr{b.cell, subPath(b.path, int(b.off+k))}, k >= 0 && k < b.ln }
	case aPtr:
		at = func(k int64) (aPtr, bool) {
			a, ok := aGet(st.load(b.cell), b.path).(aAgg)
			return aPtr{b.cell, subPath(b.path, int(k))}, ok && k >= 0 && k < int64(len(a.f))
		}
	default:
		return nil, nil
	}
	groups := map[string][]ival{}
	var order []string
	var first av
	for _, i := range d {
		for v := i.lo; v <= i.hi; v++ {
			p, ok := at(v + s.off)
			if !ok {
				return nil, nil
			}
			k, ok := ai.key(aGet(st.load(p.cell), p.path))
			if !ok {
				return nil, nil
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			if first == nil {
				first = p
			}
			groups[k] = append(groups[k], ival{v, v})
		}
	}
	if len(order) == 1 {
		return first, nil
	}
	if len(order) > 16 {
		return nil, nil
	}
	var parts []iset
	for _, k := range order {
		parts = append(parts, isFrom(groups[k]))
	}
	return nil, redo(ai.split(st, s, parts))
}

func (ai *aInterp) indexAddr(st *aState, f *aFrame, in *ssa.IndexAddr) []*aState {
	x, i := st.norm(ai.eval(st, in.X)), st.norm(ai.eval(st, in.Index))
	if s, ok := i.(aSym); ok {
		if p, out := ai.sameElements(st, in, x, s); out != nil {
			return out
		} else if p != nil {
			f.env[in] = p
			return nil
		}
		if out := ai.concretize(st, s, 300); out != nil {
			return out
		}
	}
	k, ok := i.(int64)
	switch b := x.(type) {
	case aSlice:
		if !ok {
			f.env[in] = aUnk{"index"}
			return nil
		}
		if k < 0 || k >= b.ln {
			return ai.panics(st, "index out of range", in)
		}
		f.env[in] = aPtr{b.cell, subPath(b.path, int(b.off+k))}
	case aPtr:
		if !ok {
			f.env[in] = aUnk{"index"}
			return nil
		}
		f.env[in] = aPtr{b.cell, subPath(b.path, int(k))}
	case aNil:
		return ai.panics(st, "index of nil", in)
	default:
		f.env[in] = aUnk{"index of unknown"}
	}
	return nil
}

func (ai *aInterp) index(st *aState, f *aFrame, in *ssa.Index) []*aState {
	x, i := st.norm(ai.eval(st, in.X)), st.norm(ai.eval(st, in.Index))
	k, ok := i.(int64)
	if !ok {
		f.env[in] = aUnk{"index"}
		return nil
	}
	switch b := x.(type) {
	case string:
		if k < 0 || k >= int64(len(b)) {
			return ai.panics(st, "index out of range", in)
		}
		f.env[in] = int64(b[k])
	case aAgg:
		f.env[in] = aGet(b, []int{int(k)})
	case aText:
		if k < 0 || k >= int64(len(b.r)) {
			return ai.panics(st, "index out of range", in)
		}
		f.env[in] = b.r[k]
	default:
		f.env[in] = aUnk{"index of unknown"}
	}
	return nil
}

func (ai *aInterp) lookup(st *aState, f *aFrame, in *ssa.Lookup) []*aState {
	x, k := st.norm(ai.eval(st, in.X)), st.norm(ai.eval(st, in.Index))
	result := func(v av, ok bool) {
		if in.CommaOk {
			f.env[in] = aTuple{[]av{v, ok}}
		} else {
			f.env[in] = v
		}
	}
	if s, ok := x.(string); ok {
		if i, ok := k.(int64); ok && i >= 0 && i < int64(len(s)) {
			f.env[in] = int64(s[i])
			return nil
		}
		f.env[in] = aUnk{"string index"}
		return nil
	}
	vt := in.Type()
	if in.CommaOk {
		vt = in.Type().(*types.Tuple).At(0).Type()
	}
	if _, ok := x.(aNil); ok {
		result(ai.zero(vt), false)
		return nil
	}
	m, ok := x.(aMap)
	var mc *aMapCell
	if ok {
		mc, ok = st.load(m.cell).(*aMapCell)
	}
	if !ok {
		if in.CommaOk {
			f.env[in] = aTuple{[]av{aUnk{"map"}, aUnk{"map"}}}
		} else {
			f.env[in] = aUnk{"map"}
		}
		return nil
	}
	if s, ok := k.(aSym); ok {
		var iv []ival
		var parts []iset
		for _, mk := range mc.keys {
			if n, ok := mk.(int64); ok {
				iv = append(iv, ival{n - s.off, n - s.off})
				parts = append(parts, isPoint(n-s.off))
			}
		}
		in1 := isFrom(iv)
		d := st.dom[s.id]
		if d.and(in1).empty() {
			result(ai.zero(vt), false)
			return nil
		}
		if d.subset(in1) && d.count() > 1 || !d.subset(in1) {
			parts = append(parts, in1.not())
			return redo(ai.split(st, s, parts))
		}
	}
	if t, ok := k.(aText); ok {
		some := false
		for _, mk := range mc.keys {
			cs, ok := aChars(mk)
			if !ok || len(cs) != len(t.r) {
				continue
			}
			at := -1
			for i, c := range t.r {
				d, known := st.values(c)
				n, isK := cs[i].(int64)
				if !known || !isK {
					ai.undecided("map lookup with an unknown key in %s", ai.p.fname(f.fn))
				}
				if !d.has(n) {
					at = -2
					break
				}
				if _, one := d.single(); !one && at < 0 {
					at = i
				}
			}
			if at == -2 {
				continue
			}
			some = true
			if at >= 0 {
				c := t.r[at].(aSym)
				one := isPoint(cs[at].(int64) - c.off)
				return redo(ai.split(st, c, []iset{one, one.not()}))
			}
		}
		if !some {
			result(ai.zero(vt), false)
			return nil
		}
	}
	ks, ok := ai.key(k)
	if !ok {
		ai.undecided("map lookup with an unknown key in %s", ai.p.fname(f.fn))
	}
	if i, ok := mc.idx[ks]; ok {
		result(mc.vals[i], true)
	} else {
		result(ai.zero(vt), false)
	}
	return nil
}

func (ai *aInterp) slice(st *aState, f *aFrame, in *ssa.Slice) []*aState {
	x := st.norm(ai.eval(st, in.X))
	get := func(v ssa.Value, d int64) (int64, bool) {
		if v == nil {
			return d, true
		}
		k, ok := st.norm(ai.eval(st, v)).(int64)
		return k, ok
	}
	switch b := x.(type) {
	case string:
		lo, ok1 := get(in.Low, 0)
		hi, ok2 := get(in.High, int64(len(b)))
		if !ok1 || !ok2 {
			f.env[in] = aUnk{"slice"}
			return nil
		}
		if lo < 0 || hi < lo || hi > int64(len(b)) {
			return ai.panics(st, "slice out of range", in)
		}
		f.env[in] = b[lo:hi]
		return nil
	case aText:
		lo, ok1 := get(in.Low, 0)
		hi, ok2 := get(in.High, int64(len(b.r)))
		if !ok1 || !ok2 {
			f.env[in] = aUnk{"slice"}
			return nil
		}
		if lo < 0 || hi < lo || hi > int64(len(b.r)) {
			return ai.panics(st, "slice out of range", in)
		}
		f.env[in] = aText{b.r[lo:hi]}
		return nil
	case aNil:
		f.env[in] = x
		return nil
	}
	var s aSlice
	switch b := x.(type) {
	case aSlice:
		s = b
	case aPtr:
		a, ok := aGet(st.load(b.cell), b.path).(aAgg)
		if !ok {
			f.env[in] = aUnk{"slice"}
			return nil
		}
		s = aSlice{cell: b.cell, path: b.path, ln: int64(len(a.f)), cap: int64(len(a.f))}
	default:
		f.env[in] = aUnk{"slice of unknown"}
		return nil
	}
	lo, ok1 := get(in.Low, 0)
	hi, ok2 := get(in.High, s.ln)
	mx, ok3 := get(in.Max, s.cap)
	if !ok1 || !ok2 || !ok3 {
		f.env[in] = aUnk{"slice"}
		return nil
	}
	if lo < 0 || hi < lo || hi > mx || mx > s.cap {
		return ai.panics(st, "slice out of range", in)
	}
	s.off, s.ln, s.cap = s.off+lo, hi-lo, mx-lo
	f.env[in] = s
	return nil
}

// elems are the elements of a slice value
func (ai *aInterp) elems(st *aState, v av) ([]av, bool) {
	switch v := v.(type) {
	case aNil:
		return nil, true
	case aSlice:
		a, ok := aGet(st.load(v.cell), v.path).(aAgg)
		if !ok || v.off+v.ln > int64(len(a.f)) {
			return nil, false
		}
		return a.f[v.off : v.off+v.ln], true
	case string, aText:
		return aChars(v)
	}
	return nil, false
}

// asBytes is what append and copy take from a string
func (ai *aInterp) asBytes(st *aState, v av) av {
	switch v.(type) {
	case string, aText:
		return ai.convert(st, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), v)
	}
	return v
}

func (ai *aInterp) newSlice(st *aState, el []av) av {
	return aSlice{cell: ai.cell(st, aAgg{append([]av(nil), el...)}), ln: int64(len(el)), cap: int64(len(el))}
}

func (ai *aInterp) convert(st *aState, from, to types.Type, x av) av {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Kind() == types.Float64:
		if k, ok := x.(int64); ok && (k >= 0 || fb.Info()&types.IsUnsigned == 0) {
			return float64(k)
		}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		switch v := x.(type) {
		case int64:
			return wrapInt(to, v)
		case aGrown:
			return aGrown{wrapInt(to, v.k)}
		case aSym:
			vs, _ := st.values(v)
			if vs.subset(typeRange(to)) {
				return v
			}
		}
		return aUnk{"conversion"}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if k, ok := x.(int64); ok {
			return string(rune(k))
		}
		if s, ok := x.(aSym); ok {
			return aText{[]av{s}}
		}
	case tok && tb.Info()&types.IsString != 0:
		if el, ok := ai.elems(st, x); ok {
			if sl, isS := from.Underlying().(*types.Slice); isS {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && !ai.textRunes {
					if ai.mixed {
						return ai.mixedString(st, el)
					}
					bs := make([]byte, 0, len(el))
					for _, e := range el {
						k, ok := st.norm(e).(int64)
						if !ok {
							if st.allASCII(el) {
								return aText{el}
							}
							return aUnk{"bytes"}
						}
						bs = append(bs, byte(k))
					}
					return string(bs)
				}
			}
			return st.norm(aText{noFill(el)})
		}
	case fok && fb.Info()&types.IsString != 0 && !isOpaque(x):
		if sl, isS := to.Underlying().(*types.Slice); isS {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && !ai.textRunes {
				if t, ok := x.(aText); ok && ai.mixed {
					var el []av
					for _, c := range t.r {
						el = append(el, mixedBytes(st, c)...)
					}
					return ai.newSlice(st, el)
				}
				if s, ok := x.(string); ok {
					var el []av
					for i := 0; i < len(s); i++ {
						el = append(el, int64(s[i]))
					}
					return ai.newSlice(st, el)
				}
				if el, ok := aChars(x); ok && st.allASCII(el) {
					return ai.newSlice(st, el)
				}
				return aUnk{"bytes"}
			}
			if el, ok := aChars(x); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					var wide []av
					for _, e := range el {
						wide = append(wide, e, aFill{})
					}
					el = wide
				}
				return ai.newSlice(st, el)
			}
		}
	}
	// pointers as numbers: some fixed order of addresses
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		p, isP := x.(aPtr)
		if _, isNil := x.(aNil); isNil {
			if tok && tb.Info()&types.IsInteger != 0 {
				return int64(0)
			}
			return x
		}
		if isP && tok && tb.Info()&types.IsInteger != 0 {
			n := int64(p.cell)
			if ai.addrDown {
				n = 1<<24 - n
			}
			for _, i := range p.path {
				n = n*512 + int64(i) + 1
			}
			return n
		}
		if isP {
			return p
		}
	}
	if o, ok := x.(aOpaque); ok {
		if o.tag == "conv" {
			return o.args[0]
		}
		ai.next++
		return aOpaque{id: ai.next, tag: "conv", args: []av{o}}
	}
	return aUnk{"conversion"}
}

func (ai *aInterp) doCall(st *aState, f *aFrame, in *ssa.Call) []*aState {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []av
		for _, a := range c.Args {
			args = append(args, st.norm(ai.eval(st, a)))
		}
		return ai.builtin(st, f, in, b.Name(), args)
	}
	fn, args, bind := ai.resolve(st, c)
	if fn == nil {
		if ai.extCall != nil {
			ai.extFork = nil
			if v, ok := ai.extCall(ai, st, args, in); ok {
				if ai.extFork != nil {
					return redo(ai.extFork)
				}
				f.env[in] = v
				return nil
			}
		}
		f.env[in] = ai.unknown(in.Type())
		return nil
	}
	if ai.ext != nil {
		ai.extFork = nil
		ai.extFn = fn
		if v, ok := ai.ext(ai, st, calleeName(fn), args, in); ok {
			if ai.extFork != nil {
				return redo(ai.extFork)
			}
			f.env[in] = v
			return nil
		}
	}
	if ai.p.isOurs(fn) {
		if v, ok := ai.predicate(st, fn, args, bind); ok {
			f.env[in] = v
			return nil
		}
		ai.call(st, fn, args, bind, in)
		return nil
	}
	return ai.extern(st, f, in, calleeName(fn), args)
}

// resolve finds the function that is called and its arguments. The function is nil if it isn't known; the arguments then
// start with the called value or the receiver.
func (ai *aInterp) resolve(st *aState, c *ssa.CallCommon) (*ssa.Function, []av, []av) {
	var args []av
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil, nil
	}
	v := st.norm(ai.eval(st, c.Value))
	var rest []av
	for _, a := range c.Args {
		rest = append(rest, st.norm(ai.eval(st, a)))
	}
	if c.IsInvoke() {
		if i, ok := v.(aIface); ok {
			if g := ai.p.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name()); g != nil && ai.p.isOurs(g) {
				return g, append(append(args, i.v), rest...), nil
			}
		}
		return nil, append(append(args, v), rest...), nil
	}
	if fv, ok := v.(aFunc); ok {
		return fv.fn, rest, fv.b
	}
	return nil, append(append(args, v), rest...), nil
}

func (ai *aInterp) unknown(t types.Type) av {
	if tu, ok := t.(*types.Tuple); ok {
		f := make([]av, tu.Len())
		for i := range f {
			f[i] = aUnk{"result"}
		}
		return aTuple{f}
	}
	return aUnk{"result"}
}

func (ai *aInterp) builtin(st *aState, f *aFrame, in *ssa.Call, name string, args []av) []*aState {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case aNil:
			f.env[in] = int64(0)
		case aSlice:
			f.env[in] = v.ln
			if name == "cap" {
				f.env[in] = v.cap
			}
		case string:
			f.env[in] = int64(len(v))
		case aText:
			n := len(v.r)
			if ai.mixed {
				n = 0
				for _, c := range v.r {
					n += len(mixedBytes(st, c))
				}
			}
			f.env[in] = int64(n)
		case aAgg:
			f.env[in] = int64(len(v.f))
		case aMap:
			if mc, ok := st.load(v.cell).(*aMapCell); ok {
				f.env[in] = int64(len(mc.keys))
			} else {
				f.env[in] = aUnk{"len"}
			}
		default:
			f.env[in] = aUnk{"len"}
		}
	case "append":
		el, ok1 := ai.elems(st, args[0])
		more, ok2 := ai.elems(st, ai.asBytes(st, args[1]))
		if !ok1 || !ok2 {
			f.env[in] = aUnk{"append"}
			break
		}
		if s, ok := args[0].(aSlice); ok && s.ln+int64(len(more)) <= s.cap {
			a := aGet(st.load(s.cell), s.path).(aAgg)
			n := append([]av(nil), a.f...)
			copy(n[s.off+s.ln:], more)
			st.heap[s.cell] = aSet(st.load(s.cell), s.path, aAgg{n})
			s.ln += int64(len(more))
			f.env[in] = s
			break
		}
		if len(more) == 0 {
			f.env[in] = args[0]
			break
		}
		f.env[in] = ai.newSlice(st, append(append([]av(nil), el...), more...))
	case "copy":
		d, ok := args[0].(aSlice)
		src, ok2 := ai.elems(st, ai.asBytes(st, args[1]))
		if _, isNil := args[0].(aNil); isNil {
			f.env[in] = int64(0)
			break
		}
		if !ok || !ok2 {
			ai.undecided("copy to or from unknown memory in %s", ai.p.fname(f.fn))
		}
		a := aGet(st.load(d.cell), d.path).(aAgg)
		n := append([]av(nil), a.f...)
		k := min(d.ln, int64(len(src)))
		copy(n[d.off:d.off+k], src[:k])
		st.heap[d.cell] = aSet(st.load(d.cell), d.path, aAgg{n})
		f.env[in] = k
	case "max", "min":
		best := args[0]
		for _, a := range args[1:] {
			c := ai.compare(st, token.LSS, a, best)
			b, ok := c.(bool)
			if !ok {
				switch c.(type) {
				case aIn, aRel:
					return redo(st.fork(c))
				}
				best = aUnk{name}
				break
			}
			if b == (name == "min") {
				best = a
			}
		}
		f.env[in] = best
	case "delete":
		m, ok := args[0].(aMap)
		if ok {
			mc, ok1 := st.load(m.cell).(*aMapCell)
			ks, ok2 := ai.key(args[1])
			if !ok1 || !ok2 {
				st.heap[m.cell] = aUnk{"map after delete"}
				break
			}
			n := &aMapCell{idx: map[string]int{}, own: st.own}
			for i, k := range mc.keys {
				if kk, _ := ai.key(k); kk != ks {
					n.idx[kk] = len(n.keys)
					n.keys = append(n.keys, k)
					n.vals = append(n.vals, mc.vals[i])
				}
			}
			st.heap[m.cell] = n
		}
	case "SliceData", "StringData":
		switch s := args[0].(type) {
		case aSlice:
			f.env[in] = aPtr{s.cell, subPath(s.path, int(s.off))}
		case aNil:
			f.env[in] = s
		default:
			f.env[in] = aUnk{name}
		}
	case "ssa:wrapnilchk":
		f.env[in] = args[0]
	case "print", "println", "close":
	case "clear":
		if m, ok := args[0].(aMap); ok {
			st.heap[m.cell] = &aMapCell{idx: map[string]int{}, own: st.own}
		}
	default:
		f.env[in] = aUnk{name}
	}
	return nil
}

// mixedBytes encodes a character
func mixedBytes(st *aState, c av) []av {
	c = st.norm(c)
	if k, ok := c.(int64); ok {
		var out []av
		for _, b := range utf8.AppendRune(nil, rune(k)) {
			out = append(out, int64(b))
		}
		return out
	}
	if st.allASCII([]av{c}) {
		return []av{c}
	}
	return []av{c, aFill{}}
}

// mixedString is the text that bytes are, some of them possibly characters with fillers
func (ai *aInterp) mixedString(st *aState, el []av) av {
	if b, ok := concreteBytes(st, el); ok {
		return string(b)
	}
	var cs []av
	var run []byte
	flush := func() {
		for _, c := range string(run) {
			cs = append(cs, int64(c))
		}
		run = nil
	}
	for i, e := range el {
		if _, ok := e.(aFill); ok {
			continue
		}
		e = st.norm(e)
		wide := false
		if i+1 < len(el) {
			_, wide = el[i+1].(aFill)
		}
		if k, ok := e.(int64); ok && !wide {
			run = append(run, byte(k))
			continue
		}
		flush()
		if !wide && !st.allASCII([]av{e}) {
			return aUnk{"bytes"}
		}
		cs = append(cs, e)
	}
	flush()
	return st.norm(aText{cs})
}

// inSet says if a number is in a set
func (ai *aInterp) inSet(st *aState, v av, set iset) av {
	d, ok := st.values(v)
	if !ok {
		return aUnk{"number"}
	}
	if d.subset(set) {
		return true
	}
	if d.and(set).empty() {
		return false
	}
	s := v.(aSym)
	return aIn{s.id, set.shift(-s.off)}
}

// surrogates gives the character that a pair of UTF-16 codes stands for, nil if they aren't a pair, or the states to
// decide it in
func (ai *aInterp) surrogates(st *aState, hi, lo av) (av, []*aState) {
	for i, v := range []av{hi, lo} {
		c := ai.inSet(st, v, []iset{isOf(0xd800, 0xdbff), isOf(0xdc00, 0xdfff)}[i])
		switch c := c.(type) {
		case bool:
			if !c {
				return nil, nil
			}
		default:
			return nil, st.fork(c)
		}
	}
	hi, lo = st.norm(hi), st.norm(lo)
	if h, ok := hi.(int64); ok {
		if l, ok := lo.(int64); ok {
			return (h-0xd800)<<10 | (l - 0xdc00) + 0x10000, nil
		}
	}
	for _, e := range st.log {
		if e.name == "pair" && termKey(aText{e.args}) == termKey(aText{[]av{hi, lo}}) {
			return e.res, nil
		}
	}
	v := ai.symbol(st, isOf(0x10000, 0x10ffff))
	st.log = append(st.log, aEvent{name: "pair", args: []av{hi, lo}, res: v})
	return v, nil
}

// hexNumber is the number that up to four hexadecimal digits make
func (ai *aInterp) hexNumber(st *aState, args []av) av {
	t, ok := args[0].(aText)
	if !ok || ai.exact || len(args) != 3 || args[1] != int64(16) || len(t.r) > 4 {
		return nil
	}
	if b, ok := args[2].(int64); !ok || b != 0 && b < 4*int64(len(t.r)) {
		return nil
	}
	for _, e := range st.log {
		if e.name == "hex" && termKey(aText{e.args}) == termKey(t) {
			return e.res
		}
	}
	set := isPoint(0)
	for _, c := range t.r {
		d, ok := st.values(c)
		if !ok || !d.subset(hexDigits) {
			return nil
		}
		var iv []ival
		for _, i := range set {
			for v := i.lo; v <= i.hi; v++ {
				for _, j := range d {
					for w := j.lo; w <= j.hi; w++ {
						h, _ := strconv.ParseInt(string(rune(w)), 16, 32)
						iv = append(iv, ival{v*16 + h, v*16 + h})
					}
				}
			}
		}
		sortIvals(iv)
		set = isFrom(iv)
	}
	v := ai.symbol(st, set)
	st.log = append(st.log, aEvent{name: "hex", args: t.r, res: v})
	return v
}

var hexDigits = isOf('0', '9').or(isOf('a', 'f')).or(isOf('A', 'F'))

// freeze makes the state's memory one that later states share
func (st *aState) freeze() {
	b := st.written()
	for k, v := range st.base {
		if _, ok := b[k]; !ok {
			b[k] = v
		}
	}
	st.base, st.layers, st.heap = b, nil, map[int]av{}
	st.own = newOwner()
}

// extern models functions of the standard library
func (ai *aInterp) extern(st *aState, f *aFrame, in *ssa.Call, name string, args []av) []*aState {
	set := func(v av) []*aState { f.env[in] = v; return nil }
	switch name {
	case "errors.New":
		return set(ai.opaque("error " + fmt.Sprint(args[0])))
	case "fmt.Errorf":
		o := ai.opaque("error").(aOpaque)
		if el, ok := ai.elems(st, args[1]); ok {
			o.tag = fmt.Sprint("error ", args[0])
			if s, ok := args[0].(string); ok && strings.Contains(s, "%w") {
				o.wrap = el
			}
		}
		return set(o)
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return set(aUnk{"text"})
	case "errors.Is":
		return set(ai.errIs(args[0], args[1]))
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		el, ok := ai.elems(st, args[0])
		if ok && ai.textRunes {
			if len(el) == 0 {
				return set(aTuple{[]av{int64(0xfffd), int64(0)}})
			}
			return set(aTuple{[]av{el[0], int64(2)}})
		}
		if b, all := concreteBytes(st, el); ok && all {
			c, w := utf8.DecodeRune(b)
			return set(aTuple{[]av{int64(c), int64(w)}})
		}
		return set(ai.unknown(in.Type()))
	case "unicode/utf8.RuneLen":
		if ai.textRunes {
			return set(int64(2))
		}
		if c, ok := st.norm(args[0]).(int64); ok {
			return set(int64(utf8.RuneLen(rune(c))))
		}
		return set(aUnk{"RuneLen"})
	case "unicode/utf8.EncodeRune", "unicode/utf8.AppendRune":
		if el, ok := ai.elems(st, args[0]); ok && ai.mixed && strings.HasSuffix(name, "AppendRune") {
			if _, isU := args[1].(aUnk); !isU {
				return set(ai.newSlice(st, append(append([]av(nil), el...), mixedBytes(st, args[1])...)))
			}
		}
		c, ok := st.norm(args[len(args)-1]).(int64)
		if !ok || ai.textRunes {
			return set(ai.unknown(in.Type()))
		}
		var enc []av
		for _, b := range utf8.AppendRune(nil, rune(c)) {
			enc = append(enc, int64(b))
		}
		if strings.HasSuffix(name, "AppendRune") {
			el, ok := ai.elems(st, args[0])
			if !ok {
				return set(ai.unknown(in.Type()))
			}
			return set(ai.newSlice(st, append(append([]av(nil), el...), enc...)))
		}
		d, ok := args[0].(aSlice)
		if !ok || d.ln < int64(len(enc)) {
			return set(ai.unknown(in.Type()))
		}
		a := aGet(st.load(d.cell), d.path).(aAgg)
		n := append([]av(nil), a.f...)
		copy(n[d.off:], enc)
		st.heap[d.cell] = aSet(st.load(d.cell), d.path, aAgg{n})
		return set(int64(len(enc)))
	case "bytes.ContainsRune", "strings.ContainsRune", "bytes.IndexRune", "strings.IndexRune", "bytes.IndexByte", "strings.IndexByte":
		el, ok := ai.elems(st, args[0])
		if !ok {
			return set(aUnk{"contains"})
		}
		el = noFill(el)
		var iv []ival
		for _, e := range el {
			k, ok := st.norm(e).(int64)
			if !ok {
				return set(aUnk{"contains"})
			}
			iv = append(iv, ival{k, k})
		}
		s := isFrom(iv)
		if !strings.Contains(name, "Contains") {
			sy, isSym := args[1].(aSym)
			if isSym {
				if out := ai.concretize(st, sy, 300); out != nil {
					return out
				}
				parts := []iset{s.shift(-sy.off).not()}
				for _, e := range el {
					parts = append(parts, isPoint(st.norm(e).(int64)-sy.off))
				}
				if !st.dom[sy.id].and(s.shift(-sy.off)).empty() {
					return redo(ai.split(st, sy, parts))
				}
				return set(int64(-1))
			}
			k, ok := args[1].(int64)
			if !ok {
				return set(aUnk{"index"})
			}
			for i, e := range el {
				if e == k {
					return set(int64(i))
				}
			}
			return set(int64(-1))
		}
		switch k := args[1].(type) {
		case int64:
			return set(s.has(k))
		case aSym:
			return set(aIn{k.id, s.shift(-k.off)})
		}
		return set(aUnk{"contains"})
	case "math.Float64bits":
		if f, ok := args[0].(float64); ok {
			return set(int64(math.Float64bits(f)))
		}
		return set(aUnk{"bits"})
	case "math.Float64frombits":
		if k, ok := args[0].(int64); ok {
			return set(math.Float64frombits(uint64(k)))
		}
		return set(aUnk{"float"})
	case "strconv.ParseFloat":
		if t, ok := args[0].(aText); ok {
			for _, c := range t.r {
				if s, ok := st.norm(c).(aSym); ok {
					if out := ai.concretize(st, s, 300); out != nil {
						return out
					}
				}
			}
		}
		t, ok := args[0].(string)
		if !ok || args[1] != int64(64) {
			return set(ai.unknown(in.Type()))
		}
		x, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return set(aTuple{[]av{x, ai.opaque("error " + err.Error())}})
		}
		return set(aTuple{[]av{x, aNil{}}})
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if v := ai.hexNumber(st, args); v != nil {
			return set(aTuple{[]av{v, aNil{}}})
		}
		if t, ok := args[0].(aText); ok {
			for _, c := range t.r {
				if s, ok := st.norm(c).(aSym); ok {
					if out := ai.concretize(st, s, 300); out != nil {
						return out
					}
				}
			}
		}
		text, ok := args[0].(string)
		base, bits := 10, 64
		for i, p := range []*int{&base, &bits} {
			if len(args) > i+1 {
				k, isK := args[i+1].(int64)
				ok = ok && isK
				*p = int(k)
			}
		}
		if !ok {
			return set(ai.unknown(in.Type()))
		}
		var n int64
		var err error
		if name == "strconv.ParseUint" {
			var u uint64
			u, err = strconv.ParseUint(text, base, bits)
			n = int64(u)
		} else {
			n, err = strconv.ParseInt(text, base, bits)
		}
		if err != nil {
			return set(aTuple{[]av{n, ai.opaque("error " + err.Error())}})
		}
		return set(aTuple{[]av{n, aNil{}}})
	case "unicode/utf16.IsSurrogate":
		return set(ai.inSet(st, args[0], isOf(0xd800, 0xdfff)))
	case "unicode/utf16.DecodeRune":
		v, out := ai.surrogates(st, args[0], args[1])
		if out != nil {
			return redo(out)
		}
		if v == nil {
			v = int64(0xfffd)
		}
		return set(v)
	case "unicode/utf16.Decode", "unicode/utf16.AppendRune":
		el, ok := ai.elems(st, args[0])
		if !ok || name != "unicode/utf16.Decode" {
			return set(ai.unknown(in.Type()))
		}
		var rs []av
		for i := 0; i < len(el); i++ {
			d, ok := st.values(el[i])
			if !ok {
				return set(ai.unknown(in.Type()))
			}
			if d.and(isOf(0xd800, 0xdfff)).empty() {
				rs = append(rs, el[i])
				continue
			}
			if !d.subset(isOf(0xd800, 0xdfff)) {
				return redo(st.fork(ai.inSet(st, el[i], isOf(0xd800, 0xdfff))))
			}
			if i+1 < len(el) {
				v, out := ai.surrogates(st, el[i], el[i+1])
				if out != nil {
					return redo(out)
				}
				if v != nil {
					rs = append(rs, v)
					i++
					continue
				}
			}
			rs = append(rs, int64(0xfffd))
		}
		return set(ai.newSlice(st, rs))
	case "bytes.Compare":
		a, ok1 := ai.elems(st, args[0])
		b, ok2 := ai.elems(st, args[1])
		if !ok1 || !ok2 {
			break
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			x, y := st.norm(a[i]), st.norm(b[i])
			for _, c := range []struct {
				op token.Token
				v  int64
			}{{token.LSS, -1}, {token.GTR, 1}} {
				switch is := ai.compare(st, c.op, x, y).(type) {
				case bool:
					if is {
						return set(c.v)
					}
				case aIn, aRel:
					return redo(st.fork(is))
				default:
					return set(aUnk{"comparison"})
				}
			}
		}
		return set(int64(cmp.Compare(len(a), len(b))))
	case "cmp.Compare", "cmp.Less", "strings.Compare":
		lt := ai.compare(st, token.LSS, args[0], args[1])
		if name == "cmp.Less" {
			return set(lt)
		}
		switch b := lt.(type) {
		case bool:
			if b {
				return set(int64(-1))
			}
		case aIn, aRel:
			return redo(st.fork(lt))
		default:
			return set(aUnk{"comparison"})
		}
		switch b := ai.compare(st, token.EQL, args[0], args[1]); b := b.(type) {
		case bool:
			if b {
				return set(int64(0))
			}
			return set(int64(1))
		case aIn, aRel:
			return redo(st.fork(b))
		}
		return set(aUnk{"comparison"})
	case "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Slice", "sort.SliceStable":
		arg := args[0]
		if i, ok := arg.(aIface); ok {
			arg = i.v
		}
		el, ok := ai.elems(st, arg)
		if ok && len(el) < 2 {
			return nil
		}
		s, isS := arg.(aSlice)
		if !ok || !isS {
			ai.undecided("sorting unknown elements in %s", ai.p.fname(f.fn))
		}
		// an insertion sort by what the comparison gives; a comparison that isn't decided splits the state
		before := func(i, j int) (bool, []*aState) {
			var c av
			if name == "slices.Sort" {
				c = ai.compare(st, token.LSS, el[i], el[j])
			} else {
				cf, ok := args[1].(aFunc)
				if !ok {
					ai.undecided("sorting by an unknown order in %s", ai.p.fname(f.fn))
				}
				a := []av{el[i], el[j]}
				if strings.HasPrefix(name, "sort.") {
					a = []av{int64(i), int64(j)}
				}
				v, out := ai.sub(st, cf, a)
				if out != nil {
					return false, out
				}
				c = v
				if !strings.HasPrefix(name, "sort.") {
					c = ai.compare(st, token.LSS, v, int64(0))
				}
			}
			switch c := c.(type) {
			case bool:
				return c, nil
			case aIn, aRel:
				return false, st.fork(c)
			}
			ai.undecided("sorting in an unknown order in %s", ai.p.fname(f.fn))
			return false, nil
		}
		var ix []int
		for i := range el {
			k := len(ix)
			for k > 0 {
				lt, out := before(i, ix[k-1])
				if out != nil {
					return redo(out)
				}
				if !lt {
					break
				}
				k--
			}
			ix = append(ix[:k], append([]int{i}, ix[k:]...)...)
		}
		a := aGet(st.load(s.cell), s.path).(aAgg)
		n := append([]av(nil), a.f...)
		for i, j := range ix {
			n[s.off+int64(i)] = el[j]
		}
		st.heap[s.cell] = aSet(st.load(s.cell), s.path, aAgg{n})
		return nil
	case "strings.Split", "strings.SplitN", "strings.Cut", "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Index", "strings.LastIndex", "strings.Contains", "strings.Count":
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		if t, ok := args[0].(aText); ok && ok2 && st.allASCII(t.r) && name != "strings.Split" && name != "strings.SplitN" && name != "strings.Cut" && !strings.HasPrefix(name, "strings.Trim") {
			for _, c := range t.r {
				s, ok := c.(aSym)
				if !ok {
					continue
				}
				var parts []iset
				rest := st.dom[s.id]
				for _, k := range []byte(b) {
					if one := isPoint(int64(k) - s.off); !rest.and(one).empty() {
						parts = append(parts, one)
						rest = rest.minus(one)
					}
				}
				if !rest.empty() {
					parts = append(parts, rest)
				}
				if len(parts) > 1 {
					return redo(ai.split(st, s, parts))
				}
			}
			var bs []byte
			for _, c := range t.r {
				k, ok := st.norm(c).(int64)
				if !ok {
					k = 0xff // none of the characters that are looked for
				}
				bs = append(bs, byte(k))
			}
			a, ok1 = string(bs), true
		}
		if !ok1 || !ok2 {
			break
		}
		list := func(l []string) []*aState {
			var el []av
			for _, x := range l {
				el = append(el, x)
			}
			return set(ai.newSlice(st, el))
		}
		switch name {
		case "strings.Split":
			return list(strings.Split(a, b))
		case "strings.SplitN":
			if n, ok := args[2].(int64); ok {
				return list(strings.SplitN(a, b, int(n)))
			}
		case "strings.Cut":
			x, y, f := strings.Cut(a, b)
			return set(aTuple{[]av{x, y, f}})
		case "strings.HasPrefix":
			return set(strings.HasPrefix(a, b))
		case "strings.HasSuffix":
			return set(strings.HasSuffix(a, b))
		case "strings.TrimPrefix":
			return set(strings.TrimPrefix(a, b))
		case "strings.TrimSuffix":
			return set(strings.TrimSuffix(a, b))
		case "strings.Index":
			return set(int64(strings.Index(a, b)))
		case "strings.LastIndex":
			return set(int64(strings.LastIndex(a, b)))
		case "strings.Contains":
			return set(strings.Contains(a, b))
		case "strings.Count":
			return set(int64(strings.Count(a, b)))
		}
	case "strings.Join":
		el, ok := ai.elems(st, args[0])
		sep, ok2 := args[1].(string)
		var l []string
		for _, e := range el {
			s, isS := st.norm(e).(string)
			ok = ok && isS
			l = append(l, s)
		}
		if ok && ok2 {
			return set(strings.Join(l, sep))
		}
	case "slices.Clone", "bytes.Clone":
		if el, ok := ai.elems(st, args[0]); ok {
			if _, isNil := args[0].(aNil); isNil {
				return set(aNil{})
			}
			return set(ai.newSlice(st, el))
		}
	case "slices.Concat":
		lists, ok := ai.elems(st, args[0])
		if !ok {
			break
		}
		var all []av
		known := true
		for _, l := range lists {
			el, ok := ai.elems(st, l)
			known = known && ok
			all = append(all, el...)
		}
		if known {
			if len(all) == 0 {
				return set(aNil{})
			}
			return set(ai.newSlice(st, all))
		}
	case "slices.Compact":
		s, isS := args[0].(aSlice)
		el, ok := ai.elems(st, args[0])
		if !ok || !isS {
			break
		}
		var keep []av
		for i, e := range el {
			if i > 0 {
				eq, ok := ai.compare(st, token.EQL, keep[len(keep)-1], e).(bool)
				if !ok {
					return set(aUnk{"compact"})
				}
				if eq {
					continue
				}
			}
			keep = append(keep, e)
		}
		a := aGet(st.load(s.cell), s.path).(aAgg)
		n := append([]av(nil), a.f...)
		copy(n[s.off:], keep)
		st.heap[s.cell] = aSet(st.load(s.cell), s.path, aAgg{n})
		s.ln = int64(len(keep))
		return set(s)
	case "maps.Clone", "maps.Copy":
		from := args[len(args)-1]
		if _, isNil := from.(aNil); isNil {
			return set(aNil{})
		}
		m, ok := from.(aMap)
		if !ok {
			break
		}
		src, ok := st.load(m.cell).(*aMapCell)
		if !ok {
			break
		}
		n := &aMapCell{idx: map[string]int{}, own: st.own}
		if name == "maps.Copy" {
			d, ok := args[0].(aMap)
			if !ok {
				ai.undecided("a copy into an unknown map in %s", ai.p.fname(f.fn))
			}
			dc, ok := st.load(d.cell).(*aMapCell)
			if !ok {
				break
			}
			for i, k := range dc.keys {
				n.put(ai, k, dc.vals[i])
			}
			for i, k := range src.keys {
				n.put(ai, k, src.vals[i])
			}
			st.heap[d.cell] = n
			return set(aNil{})
		}
		for i, k := range src.keys {
			n.put(ai, k, src.vals[i])
		}
		return set(aMap{ai.cell(st, n)})
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint64":
		s, isS := args[1].(aSlice)
		k, ok := args[2].(int64)
		if !isS || !ok {
			ai.undecided("unknown bytes in %s", ai.p.fname(f.fn))
		}
		a := aGet(st.load(s.cell), s.path).(aAgg)
		n := append([]av(nil), a.f...)
		for i := int64(0); i < 8; i++ {
			sh := uint(8 * i)
			if strings.Contains(name, "big") {
				sh = 56 - sh
			}
			n[s.off+i] = int64(byte(uint64(k) >> sh))
		}
		st.heap[s.cell] = aSet(st.load(s.cell), s.path, aAgg{n})
		return nil
	case "(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint64":
		el, ok1 := ai.elems(st, args[1])
		k, ok := args[2].(int64)
		if !ok1 || !ok {
			break
		}
		n := append([]av(nil), el...)
		for i := 0; i < 8; i++ {
			sh := uint(8 * i)
			if strings.Contains(name, "big") {
				sh = 56 - sh
			}
			n = append(n, int64(byte(uint64(k)>>sh)))
		}
		return set(ai.newSlice(st, n))
	case "slices.Equal", "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix":
		a, ok1 := ai.elems(st, args[0])
		b, ok2 := ai.elems(st, args[1])
		if !ok1 || !ok2 {
			break
		}
		if name == "bytes.HasPrefix" && len(a) >= len(b) {
			a = a[:len(b)]
		}
		if name == "bytes.HasSuffix" && len(a) >= len(b) {
			a = a[len(a)-len(b):]
		}
		if len(a) != len(b) {
			return set(false)
		}
		for i := range a {
			switch eq := ai.compare(st, token.EQL, st.norm(a[i]), st.norm(b[i])).(type) {
			case bool:
				if !eq {
					return set(false)
				}
			case aIn:
				return redo(st.fork(eq))
			default:
				return set(aUnk{"equal"})
			}
		}
		return set(true)
	case "slices.ContainsFunc", "slices.IndexFunc", "slices.DeleteFunc":
		el, ok := ai.elems(st, args[0])
		cf, isF := args[1].(aFunc)
		if !ok || !isF {
			ai.undecided("a search of unknown elements in %s", ai.p.fname(f.fn))
		}
		var keep []av
		for i, e := range el {
			v, out := ai.sub(st, cf, []av{e})
			if out != nil {
				return redo(out)
			}
			yes, ok := v.(bool)
			if !ok {
				switch v.(type) {
				case aIn, aRel:
					return redo(st.fork(v))
				}
				ai.undecided("an unknown condition in %s", ai.p.fname(f.fn))
			}
			if yes && name == "slices.ContainsFunc" {
				return set(true)
			}
			if yes && name == "slices.IndexFunc" {
				return set(int64(i))
			}
			if !yes {
				keep = append(keep, e)
			}
		}
		switch name {
		case "slices.ContainsFunc":
			return set(false)
		case "slices.IndexFunc":
			return set(int64(-1))
		}
		s, isS := args[0].(aSlice)
		if !isS {
			return set(args[0])
		}
		a := aGet(st.load(s.cell), s.path).(aAgg)
		n := append([]av(nil), a.f...)
		copy(n[s.off:], keep)
		for i := len(keep); i < len(el); i++ {
			n[s.off+int64(i)] = ai.zero(in.Type().Underlying().(*types.Slice).Elem())
		}
		st.heap[s.cell] = aSet(st.load(s.cell), s.path, aAgg{n})
		s.ln = int64(len(keep))
		return set(s)
	case "slices.Contains", "slices.Index":
		if el, ok := ai.elems(st, args[0]); ok {
			known, at := true, -1
			for i, e := range el {
				if !isRefAv(e) || !isRefAv(args[1]) {
					known = false
					break
				}
				eq, ok := ai.compare(st, token.EQL, e, args[1]).(bool)
				known = known && ok
				if eq && at < 0 {
					at = i
				}
			}
			if known && name == "slices.Index" {
				return set(int64(at))
			}
			if known {
				return set(at >= 0)
			}
		}
		if name == "slices.Index" {
			break
		}
		if el, ok := ai.elems(st, args[0]); ok {
			var iv []ival
			for _, e := range el {
				k, ok := st.norm(e).(int64)
				if !ok {
					return set(aUnk{"contains"})
				}
				iv = append(iv, ival{k, k})
			}
			switch k := args[1].(type) {
			case int64:
				return set(isFrom(iv).has(k))
			case aSym:
				return set(aIn{k.id, isFrom(iv).shift(-k.off)})
			}
		}
	}
	return set(ai.unknown(in.Type()))
}

// allASCII says if characters are all known to be ASCII, so that each is one byte
func (st *aState) allASCII(el []av) bool {
	for _, e := range el {
		switch e := e.(type) {
		case int64:
			if e < 0 || e > 127 {
				return false
			}
		case aSym:
			if vs, ok := st.values(e); !ok || !vs.subset(isOf(0, 127)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isOpaque(v av) bool { _, ok := v.(aOpaque); return ok }

func isRefAv(v av) bool {
	switch v.(type) {
	case aPtr, aSlice, aMap, aFunc, aOpaque, aNil, string:
		return true
	}
	return false
}

// put stores an entry whose key is known
func (m *aMapCell) put(ai *aInterp, k, v av) {
	ks, ok := ai.key(k)
	if !ok {
		ai.undecided("a map with an unknown key")
	}
	if i, ok := m.idx[ks]; ok {
		m.vals[i] = v
		return
	}
	m.idx[ks] = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (ai *aInterp) errIs(a, b av) av {
	if i, ok := a.(aIface); ok {
		a = i.v
	}
	if i, ok := b.(aIface); ok {
		b = i.v
	}
	if _, ok := a.(aNil); ok {
		_, bn := b.(aNil)
		return bn
	}
	ka, ok1 := ai.key(a)
	kb, ok2 := ai.key(b)
	if !ok1 || !ok2 {
		return aUnk{"errors.Is"}
	}
	if ka == kb {
		return true
	}
	if o, ok := a.(aOpaque); ok {
		for _, w := range o.wrap {
			if i, ok := w.(aIface); ok {
				w = i.v
			}
			if r, ok := ai.errIs(w, b).(bool); !ok {
				return aUnk{"errors.Is"}
			} else if r {
				return true
			}
		}
	}
	return false
}

func sortIvals(v []ival) {
	sort.Slice(v, func(i, j int) bool { return v[i].lo < v[j].lo || v[i].lo == v[j].lo && v[i].hi < v[j].hi })
}

func noFill(el []av) []av {
	var out []av
	for _, e := range el {
		if _, ok := e.(aFill); !ok {
			out = append(out, e)
		}
	}
	return out
}

// concreteBytes gets the bytes of a text whose elements are all known
func concreteBytes(st *aState, el []av) ([]byte, bool) {
	out := make([]byte, 0, len(el))
	for _, e := range el {
		k, ok := st.norm(e).(int64)
		if !ok || k < 0 || k > 255 {
			return nil, false
		}
		out = append(out, byte(k))
	}
	return out, true
}
