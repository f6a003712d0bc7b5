package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: errors are followed from the call that returns them along all paths of the function, with what is known on the
// path about which errors and flags are nil, true or false

func init() { checkers["C14"] = checkC14 }

type errFact byte

const (
	factNil errFact = iota + 1
	factNonNil
	factTracked // the failure that's followed, not nil
	factTrue
	factFalse
	factSpecial // a bool that is only true if the failure is a specific one
	factSpecialNot
)

type errFlow struct {
	p       *Prog
	always  map[string]bool // summaries: function and tracked parameter -> each return gives an error
	busy    map[string]bool
	paths   int
	dropped map[string]bool
}

// errResult gives the index of the error among the results, or -1
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// makesError: functions of other packages whose result is never nil
func makesError(f *ssa.Function) bool {
	switch f.RelString(nil) {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

// neverFails: functions of other packages whose documentation says that the error is always nil
func neverFails(f *ssa.Function) bool {
	n := f.RelString(nil)
	for _, pre := range []string{"(*strings.Builder).Write", "(*bytes.Buffer).Write", "fmt.Fprint", "(*hash/maphash.Hash).Write"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return false
}

type errState struct {
	facts  map[ssa.Value]errFact
	tested bool
}

func (s *errState) key() string {
	var ks []string
	for v, f := range s.facts {
		ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), f))
	}
	sort.Strings(ks)
	return fmt.Sprint(ks, s.tested)
}

func (s *errState) clone() *errState {
	n := &errState{map[ssa.Value]errFact{}, s.tested}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

// value gives what's known about a value
func (e *errFlow) value(s *errState, v ssa.Value) errFact {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return factNil
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return factTrue
			}
			return factFalse
		}
		return 0
	}
	return s.facts[v]
}

func negate(f errFact) errFact {
	switch f {
	case factTrue:
		return factFalse
	case factFalse:
		return factTrue
	case factSpecial:
		return factSpecialNot
	case factSpecialNot:
		return factSpecial
	}
	return 0
}

// localCell: an Alloc that is only loaded from and stored to
func localCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if ref.Val == v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// follow explores what can happen after the point (b, idx). It returns the first return that doesn't report an error.
// escaped is set if the failure is kept somewhere this analysis doesn't follow.
func (e *errFlow) follow(f *ssa.Function, b *ssa.BasicBlock, idx int, s *errState) (bad ssa.Instruction, how string) {
	ei := errResult(f.Signature)
	seen := map[string]bool{}
	var walk func(b *ssa.BasicBlock, idx int, s *errState) bool // true: go on looking
	enter := func(from, to *ssa.BasicBlock, s *errState) bool {
		n := s.clone()
		var pi int
		for i, q := range to.Preds {
			if q == from {
				pi = i
			}
		}
		vals := map[ssa.Value]errFact{}
		for _, in := range to.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				vals[phi] = e.value(s, phi.Edges[pi])
			}
		}
		for v, x := range vals {
			delete(n.facts, v)
			if x != 0 {
				n.facts[v] = x
			}
		}
		k := fmt.Sprint(to.Index, n.key())
		if seen[k] {
			return true
		}
		seen[k] = true
		return walk(to, 0, n)
	}
	walk = func(b *ssa.BasicBlock, idx int, s *errState) bool {
		e.paths++
		for _, in := range b.Instrs[idx:] {
			if v, ok := in.(ssa.Value); ok {
				if _, phi := in.(*ssa.Phi); phi {
					continue
				}
				switch v := v.(type) {
				case *ssa.Extract:
					// goes with the call
				case *ssa.Call:
					delete(s.facts, v)
					for _, ref := range *v.Referrers() {
						if x, ok := ref.(*ssa.Extract); ok {
							delete(s.facts, x)
						}
					}
				default:
					delete(s.facts, v)
				}
			}
			set := func(v ssa.Value, x errFact) {
				if x != 0 {
					s.facts[v] = x
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				if x := e.value(s, in.Val); localCell(in.Addr) {
					delete(s.facts, in.Addr)
					set(in.Addr, x)
				} else if x == factTracked {
					// kept in a structure
					return true
				}
			case *ssa.UnOp:
				switch in.Op {
				case token.MUL:
					if g, ok := in.X.(*ssa.Global); ok && isErrorType(in.Type()) {
						_ = g
						set(in, factNonNil)
					} else if localCell(in.X) {
						set(in, s.facts[in.X])
					}
				case token.NOT:
					set(in, negate(e.value(s, in.X)))
				}
			case *ssa.BinOp:
				if in.Op != token.EQL && in.Op != token.NEQ {
					continue
				}
				x, y := e.value(s, in.X), e.value(s, in.Y)
				var r errFact
				switch {
				case !isErrorType(in.X.Type()) && !isErrorType(in.Y.Type()):
					if (x == factTrue || x == factFalse) && (y == factTrue || y == factFalse) {
						r = factFalse
						if x == y {
							r = factTrue
						}
					}
				case x == factNil && y == factNil:
					r = factTrue
				case x == factNil && (y == factNonNil || y == factTracked), y == factNil && (x == factNonNil || x == factTracked):
					r = factFalse
					if x == factTracked || y == factTracked {
						s.tested = true
					}
				case x == factTracked || y == factTracked:
					s.tested = true
					r = factSpecial
				}
				if in.Op == token.NEQ {
					r = negate(r)
				}
				set(in, r)
			case *ssa.MakeInterface:
				if isErrorType(in.Type()) {
					set(in, factNonNil)
				}
			case *ssa.ChangeInterface:
				set(in, e.value(s, in.X))
			case *ssa.TypeAssert:
				if e.value(s, in.X) == factTracked {
					s.tested = true
					if in.CommaOk {
						for _, ref := range *in.Referrers() {
							if x, ok := ref.(*ssa.Extract); ok && x.Index == 1 {
								set(x, factSpecial)
							}
						}
					}
				}
			case *ssa.Extract:
				// set with the call
				if c, ok := in.Tuple.(*ssa.Call); ok && s.facts[c] == factNonNil && isErrorType(in.Type()) {
					set(in, factNonNil)
				} else if ta, ok := in.Tuple.(*ssa.TypeAssert); ok && in.Index == 1 && e.value(s, ta.X) == factTracked {
					set(in, factSpecial)
				}
			case *ssa.Call:
				tracked := -1
				for i, a := range in.Call.Args {
					if e.value(s, a) == factTracked {
						tracked = i
					}
				}
				g := in.Call.StaticCallee()
				switch {
				case g == nil:
					if tracked >= 0 {
						s.tested = true
						set(in, factNonNil)
					}
				case makesError(g) || g.RelString(nil) == "errors.Join" && tracked >= 0:
					set(in, factNonNil)
				case g.RelString(nil) == "errors.Is" || g.RelString(nil) == "errors.As":
					if tracked >= 0 {
						s.tested = true
						set(in, factSpecial)
					}
				case e.p.isOurs(g) && errResult(g.Signature) >= 0:
					if e.alwaysFails(g, tracked) {
						set(in, factNonNil)
					}
				case tracked >= 0 && !e.p.isOurs(g):
					s.tested = true
				case tracked >= 0 && in.Type() != nil && types.Identical(in.Type(), types.Typ[types.Bool]):
					// a function of ours that looks at the error
					s.tested = true
					set(in, factSpecial)
				case tracked >= 0:
					s.tested = true
				}
			case *ssa.If:
				x := e.value(s, in.Cond)
				if x != factFalse && x != factSpecial {
					if !enter(b, b.Succs[0], s) {
						return false
					}
				}
				if x != factTrue && x != factSpecialNot {
					return enter(b, b.Succs[1], s)
				}
				return true
			case *ssa.Jump:
				return enter(b, b.Succs[0], s)
			case *ssa.Panic:
				return true
			case *ssa.Return:
				if ei < 0 {
					if s.tested {
						return true
					}
					bad, how = in, "it's never looked at"
					return false
				}
				switch e.value(s, in.Results[ei]) {
				case factNonNil, factTracked:
					return true
				case factNil:
					bad, how = in, "success is returned"
				default:
					bad, how = in, "the result of something else is returned"
				}
				return false
			}
		}
		return true
	}
	walk(b, idx, s)
	return bad, how
}

// alwaysFails: each return of the function gives an error, if its parameter (-1: none) is one
func (e *errFlow) alwaysFails(f *ssa.Function, param int) bool {
	if len(f.Blocks) == 0 || param >= len(f.Params) {
		return false
	}
	k := fmt.Sprint(f.RelString(nil), param)
	if v, ok := e.always[k]; ok {
		return v
	}
	if e.busy[k] {
		return false
	}
	e.busy[k] = true
	s := &errState{facts: map[ssa.Value]errFact{}}
	if param >= 0 {
		s.facts[f.Params[param]] = factTracked
	}
	bad, _ := e.follow(f, f.Blocks[0], 0, s)
	e.always[k] = bad == nil
	return bad == nil
}

// toleratedDrop: errors that may be left out, and why
func toleratedDrop(p *Prog, g *ssa.Function) string {
	switch {
	case !p.isOurs(g):
		if g.RelString(nil) == "strconv.ParseUint" {
			return "the text was checked to consist of hex digits before; C28 decides what escapes give"
		}
		return ""
	case g.Name() == "maybeRebuild":
		return "stated fallback: a rebuild that fails leaves the patterns as they were, and is tried again later"
	case g.Signature.Recv() != nil && isPtrTo(g.Signature.Recv().Type(), p.namedType("regexpParse")) && errResult(g.Signature) == 1:
		return "what the regexp reader does where it takes the next character as given is decided by C18"
	}
	return ""
}

func checkC14(p *Prog, r *Report) {
	r.rule = "for each call that returns an error, and each error that is made, every path of the function along which it isn't nil must end in a return of an error, a panic, a branch for that specific error, or, in a function without an error result, come to a test of it"
	fns, _ := p.reachableFuncs()
	e := &errFlow{p: p, always: map[string]bool{}, busy: map[string]bool{}}
	var sites, made int
	for _, f := range fns {
		if !p.isOurs(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				ei := errResult(com.Signature())
				if ei < 0 {
					continue
				}
				g := com.StaticCallee()
				name := "a function value"
				switch {
				case g != nil:
					name = p.fname(g)
					if !p.isOurs(g) {
						name = g.RelString(nil)
					}
					if neverFails(g) {
						continue
					}
				case com.IsInvoke():
					name = com.Method.Name()
				}
				call, ok := in.(*ssa.Call)
				construct := fmt.Sprintf("%s: error of %s", p.fname(f), name)
				if !ok {
					r.fail("error", construct, p.pos(instrPos(in)), "the error of a deferred call is ignored")
					continue
				}
				sites++
				if g != nil && makesError(g) {
					made++
					if errResult(f.Signature) < 0 {
						continue
					}
				}
				s := &errState{facts: map[ssa.Value]errFact{}}
				if com.Signature().Results().Len() == 1 {
					s.facts[call] = factTracked
				} else {
					for _, ref := range *call.Referrers() {
						if x, ok := ref.(*ssa.Extract); ok && x.Index == ei {
							s.facts[x] = factTracked
						}
					}
				}
				dropped := true
				for v := range s.facts {
					for _, ref := range *v.Referrers() {
						if _, dbg := ref.(*ssa.DebugRef); !dbg {
							dropped = false
						}
					}
				}
				bad, how := e.follow(f, b, i+1, s)
				if bad != nil && dropped && g != nil {
					if why := toleratedDrop(p, g); why != "" {
						r.pass("not looked at", construct, p.pos(instrPos(in)), why)
						continue
					}
				}
				why := "each path ends with an error, or handles it"
				if bad != nil {
					why = how + " at " + p.pos(instrPos(bad)) + " though this has failed"
				}
				r.check(bad == nil, "error", construct, p.pos(instrPos(in)), why)
			}
		}
	}
	r.floor("calls that return an error", sites, 100)
	r.floor("errors made", made, 50)
	r.facts["paths"] = e.paths
	r.explain = "The SSA form of each function that can be reached from the API is explored path by path from each call with an error result, assuming that this error isn't nil: phis, negations, comparisons with nil and constants, local variables and flags are evaluated, everything else goes both ways. Helpers that make or wrap errors are recognised by the same exploration."
	r.notCovered = "failures that are reported by a bool; an error that is put into a structure; whether the branch for a specific error does the right thing; dropped errors of the regexp reader's own look at the next character (C18)"
}
