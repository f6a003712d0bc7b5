package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural analysis of numbers: for each function a summary of how its results and the memory it was given
// relate to what they were at its entry, for each combination of nil and non-nil errors and of booleans it returns.

type zName struct {
	v    ssa.Value // the value, or the base of a memory term
	path string    // field path of a memory term: ".1.4"
	kind byte      // v value, l length, c capacity, n 1 if not nil, C contents
	role byte      // 0 current, e at entry, r result number idx, h at the head of a loop, p phi temporary, x callee's
	idx  int
	hdr  *ssa.BasicBlock
	base *zFunc
}

type zTerm struct {
	base ssa.Value
	path string
}

type zFunc struct {
	a        *zAnalysis
	fn       *ssa.Function
	foot     []zName          // what is known at entry: parameters and memory reached from them
	entry    map[string]*zone // by the booleans that are known
	exits    map[string]*zone
	newEntry map[string]*zone
	newExits map[string]*zone
	entryN   map[string]int
	exitN    map[string]int
	mods     map[string]bool
	deps     map[*zFunc]bool // callers
	liveIn   []map[ssa.Value]bool
	loops    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	order    map[*ssa.BasicBlock]int
	enum     map[ssa.Value]bool
	thresh   []int64
	defers   []*ssa.Defer
	fixed    map[string]*zone // entries that don't come from calls
	ins      []map[string]*zone
	visits   map[string]int
	reached  map[*ssa.BasicBlock]bool
}

type zObl struct {
	kind string
	in   ssa.Instruction
	what string
	ok   bool
	why  string
	seen int
}

type zProgress struct {
	name  zName
	lo    int64 // least increase per round
	hi    int64 // greatest
	seen  bool
	above string // what bounds it
	below string
	noUp  bool
	noLow bool
}

type zLoop struct {
	fn    *zFunc
	hdr   *ssa.BasicBlock
	cands map[zName]*zProgress
	seen  int
	rng   bool // ranges over a map or string
}

type zAnalysis struct {
	p       *Prog
	ids     map[zName]int32
	names   []zName
	funcs   map[*ssa.Function]*zFunc
	work    []*zFunc
	queued  map[*zFunc]bool
	final   bool
	collect bool // contributions go to newEntry and newExits
	obls    map[ssa.Instruction]map[string]*zObl
	loops   map[*ssa.BasicBlock]*zLoop
	recs    map[ssa.Instruction]map[zName]*zProgress
	bad     []string
	fixed   map[*ssa.Global]int64 // lengths of package-level slices that are never changed
	nonNil  map[*ssa.Global]bool
	steps   int
	dyn     map[string][]*ssa.Function
	modsOf  map[*ssa.Function]map[string]bool
	termTy  map[zTerm][]string
	onCall  func(f *zFunc, in ssa.CallInstruction, z *zone)
	onExit  func(f *zFunc, in *ssa.Return, z *zone)
	verbose bool
}

func newZAnalysis(p *Prog) *zAnalysis {
	a := &zAnalysis{p: p, ids: map[zName]int32{}, names: []zName{{}}, funcs: map[*ssa.Function]*zFunc{}, queued: map[*zFunc]bool{},
		obls: map[ssa.Instruction]map[string]*zObl{}, loops: map[*ssa.BasicBlock]*zLoop{}, recs: map[ssa.Instruction]map[zName]*zProgress{},
		fixed: map[*ssa.Global]int64{}, nonNil: map[*ssa.Global]bool{}, modsOf: map[*ssa.Function]map[string]bool{}, termTy: map[zTerm][]string{}}
	a.verbose = os.Getenv("QV_TRACE") != ""
	a.globals()
	a.computeMods()
	return a
}

func (a *zAnalysis) id(n zName) int32 {
	if n.v == nil && n.role != 'r' {
		panic("zflow: name without a value")
	}
	i, ok := a.ids[n]
	if !ok {
		i = int32(len(a.names))
		a.ids[n] = i
		a.names = append(a.names, n)
	}
	return i
}

func (a *zAnalysis) val(v ssa.Value) int32  { return a.id(zName{v: v, kind: 'v'}) }
func (a *zAnalysis) len_(v ssa.Value) int32 { return a.id(zName{v: v, kind: 'l'}) }
func (a *zAnalysis) nn(v ssa.Value) int32   { return a.id(zName{v: v, kind: 'n'}) }

func (a *zAnalysis) show(i int32) string {
	if i == 0 {
		return "0"
	}
	n := a.names[i]
	s := ""
	if n.v != nil {
		s = n.v.Name()
	}
	s += n.path
	if n.role == 'r' {
		s = fmt.Sprint("result", n.idx)
	}
	switch n.kind {
	case 'l':
		s = "len(" + s + ")"
	case 'c':
		s = "cap(" + s + ")"
	case 'n':
		s = s + "!=nil"
	}
	switch n.role {
	case 'e':
		s += "@entry"
	case 'h':
		s += "@head"
	}
	return s
}

func (a *zAnalysis) dump(z *zone) string {
	var out []string
	n := len(z.vars)
	for i := range z.vars {
		for j := range z.vars {
			if i != j && z.m[i*n+j] < zInf {
				out = append(out, fmt.Sprintf("%s-%s<=%d", a.show(z.vars[i]), a.show(z.vars[j]), z.m[i*n+j]))
			}
		}
	}
	for _, e := range z.eqs {
		out = append(out, fmt.Sprintf("%s+%s=%s%+d", a.show(e.a), a.show(e.b), a.show(e.c), e.k))
	}
	for l, s := range z.locs {
		lo, hi := s.bounds()
		out = append(out, fmt.Sprintf("%s[%s%+d] in %d..%d", a.show(l.content), a.show(l.idx), l.off, lo, hi))
	}
	return strings.Join(out, " ")
}

// globals finds the package-level slices whose length never changes
func (a *zAnalysis) globals() {
	stores := map[*ssa.Global][]*ssa.Store{}
	leaked := map[*ssa.Global]bool{}
	for _, f := range a.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isStore := in.(*ssa.Store)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Val == g {
							leaked[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
					default:
						leaked[g] = true
					}
				}
				if isStore {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st)
					}
				}
			}
		}
	}
	for g, ss := range stores {
		if leaked[g] || len(ss) != 1 || !isInit(ss[0].Parent()) {
			continue
		}
		switch v := ss[0].Val.(type) {
		case *ssa.Convert:
			if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				if _, isSlice := v.Type().Underlying().(*types.Slice); isSlice {
					a.fixed[g] = int64(len(constant.StringVal(c.Value)))
				}
			}
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
				if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					a.fixed[g] = at.Len()
				}
			}
		case *ssa.Call:
			if c := v.Common().StaticCallee(); c != nil && c.Pkg != nil && (c.Pkg.Pkg.Path() == "errors" || c.Pkg.Pkg.Path() == "fmt") {
				a.nonNil[g] = true
			}
			if c := v.Common().StaticCallee(); c != nil && a.p.isOurs(c) {
				if _, isPtr := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr && returnsFresh(c) {
					a.nonNil[g] = true
				}
			}
		}
	}
}

func returnsFresh(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if _, ok := v.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return true
}

func isInit(f *ssa.Function) bool {
	return f != nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// addr resolves an address to a base and a field path
func zAddr(v ssa.Value) (ssa.Value, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b, p := zAddr(x.X)
		return b, p + fmt.Sprintf(".%d", x.Field)
	case *ssa.ChangeType:
		return zAddr(x.X)
	}
	return v, ""
}

func zField(v ssa.Value) (ssa.Value, string) {
	if x, ok := v.(*ssa.Field); ok {
		b, p := zField(x.X)
		return b, p + fmt.Sprintf(".%d", x.Field)
	}
	return v, ""
}

// typeChain lists the memory that a term lies in: each struct type on the way, and the field at the end
func (a *zAnalysis) typeChain(base ssa.Value, path string) ([]string, types.Type) {
	t := base.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	out := []string{"*" + t.String()}
	if path == "" || path == "*" {
		return out, t
	}
	for _, s := range strings.Split(path[1:], ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return out, t
		}
		i := 0
		fmt.Sscan(s, &i)
		out = append(out, t.String()+"."+st.Field(i).Name())
		t = st.Field(i).Type()
		out = append(out, "*"+t.String())
	}
	return out, t
}

// storeKeys names what a store to an address changes
func (a *zAnalysis) storeKey(addr ssa.Value) string {
	base, path := zAddr(addr)
	if path == "" {
		t := base.Type().Underlying().(*types.Pointer).Elem()
		return "*" + t.String()
	}
	c, _ := a.typeChain(base, path)
	return c[len(c)-2]
}

// hit says whether a store named key can change the term
func (a *zAnalysis) hit(t zTerm, keys map[string]bool) bool {
	c, ok := a.termTy[t]
	if !ok {
		c, _ = a.typeChain(t.base, t.path)
		a.termTy[t] = c
	}
	for _, k := range c {
		if keys[k] {
			return true
		}
	}
	return false
}

func (a *zAnalysis) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if a.p.isOurs(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if a.dyn == nil {
		a.dyn = map[string][]*ssa.Function{}
		taken := map[*ssa.Function]bool{}
		for _, f := range a.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && a.p.isOurs(g) {
							if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == *op {
								continue
							}
							taken[g] = true
						}
					}
				}
			}
		}
		for _, f := range a.p.funcs {
			if taken[f] {
				k := "func " + zSig(f.Signature)
				a.dyn[k] = append(a.dyn[k], f)
			}
			if f.Signature.Recv() != nil {
				k := "method " + f.Name()
				a.dyn[k] = append(a.dyn[k], f)
			}
		}
	}
	if c.IsInvoke() {
		var out []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range a.dyn["method "+c.Method.Name()] {
			if it == nil || types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	return a.dyn["func "+zSig(c.Signature())]
}

// onlyOurs: no other package can have a function with this signature, because it has a parameter of a type that only this
// package can name
func (a *zAnalysis) onlyOurs(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == a.p.pkg.Pkg && !n.Obj().Exported() {
			return true
		}
	}
	return false
}

func zSig(s *types.Signature) string {
	q := func(t *types.Tuple) string {
		var o []string
		for i := 0; i < t.Len(); i++ {
			o = append(o, t.At(i).Type().String())
		}
		return strings.Join(o, ",")
	}
	return q(s.Params()) + " -> " + q(s.Results())
}

// computeMods finds what each function and those it calls can store to
func (a *zAnalysis) computeMods() {
	for _, f := range a.p.funcs {
		m := map[string]bool{}
		a.modsOf[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					m[a.storeKey(x.Addr)] = true
					if _, ok := x.Addr.(*ssa.IndexAddr); ok && isByte(x.Val.Type()) {
						m["bytes"] = true
					}
				case ssa.CallInstruction:
					a.callMods(x.Common(), m)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range a.p.funcs {
			m := a.modsOf[f]
			n := len(m)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range a.targets(c.Common()) {
							for k := range a.modsOf[g] {
								m[k] = true
							}
						}
						// functions handed to a library that may call them
						if f := c.Common().StaticCallee(); f == nil || !a.p.isOurs(f) {
							for _, arg := range c.Common().Args {
								for _, g := range closuresOf(arg) {
									for k := range a.modsOf[g] {
										m[k] = true
									}
								}
							}
						}
					}
				}
			}
			changed = changed || len(m) != n
		}
	}
}

func closuresOf(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.ChangeType:
		return closuresOf(x.X)
	case *ssa.MakeInterface:
		return closuresOf(x.X)
	}
	return nil
}

// callMods adds what a built-in function or one outside the package can change
func (a *zAnalysis) callMods(c *ssa.CallCommon, m map[string]bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				m["bytes"] = true
			}
		}
		return
	}
	if f := c.StaticCallee(); f != nil && a.p.isOurs(f) {
		return
	}
	if c.StaticCallee() == nil && !c.IsInvoke() && a.onlyOurs(c.Signature()) {
		// what these can store to is known
		return
	}
	for _, arg := range c.Args {
		t := arg.Type().Underlying()
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			t = mi.X.Type().Underlying()
			arg = mi.X
		}
		switch t := t.(type) {
		case *types.Pointer:
			if _, p := zAddr(arg); p != "" {
				m[a.storeKey(arg)] = true
			}
			m["*"+t.Elem().String()] = true
		case *types.Slice:
			if isByte(t.Elem()) {
				m["bytes"] = true
			}
		}
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// get makes the record of a function
func (a *zAnalysis) get(fn *ssa.Function) *zFunc {
	f := a.funcs[fn]
	if f != nil {
		return f
	}
	f = &zFunc{a: a, fn: fn, exits: map[string]*zone{}, exitN: map[string]int{}, deps: map[*zFunc]bool{}, mods: a.modsOf[fn], newExits: map[string]*zone{}, entry: map[string]*zone{}, entryN: map[string]int{}}
	a.funcs[fn] = f
	f.prepare()
	return f
}

// footprint of a function: which memory reached from its parameters it and what it calls look at
func (a *zAnalysis) footprint(fn *ssa.Function) []zTerm {
	memo := map[*ssa.Function]map[zTerm]bool{}
	var fns []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if memo[f] != nil {
			return
		}
		memo[f] = map[zTerm]bool{}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && a.p.isOurs(g) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	add := func(f *ssa.Function, base ssa.Value, path string) bool {
		if _, ok := base.(*ssa.Parameter); !ok || path == "" || strings.Count(path, ".") > 3 || strings.Contains(path, "*.") {
			return false
		}
		t := zTerm{base, path}
		if memo[f][t] {
			return false
		}
		memo[f][t] = true
		return true
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					base, p := zAddr(x)
					add(f, base, p)
				case *ssa.Field:
					base, p := zField(x)
					add(f, base, p)
				case *ssa.UnOp:
					if pr, ok := x.X.(*ssa.Parameter); ok && x.Op == token.MUL {
						if _, isStruct := x.Type().Underlying().(*types.Struct); !isStruct {
							add(f, pr, "*")
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || memo[g] == nil {
						continue
					}
					for t := range memo[g] {
						for i, pr := range g.Params {
							if pr == t.base && i < len(c.Common().Args) {
								base, p := zArg(c.Common().Args[i])
								if add(f, base, joinPath(p, t.path)) {
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	var out []zTerm
	for t := range memo[fn] {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].base != out[j].base {
			return out[i].base.Name() < out[j].base.Name()
		}
		return out[i].path < out[j].path
	})
	return out
}

// joinPath puts the path of a term of a callee's parameter behind that of the argument
func joinPath(p, q string) string {
	if p == "" {
		return q
	}
	if q == "*" {
		return p
	}
	return p + q
}

func zArg(v ssa.Value) (ssa.Value, string) {
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		return zAddr(v)
	}
	return zField(v)
}

// kinds lists what is tracked of a value of a type
func zKinds(t types.Type) []byte {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsBoolean != 0:
			return []byte{'v'}
		case u.Info()&types.IsString != 0:
			return []byte{'l'}
		}
	case *types.Slice:
		return []byte{'l', 'c', 'n'}
	case *types.Interface, *types.Pointer:
		return []byte{'n'}
	case *types.Map:
		return []byte{'n'}
	}
	return nil
}

// typeRange adds what a type says about a variable
func (a *zAnalysis) typeRange(z *zone, id int32, kind byte, t types.Type) bool {
	switch kind {
	case 'l', 'c':
		return z.le(0, id, 0)
	case 'n':
		return z.le(0, id, 0) && z.le(id, 0, 1)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	lo, hi := basicRange(b)
	return z.le(id, 0, hi) && (lo <= -zInf || z.le(0, id, -lo))
}

func basicRange(b *types.Basic) (int64, int64) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, zInf
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	}
	return -zInf, zInf
}

func (f *zFunc) prepare() {
	a, fn := f.a, f.fn
	for _, p := range fn.Params {
		for _, k := range zKinds(p.Type()) {
			f.foot = append(f.foot, zName{v: p, kind: k})
		}
	}
	for _, t := range a.footprint(fn) {
		_, ty := a.typeChain(t.base, t.path)
		for _, k := range zKinds(ty) {
			if k == 'v' || k == 'l' {
				f.foot = append(f.foot, zName{v: t.base, path: t.path, kind: k})
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	f.liveIn = make([]map[ssa.Value]bool, n)
	phiUse := make([]map[ssa.Value]bool, n) // live out because of a phi in a successor
	for i := range fn.Blocks {
		use[i], def[i], f.liveIn[i], phiUse[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for i, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				f.defers = append(f.defers, d)
			}
			if ph, ok := in.(*ssa.Phi); ok {
				def[i][ph] = true
				for k, e := range ph.Edges {
					addUse(phiUse[b.Preds[k].Index], e)
				}
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					tmp := map[ssa.Value]bool{}
					addUse(tmp, *op)
					for v := range tmp {
						if !def[i][v] {
							use[i][v] = true
						}
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[i][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := f.liveIn[i]
			k := len(in)
			for v := range use[i] {
				in[v] = true
			}
			for v := range phiUse[i] {
				if !def[i][v] {
					in[v] = true
				}
			}
			for _, s := range b.Succs {
				for v := range f.liveIn[s.Index] {
					if !def[i][v] {
						in[v] = true
					}
				}
			}
			changed = changed || len(in) != k
		}
	}
	for i, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				f.liveIn[i][ph] = true
			}
		}
	}
	// loops
	f.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := f.loops[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				f.loops[s] = body
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if body[x] {
					continue
				}
				body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	f.order = map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// leave loops last, so that their bodies come first in the order
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		f.order[b] = len(post) - i
	}
	// variables that only ever have constants
	f.enum = map[ssa.Value]bool{}
	cand := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					cand[ph] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for v := range cand {
			for _, e := range v.(*ssa.Phi).Edges {
				if _, ok := e.(*ssa.Const); !ok && !cand[e] {
					delete(cand, v)
					changed = true
					break
				}
			}
		}
	}
	f.enum = cand
	// thresholds
	th := map[int64]bool{}
	for i := int64(-4); i <= 4; i++ {
		th[i] = true
	}
	for _, v := range []int64{255, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		th[v] = true
	}
	for v := range th {
		f.thresh = append(f.thresh, v)
	}
	sort.Slice(f.thresh, func(i, j int) bool { return f.thresh[i] < f.thresh[j] })
}

func addUse(m map[ssa.Value]bool, v ssa.Value) {
	m[v] = true
	// the base of an address or of a field is used with it
	switch x := v.(type) {
	case *ssa.FieldAddr:
		addUse(m, x.X)
	case *ssa.Field:
		addUse(m, x.X)
	case *ssa.ChangeType:
		addUse(m, x.X)
	}
}

func (f *zFunc) widen(old, new int64) int64 {
	i := sort.Search(len(f.thresh), func(i int) bool { return f.thresh[i] >= new })
	if i < len(f.thresh) {
		return f.thresh[i]
	}
	return zInf
}

func (a *zAnalysis) enqueue(f *zFunc) {
	if !a.queued[f] {
		a.queued[f] = true
		a.work = append(a.work, f)
	}
}

// root makes a function one that can be called with anything, or with what setup says
func (a *zAnalysis) root(fn *ssa.Function, setup func(f *zFunc, z *zone)) *zFunc {
	f := a.get(fn)
	z := newZone()
	f.top(z)
	if setup != nil {
		setup(f, z)
	}
	if f.fixed == nil {
		f.fixed = map[string]*zone{}
	}
	k := f.entryKey(z)
	if o := f.fixed[k]; o != nil {
		z = o.join(z, nil)
	}
	f.fixed[k] = z
	a.contribute(f, z)
	return f
}

// top adds the variables a function starts with
func (f *zFunc) top(z *zone) {
	for _, n := range f.foot {
		id := f.a.id(n)
		z.add(id)
		f.a.typeRange(z, id, n.kind, f.typeOf(n))
	}
}

func (f *zFunc) typeOf(n zName) types.Type {
	if n.path == "" {
		return n.v.Type()
	}
	_, t := f.a.typeChain(n.v, n.path)
	return t
}

// entryKey tells entry states apart by the booleans that are known
func (f *zFunc) entryKey(z *zone) string {
	var out []string
	for _, n := range f.foot {
		if n.kind != 'v' {
			continue
		}
		if bt, ok := f.typeOf(n).Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 {
			continue
		}
		if c, ok := z.isConst(f.a.id(n)); ok {
			out = append(out, fmt.Sprintf("%s=%d", n.v.Name()+n.path, c))
		}
	}
	return strings.Join(out, " ")
}

func (a *zAnalysis) contribute(f *zFunc, z *zone) {
	key := f.entryKey(z)
	if a.collect {
		if o := f.newEntry[key]; o != nil {
			z = o.join(z, nil)
		}
		f.newEntry[key] = z
		return
	}
	o := f.entry[key]
	if o == nil {
		if a.final {
			a.bad = append(a.bad, "the summary of "+a.p.fname(f.fn)+" isn't stable at its entry "+key)
			return
		}
		f.entry[key] = z
		a.enqueue(f)
		return
	}
	if z.leq(o) {
		return
	}
	if a.final {
		a.bad = append(a.bad, "the summary of "+a.p.fname(f.fn)+" isn't stable at its entry "+key)
		return
	}
	f.entryN[key]++
	if f.entryN[key] > 3 {
		f.entry[key] = o.join(z, f.widen)
	} else {
		f.entry[key] = o.join(z, nil)
	}
	if f.entryN[key] > 200 {
		panic("zflow: no fixpoint at the entry of " + a.p.fname(f.fn))
	}
	a.enqueue(f)
}

func (a *zAnalysis) exitState(f *zFunc, key string, z *zone) {
	if a.collect {
		if o := f.newExits[key]; o != nil {
			z = o.join(z, nil)
		}
		f.newExits[key] = z
		return
	}
	o := f.exits[key]
	if o == nil {
		if a.final {
			a.bad = append(a.bad, "the summary of "+a.p.fname(f.fn)+" isn't stable at its exit "+key)
			return
		}
		f.exits[key] = z
	} else {
		if z.leq(o) {
			return
		}
		if a.final {
			a.bad = append(a.bad, "the summary of "+a.p.fname(f.fn)+" isn't stable at its exit "+key)
			return
		}
		f.exitN[key]++
		if f.exitN[key] > 6 {
			f.exits[key] = o.join(z, f.widen)
		} else {
			f.exits[key] = o.join(z, nil)
		}
		if f.exitN[key] > 300 {
			panic("zflow: no fixpoint at the exit of " + a.p.fname(f.fn))
		}
	}
	for d := range f.deps {
		a.enqueue(d)
	}
}

// solve computes all summaries
func (a *zAnalysis) solve() {
	rounds := 0
	for len(a.work) > 0 {
		f := a.work[0]
		a.work = a.work[1:]
		a.queued[f] = false
		f.analyse()
		rounds++
		if a.verbose {
			fmt.Println("ROUND", rounds, a.p.fname(f.fn), len(f.entry), len(f.exits), a.steps)
		}
		if rounds > 20000 {
			panic("zflow: no fixpoint")
		}
	}
	// narrow
	for i := 0; i < 3; i++ {
		a.collect = true
		for _, f := range a.sorted() {
			f.newEntry, f.newExits = map[string]*zone{}, map[string]*zone{}
			for k, z := range f.fixed {
				f.newEntry[k] = z
			}
		}
		for _, f := range a.sorted() {
			if len(f.entry) > 0 {
				f.analyse()
			}
		}
		for _, f := range a.sorted() {
			f.entry, f.exits = f.newEntry, f.newExits
		}
		a.collect = false
	}
	a.final = true
	for _, f := range a.sorted() {
		if len(f.entry) > 0 {
			f.analyse()
		}
	}
}

func (a *zAnalysis) sorted() []*zFunc {
	var out []*zFunc
	for _, f := range a.funcs {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.String() < out[j].fn.String() })
	return out
}

type zState struct {
	z      *zone
	first  map[*ssa.BasicBlock]int // how many more rounds of a loop are told apart
	defers string
}

func (s *zState) clone() *zState {
	n := &zState{z: s.z.clone(), first: map[*ssa.BasicBlock]int{}, defers: s.defers}
	for b, k := range s.first {
		n.first[b] = k
	}
	return n
}

type zItem struct {
	b   *ssa.BasicBlock
	key string
}

// analyse runs the function from its entry state to a fixpoint, then twice more without widening
func (f *zFunc) analyse() {
	a, fn := f.a, f.fn
	type cell struct {
		s *zState
		n int
	}
	ins := map[zItem]*cell{}
	var queue []zItem
	inq := map[zItem]bool{}
	push := func(it zItem) {
		if !inq[it] {
			inq[it] = true
			queue = append(queue, it)
		}
	}
	starts := map[zItem]*zState{}
	for _, k := range sortedKeys(f.entry) {
		start := &zState{z: f.entry[k].clone(), first: map[*ssa.BasicBlock]int{}}
		for _, n := range f.foot {
			id := a.id(n)
			start.z.add(id)
			g := n
			g.role = 'e'
			start.z.eq(a.id(g), id, 0)
			if n.kind == 'l' {
				c := n
				c.kind = 'C'
				start.z.cont[id] = a.id(c)
			}
		}
		if f.loops[fn.Blocks[0]] != nil {
			panic("zflow: a loop to the start of " + a.p.fname(fn))
		}
		it := zItem{fn.Blocks[0], f.key(fn.Blocks[0], start)}
		if o := starts[it]; o != nil {
			start.z = o.z.join(start.z, nil)
		}
		starts[it] = start
	}
	saveFinal, saveCollect := a.final, a.collect
	run := func(widen bool, emit func(it zItem, s *zState)) {
		for len(queue) > 0 {
			best := 0
			for i := range queue {
				if f.order[queue[i].b] < f.order[queue[best].b] {
					best = i
				}
			}
			it := queue[best]
			queue = append(queue[:best], queue[best+1:]...)
			inq[it] = false
			f.block(it.b, ins[it].s.clone(), emit)
			a.steps++
		}
	}
	// up
	f.a.final, f.a.collect = false, false
	muted := a.mute(true)
	for it, s := range starts {
		ins[it] = &cell{s: s}
		push(it)
	}
	var emit func(it zItem, s *zState)
	emit = func(it zItem, s *zState) {
		c := ins[it]
		if c == nil {
			ins[it] = &cell{s: s}
			if len(ins) > 6000 {
				panic("zflow: too many states in " + a.p.fname(fn))
			}
			push(it)
			return
		}
		if s.z.leq(c.s.z) {
			return
		}
		c.n++
		if c.n > 400 {
			panic("zflow: no fixpoint in " + a.p.fname(fn))
		}
		var w func(int64, int64) int64
		if f.loops[it.b] != nil && c.n > 3 || c.n > 60 {
			w = f.widen
		}
		c.s = &zState{z: c.s.z.join(s.z, w), first: c.s.first, defers: c.s.defers}
		push(it)
	}
	run(true, emit)
	// down
	for round := 0; round < 2; round++ {
		next := map[zItem]*cell{}
		for it, s := range starts {
			next[it] = &cell{s: s}
		}
		e2 := func(it zItem, s *zState) {
			if c := next[it]; c != nil {
				if !s.z.leq(c.s.z) {
					c.s = &zState{z: c.s.z.join(s.z, nil), first: s.first, defers: s.defers}
				}
				return
			}
			next[it] = &cell{s: s}
		}
		for _, it := range sortItems(ins, func(it zItem) int { return f.order[it.b] }) {
			f.block(it.b, ins[it].s.clone(), e2)
		}
		ins = next
	}
	a.mute(muted)
	a.final, a.collect = saveFinal, saveCollect
	// the last pass: obligations and contributions
	check := func(it zItem, s *zState) {
		c := ins[it]
		if c == nil || !s.z.leq(c.s.z) {
			if a.final {
				a.bad = append(a.bad, fmt.Sprintf("%s block %d isn't stable", a.p.fname(fn), it.b.Index))
			}
		}
	}
	f.reached = map[*ssa.BasicBlock]bool{}
	for _, it := range sortItems(ins, func(it zItem) int { return f.order[it.b] }) {
		f.reached[it.b] = true
		if a.final {
			f.heads(it.b, ins[it].s)
		}
		f.block(it.b, ins[it].s.clone(), check)
	}
}

var zMuted bool

func (a *zAnalysis) mute(on bool) bool {
	old := zMuted
	zMuted = on
	return old
}

func sortItems[C any](m map[zItem]C, ord func(zItem) int) []zItem {
	var out []zItem
	for it := range m {
		out = append(out, it)
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := ord(out[i]), ord(out[j]); a != b {
			return a < b
		}
		return out[i].key < out[j].key
	})
	return out
}

// key tells states at a block apart by the constants they have
func (f *zFunc) key(b *ssa.BasicBlock, s *zState) string {
	a := f.a
	var out []string
	for _, v := range s.z.vars[1:] {
		n := a.names[v]
		if n.role != 0 && n.role != 't' {
			continue
		}
		keep := false
		var t types.Type
		if n.role == 't' {
			t = n.v.Type().(*types.Tuple).At(n.idx).Type()
		} else {
			t = f.typeOf(n)
		}
		switch n.kind {
		case 'v':
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
				keep = true
			}
			keep = keep || n.path == "" && f.enum[n.v]
		case 'n':
			keep = isErrorType(t) && n.path == ""
		}
		if !keep {
			continue
		}
		if _, ok := n.v.(*ssa.Parameter); ok && n.path == "" && n.kind == 'n' {
			continue
		}
		if c, ok := s.z.isConst(v); ok {
			out = append(out, fmt.Sprintf("%d=%d", v, c))
		}
	}
	for h, body := range f.loops {
		if body[b] && s.first[h] > 0 {
			out = append(out, fmt.Sprintf("h%d:%d", h.Index, s.first[h]))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ") + s.defers
}

// block interprets a block and hands on the states of its successors
func (f *zFunc) block(b *ssa.BasicBlock, s *zState, emit func(it zItem, s *zState)) {
	states := []*zState{s}
	for _, in := range b.Instrs {
		var next []*zState
		for _, s := range states {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				next = append(next, s)
			case *ssa.If:
				if t := s.clone(); f.assume(t.z, x.Cond, true) {
					f.edge(b, b.Succs[0], t, emit)
				}
				if f.assume(s.z, x.Cond, false) {
					f.edge(b, b.Succs[1], s, emit)
				}
			case *ssa.Jump:
				f.edge(b, b.Succs[0], s, emit)
			case *ssa.Return:
				f.ret(x, s)
			case *ssa.Panic:
				f.oblige(x, "panic", "panic", false, "it can be reached")
			case *ssa.Defer:
				if strings.Count(s.defers, "d") > 4 {
					panic("zflow: too many deferred calls in " + f.a.p.fname(f.fn))
				}
				i := 0
				for k, d := range f.defers {
					if d == x {
						i = k
					}
				}
				s.defers += fmt.Sprintf("d%d", i)
				next = append(next, s)
			case *ssa.RunDefers:
				cur := []*zState{s}
				ds := strings.Split(s.defers, "d")
				for k := len(ds) - 1; k > 0; k-- {
					i := 0
					fmt.Sscan(ds[k], &i)
					var nx []*zState
					for _, c := range cur {
						nx = append(nx, f.call(f.defers[i], c)...)
					}
					cur = nx
				}
				for _, c := range cur {
					c.defers = ""
				}
				next = append(next, cur...)
			case *ssa.Call:
				next = append(next, f.call(x, s)...)
			default:
				if f.step(in, s.z) {
					next = append(next, s)
				}
			}
		}
		states = f.merge(b, next)
		if len(states) == 0 {
			return
		}
	}
}

// merge joins states within a block that don't differ in what the key says
func (f *zFunc) merge(b *ssa.BasicBlock, ss []*zState) []*zState {
	if len(ss) < 2 {
		return ss
	}
	m := map[string]int{}
	var out []*zState
	for _, s := range ss {
		k := f.key(b, s)
		if i, ok := m[k]; ok {
			out[i] = &zState{z: out[i].z.join(s.z, nil), first: s.first, defers: s.defers}
			continue
		}
		m[k] = len(out)
		out = append(out, s)
	}
	return out
}

// edge goes from one block to the next
func (f *zFunc) edge(from, to *ssa.BasicBlock, s *zState, emit func(it zItem, s *zState)) {
	a := f.a
	z := s.z
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	body := f.loops[to]
	back := body != nil && body[from]
	if back {
		f.round(to, pi, z)
	}
	// phis, all at once
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	type mv struct{ tmp, dst int32 }
	var mvs []mv
	for _, ph := range phis {
		for _, k := range zKinds(ph.Type()) {
			tmp := a.id(zName{v: ph, kind: k, role: 'p'})
			dst := a.id(zName{v: ph, kind: k})
			if !f.copyOperand(z, tmp, ph.Edges[pi], k) {
				return
			}
			mvs = append(mvs, mv{tmp, dst})
		}
	}
	if len(mvs) > 0 {
		dead := map[int32]bool{}
		ren := map[int32]int32{}
		for _, m := range mvs {
			dead[m.dst] = true
			ren[m.tmp] = m.dst
		}
		for _, ph := range phis {
			f.forgetBase(z, ph, dead)
		}
		z.forgetAll(dead)
		z = z.rename(ren)
		s.z = z
	}
	// loops
	if body != nil {
		if back {
			if s.first[to]--; s.first[to] <= 0 {
				delete(s.first, to)
			}
		} else {
			s.first[to] = f.peel(to)
		}
	}
	for h, bd := range f.loops {
		if !bd[to] {
			delete(s.first, h)
		}
	}
	// what isn't needed any more
	live := f.liveIn[to.Index]
	dead := map[int32]bool{}
	for _, v := range z.vars[1:] {
		n := a.names[v]
		switch n.role {
		case 'e', 'r':
			continue
		case 'h':
			if bd := f.loops[n.hdr]; bd == nil || !bd[to] {
				dead[v] = true
			}
			continue
		}
		if _, ok := n.v.(*ssa.Parameter); ok {
			continue
		}
		if live[n.v] || f.deferred(n.v) {
			continue
		}
		dead[v] = true
	}
	// an equation between two numbers that are still needed keeps its third
	for _, e := range z.eqs {
		n := 0
		for _, v := range []int32{e.a, e.b, e.c} {
			if dead[v] && f.a.names[v].role == 0 {
				n++
			} else if dead[v] {
				n = 9
			}
		}
		if n == 1 {
			for _, v := range []int32{e.a, e.b, e.c} {
				delete(dead, v)
			}
		}
	}
	z.forgetAll(dead)
	for v := range z.cont {
		if z.ix(v) < 0 {
			delete(z.cont, v)
		}
	}
	if body != nil {
		f.setHeads(to, z)
	}
	emit(zItem{to, f.key(to, s)}, s)
}

// peel is how many rounds of a loop are told apart: two if the loop is a state machine that calls nothing
func (f *zFunc) peel(h *ssa.BasicBlock) int {
	enum := false
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && f.enum[ph] {
			enum = true
		}
	}
	if !enum {
		return 1
	}
	for b := range f.loops[h] {
		if b != h && f.loops[b] != nil {
			return 1
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range f.a.targets(c.Common()) {
					if t.Blocks != nil && !f.a.leaf(t) {
						return 1
					}
				}
			}
		}
	}
	return 2
}

// leaf: a function without loops that calls none of the package's
func (a *zAnalysis) leaf(t *ssa.Function) bool {
	for _, b := range t.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && len(a.targets(c.Common())) > 0 {
				return false
			}
		}
	}
	return true
}

func (f *zFunc) deferred(v ssa.Value) bool {
	for _, d := range f.defers {
		for _, op := range d.Operands(nil) {
			if *op == nil {
				continue
			}
			b, _ := zArg(*op)
			if *op == v || b == v {
				return true
			}
		}
	}
	return false
}

// forgetBase collects the terms whose base gets a new value
func (f *zFunc) forgetBase(z *zone, v ssa.Value, dead map[int32]bool) {
	for _, id := range z.vars[1:] {
		n := f.a.names[id]
		if n.v == v && n.path != "" && n.role == 0 {
			dead[id] = true
		}
	}
}

// candidates of progress at a loop's head
func (f *zFunc) cands(h *ssa.BasicBlock, z *zone) []zName {
	var out []zName
	for _, v := range z.vars[1:] {
		n := f.a.names[v]
		if n.role != 0 || n.kind == 'n' || n.kind == 'c' {
			continue
		}
		if bt, ok := f.typeOf(n).Underlying().(*types.Basic); n.kind == 'v' && (!ok || bt.Info()&types.IsInteger == 0) {
			continue
		}
		if n.path != "" {
			if _, ok := n.v.(*ssa.Parameter); ok {
				out = append(out, n)
			}
			continue
		}
		if ph, ok := n.v.(*ssa.Phi); ok && ph.Block() == h && !f.enum[ph] {
			out = append(out, n)
		}
	}
	return out
}

func (f *zFunc) setHeads(h *ssa.BasicBlock, z *zone) {
	dead := map[int32]bool{}
	cs := f.cands(h, z)
	for _, n := range cs {
		g := n
		g.role, g.hdr = 'h', h
		dead[f.a.id(g)] = true
	}
	z.forgetAll(dead)
	for _, n := range cs {
		g := n
		g.role, g.hdr = 'h', h
		z.eq(f.a.id(g), f.a.id(n), 0)
	}
}

func (f *zFunc) loop(h *ssa.BasicBlock) *zLoop {
	l := f.a.loops[h]
	if l == nil {
		l = &zLoop{fn: f, hdr: h, cands: map[zName]*zProgress{}}
		f.a.loops[h] = l
	}
	return l
}

// round notes, at the end of a loop's round, by how much each candidate grew
func (f *zFunc) round(h *ssa.BasicBlock, pi int, z *zone) {
	if !f.a.final || zMuted {
		return
	}
	l := f.loop(h)
	l.seen++
	seen := map[zName]bool{}
	for _, v := range append([]int32{}, z.vars[1:]...) {
		g := f.a.names[v]
		if g.role != 'h' || g.hdr != h {
			continue
		}
		n := g
		n.role, n.hdr = 0, nil
		seen[n] = true
		p := l.cands[n]
		if p == nil {
			p = &zProgress{name: n, lo: zInf, hi: -zInf}
			l.cands[n] = p
			if l.seen > 1 {
				p.lo, p.hi = -zInf, zInf
			}
		}
		var lo, hi int64 = -zInf, zInf
		t := z.clone()
		if n.path == "" {
			ph := n.v.(*ssa.Phi)
			tmp := f.a.id(zName{v: ph, kind: n.kind, role: 'p'})
			if !f.copyOperand(t, tmp, ph.Edges[pi], n.kind) {
				continue
			}
			lo, hi = -t.get(v, tmp), t.get(tmp, v)
		} else {
			id := f.a.id(n)
			lo, hi = -t.get(v, id), t.get(id, v)
		}
		p.seen = true
		if lo < p.lo {
			p.lo = lo
		}
		if hi > p.hi {
			p.hi = hi
		}
	}
	for n, p := range l.cands {
		if !seen[n] {
			p.lo, p.hi = -zInf, zInf
		}
	}
}

// heads notes, at a loop's head, what bounds each candidate
func (f *zFunc) heads(h *ssa.BasicBlock, s *zState) {
	body := f.loops[h]
	if body == nil {
		return
	}
	l := f.loop(h)
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			_ = nx
			l.rng = true
		}
	}
	mods := map[string]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				mods[f.a.storeKey(x.Addr)] = true
			case ssa.CallInstruction:
				for _, g := range f.a.targets(x.Common()) {
					for k := range f.a.modsOf[g] {
						mods[k] = true
					}
				}
				f.a.callMods(x.Common(), mods)
			}
		}
	}
	stable := func(v int32) bool {
		if v == 0 {
			return true
		}
		n := f.a.names[v]
		if n.role == 'e' {
			return true
		}
		if n.role != 0 {
			return false
		}
		if n.path != "" && f.a.hit(zTerm{n.v, n.path}, mods) {
			return false
		}
		if in, ok := n.v.(ssa.Instruction); ok && body[in.Block()] {
			return false
		}
		return true
	}
	for _, n := range f.cands(h, s.z) {
		p := l.cands[n]
		if p == nil {
			p = &zProgress{name: n, lo: zInf, hi: -zInf}
			l.cands[n] = p
		}
		id := f.a.id(n)
		up, low := "", ""
		for _, w := range s.z.vars {
			if w == id || !stable(w) {
				continue
			}
			if s.z.get(id, w) < zInf {
				up = f.a.show(w)
			}
			if s.z.get(w, id) < zInf {
				low = f.a.show(w)
			}
		}
		p.noUp = p.noUp || up == ""
		p.noLow = p.noLow || low == ""
		p.above, p.below = up, low
	}
}

// proves says why a loop ends
func (l *zLoop) proves() (string, bool) {
	var names []string
	ok := false
	why := ""
	for n, p := range l.cands {
		s := l.fn.a.show(l.fn.a.id(n))
		if p.seen && p.lo >= 1 && !p.noUp {
			ok, why = true, s+" grows in each round and stays within a bound"
		}
		if p.seen && p.hi <= -1 && !p.noLow {
			ok, why = true, s+" shrinks in each round and stays within a bound"
		}
		names = append(names, s)
	}
	if ok {
		return why, true
	}
	if l.seen == 0 {
		return "no second round", true
	}
	if l.rng {
		return "ranges over a map or string", true
	}
	sort.Strings(names)
	return "no number is shown to grow or shrink in each round (" + strings.Join(names, ", ") + ")", false
}

func (f *zFunc) oblige(in ssa.Instruction, kind, what string, ok bool, why string) {
	if !f.a.final || zMuted {
		return
	}
	m := f.a.obls[in]
	if m == nil {
		m = map[string]*zObl{}
		f.a.obls[in] = m
	}
	o := m[kind+what]
	if o == nil {
		o = &zObl{kind: kind, in: in, what: what, ok: true}
		m[kind+what] = o
	}
	o.seen++
	if !ok && o.ok {
		o.ok, o.why = false, why
	}
}

// ret goes to the function's exit
func (f *zFunc) ret(x *ssa.Return, s *zState) {
	a := f.a
	z := s.z
	var key []string
	for i, v := range x.Results {
		for _, k := range zKinds(v.Type()) {
			id := a.id(zName{role: 'r', idx: i, kind: k, v: nil, base: f})
			if !f.copyOperand(z, id, v, k) {
				return
			}
			bt, isB := v.Type().Underlying().(*types.Basic)
			if k == 'n' && isErrorType(v.Type()) || k == 'v' && isB && bt.Info()&types.IsBoolean != 0 {
				if c, ok := z.isConst(id); ok {
					key = append(key, fmt.Sprintf("r%d=%d", i, c))
				} else {
					key = append(key, fmt.Sprintf("r%d=?", i))
				}
			}
		}
	}
	if !zMuted && f.a.onExit != nil {
		f.a.onExit(f, x, z)
	}
	keep := map[int32]bool{}
	for _, n := range f.foot {
		keep[a.id(n)] = true
		n.role = 'e'
		keep[a.id(n)] = true
	}
	dead := map[int32]bool{}
	for _, v := range z.vars[1:] {
		if a.names[v].role != 'r' && !keep[v] {
			dead[v] = true
		}
	}
	z.forgetAll(dead)
	z.locs, z.from, z.cont = map[zLoc]byteSet{}, map[int32]zLoc{}, map[int32]int32{}
	if !zMuted {
		a.exitState(f, strings.Join(key, " "), z)
	}
}

// reach lists the package's functions that the given ones call, directly or not
func (a *zAnalysis) reach(fns ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for len(fns) > 0 {
		f := fns[0]
		fns = fns[1:]
		if out[f] || !a.p.isOurs(f) {
			continue
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fns = append(fns, a.targets(c.Common())...)
					for _, arg := range c.Common().Args {
						fns = append(fns, closuresOf(arg)...)
					}
				}
			}
		}
	}
	return out
}

// object gives the methods of an object that are called from outside the states that the object can be in between calls:
// what it is made with, and what calls of those methods leave behind. It returns the functions that make such objects.
func (a *zAnalysis) object(method *ssa.Function) (entries []*ssa.Function, makers []*ssa.Function) {
	recv := method.Params[0]
	elem := recv.Type().Underlying().(*types.Pointer).Elem()
	made := map[*ssa.Function][]*ssa.Alloc{}
	touches := map[*ssa.Function]bool{}
	for _, g := range a.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), elem) {
					if made[g] == nil {
						makers = append(makers, g)
					}
					made[g] = append(made[g], al)
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), recv.Type()) {
					touches[g] = true
				}
			}
		}
	}
	// what changes or looks at the object and isn't part of a call of the method can be called at any time as well
	inside := a.reach(method)
	entries = []*ssa.Function{method}
	isEntry := map[*ssa.Function]bool{method: true}
	takes := func(g *ssa.Function) bool {
		return len(g.Params) > 0 && types.Identical(g.Params[0].Type(), recv.Type())
	}
	for _, g := range a.p.funcs {
		if inside[g] || made[g] != nil {
			continue
		}
		if touches[g] && takes(g) && !isEntry[g] {
			isEntry[g] = true
			entries = append(entries, g)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range a.targets(c.Common()) {
					if takes(t) && a.p.isOurs(t) && (touches[t] || inside[t]) && !isEntry[t] {
						isEntry[t] = true
						entries = append(entries, t)
					}
				}
			}
		}
	}
	fs := []*zFunc{}
	for _, e := range entries {
		fs = append(fs, a.get(e))
	}
	for g := range made {
		a.root(g, nil)
	}
	prev := a.onExit
	a.onExit = func(g *zFunc, in *ssa.Return, z *zone) {
		if prev != nil {
			prev(g, in, z)
		}
		give := func(base ssa.Value) {
			for _, f := range fs {
				recv := f.fn.Params[0]
				e := newZone()
				f.top(e)
				for _, n := range f.foot {
					for _, m := range f.foot {
						if n.v != recv || m.v != recv || n.path == "" || m.path == "" || n == m {
							continue
						}
						x, y := a.id(zName{v: base, path: n.path, kind: n.kind}), a.id(zName{v: base, path: m.path, kind: m.kind})
						e.le(a.id(n), a.id(m), z.get(x, y))
					}
					if n.v == recv && n.path != "" {
						x := a.id(zName{v: base, path: n.path, kind: n.kind})
						e.le(a.id(n), 0, z.get(x, 0))
						e.le(0, a.id(n), z.get(0, x))
					}
				}
				a.contribute(f, e)
			}
		}
		for _, al := range made[g.fn] {
			give(al)
		}
		if isEntry[g.fn] {
			give(g.fn.Params[0])
		}
	}
	return entries, makers
}
