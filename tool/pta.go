package main

// An inclusion-based points-to analysis of the package in SSA form: field-sensitive, with a context per acyclic call
// chain (recursive calls are merged with the enclosing call of the same function) and heap objects per context.
//
// Data that exists before an entry point is called is represented by "old" objects, one per type (Old(T)) and one per
// field that holds a slice or map. Whatever an entry point allocates is "fresh". A fresh object that is stored in an old one
// is from then on read back as the old one, because another call may have put its own there.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type objKind int

const (
	kAlloc   objKind = iota
	kOld             // instance of a named struct that existed before the call
	kOldMem          // backing array or map owned by a field of an old object
	kGlobal          // package-level variable
	kEvent           // the caller's event
	kBox             // value in an interface
	kOldBox          // value in an interface which existed before
	kClosure         // closure
	kFunc            // function
	kExt             // result of a function outside the package
)

type obj struct {
	id    int
	kind  objKind
	name  string // for old objects: owner
	typ   types.Type
	inst  *inst
	site  ssa.Instruction
	fn    *ssa.Function
	owner string // named type (and path) that owns it, for old objects
	fixed bool   // allocated by package initialisation
}

type loc struct {
	o    *obj
	path string
}

func (l loc) String() string { return l.o.String() + l.path }

func (o *obj) String() string {
	switch o.kind {
	case kOld:
		return "shared " + o.name
	case kOldMem:
		return "memory of " + o.name
	case kGlobal:
		return "global " + o.name
	case kEvent:
		return "the event"
	case kExt:
		return "external " + o.name
	case kFunc:
		return "func " + o.fn.Name()
	}
	pre := "new "
	if o.fixed {
		pre = "package-level "
	}
	if o.site != nil {
		return pre + types.TypeString(o.typ, func(*types.Package) string { return "" }) + " of " + o.inst.fn.Name()
	}
	return pre + o.name
}

type inst struct {
	id     int
	fn     *ssa.Function
	parent *inst
	site   ssa.CallInstruction
	root   *rootT
	depth  int
	consts map[int]*ssa.Const // parameters which are constants that the function branches on
	dead   map[*ssa.BasicBlock]bool
}

type rootT struct {
	name string
	init bool
}

func (i *inst) chain() string {
	var s []string
	for j := i; j != nil; j = j.parent {
		s = append([]string{j.fn.Name()}, s...)
	}
	return strings.Join(s, " → ")
}

type node struct {
	pts   map[loc]struct{}
	delta []loc
	succ  []edge
	seen  map[edge]struct{}
	cbs   []func(loc)
	inWL  bool
	cell  loc // if it's a heap cell
	old   bool
}

type edge struct {
	to *node
}

type nodeKey struct {
	i *inst
	v ssa.Value
	p string
}

type instKey struct {
	parent *inst
	site   ssa.CallInstruction
	fn     *ssa.Function
	consts string
}

type callEdge struct {
	from *inst
	site ssa.CallInstruction
	to   *inst
}

type escape struct {
	cell loc
	what loc
}

type pta struct {
	p        *Prog
	nodes    map[nodeKey]*node
	cells    map[loc]*node
	objs     map[string]*obj
	allocs   map[nodeKey]*obj
	insts    map[instKey]*inst
	instList []*inst
	edges    map[callEdge]bool
	callees  map[*inst]map[ssa.CallInstruction][]*inst
	extCalls map[*inst]map[ssa.CallInstruction]bool
	wl       []*node
	escapes  map[escape]bool
	nobj     int
	problems map[string]string
	impls    map[string][]types.Type
	leafMemo map[types.Type][]string
	optFns   map[string][]*ssa.Function
	roots    []*inst
	maxInst  int
	seeded   map[loc]bool
	postInit bool
	oldCBs   bool
	fwd      *forwarder
}

func newPTA(p *Prog) *pta {
	return &pta{p: p, fwd: newForwarder(p), nodes: map[nodeKey]*node{}, cells: map[loc]*node{}, objs: map[string]*obj{}, allocs: map[nodeKey]*obj{},
		insts: map[instKey]*inst{}, edges: map[callEdge]bool{}, callees: map[*inst]map[ssa.CallInstruction][]*inst{},
		extCalls: map[*inst]map[ssa.CallInstruction]bool{},
		escapes:  map[escape]bool{}, problems: map[string]string{}, impls: map[string][]types.Type{}, leafMemo: map[types.Type][]string{},
		seeded: map[loc]bool{}, maxInst: 60000}
}

func (a *pta) problem(where, what string) { a.problems[what] = where }

// ---- types ----

func isAtomicPointer(t types.Type) (types.Type, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" || n.Obj().Name() != "Pointer" {
		return nil, false
	}
	return n.TypeArgs().At(0), true
}

func isForeignStruct(p *Prog, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() == nil || n.Obj().Pkg() != p.pkg.Pkg
}

// leaves lists the paths of the pointer-like components of a value of type t
func (a *pta) leaves(t types.Type) []string {
	if l, ok := a.leafMemo[t]; ok {
		return l
	}
	var out []string
	if isForeignStruct(a.p, t) {
		a.leafMemo[t] = nil
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		out = []string{""}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []string{""}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range a.leaves(u.Field(i).Type()) {
				out = append(out, "."+u.Field(i).Name()+l)
			}
		}
	case *types.Array:
		for _, l := range a.leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range a.leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, l))
			}
		}
	}
	a.leafMemo[t] = out
	return out
}

// typeAt gives the type of the component of t at path
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch path[0] {
		case '[':
			path = path[2:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
		case '.':
			end := 1
			for end < len(path) && path[end] != '.' && path[end] != '[' && path[end] != '{' {
				end++
			}
			name := path[1:end]
			path = path[end:]
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			var ft types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					ft = s.Field(i).Type()
				}
			}
			t = ft
		case '{': // {k} or {v}
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			if path[1] == 'k' {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			path = path[3:]
		default:
			return nil
		}
	}
	return t
}

// ---- nodes ----

func (a *pta) newNode() *node { return &node{} }

func (a *pta) val(i *inst, v ssa.Value, path string) *node {
	k := nodeKey{i, v, path}
	n := a.nodes[k]
	if n != nil {
		return n
	}
	n = a.newNode()
	a.nodes[k] = n
	switch v := v.(type) {
	case *ssa.Global:
		if path == "" {
			a.add(n, loc{a.global(v), ""})
		}
	case *ssa.Function:
		a.add(n, loc{a.funcObj(v), ""})
	}
	return n
}

func (a *pta) ret(i *inst, path string) *node {
	k := nodeKey{i, nil, "ret" + path}
	n := a.nodes[k]
	if n == nil {
		n = a.newNode()
		a.nodes[k] = n
	}
	return n
}

func (a *pta) mkobj(key string, mk func() *obj) *obj {
	o := a.objs[key]
	if o == nil {
		o = mk()
		a.nobj++
		o.id = a.nobj
		a.objs[key] = o
	}
	return o
}

func (a *pta) global(g *ssa.Global) *obj {
	return a.mkobj("G:"+g.String(), func() *obj {
		return &obj{kind: kGlobal, name: g.Name(), typ: g.Type().Underlying().(*types.Pointer).Elem(), owner: "global " + g.Name()}
	})
}

func (a *pta) funcObj(f *ssa.Function) *obj {
	return a.mkobj("F:"+f.String()+fmt.Sprintf("%p", f), func() *obj { return &obj{kind: kFunc, name: f.Name(), fn: f, typ: f.Signature} })
}

func (a *pta) oldObj(t types.Type) *obj {
	name := types.TypeString(t, types.RelativeTo(a.p.pkg.Pkg))
	return a.mkobj("O:"+name, func() *obj { return &obj{kind: kOld, name: name, typ: t, owner: name} })
}

func (a *pta) oldMem(owner string, t types.Type) *obj {
	return a.mkobj("M:"+owner, func() *obj { return &obj{kind: kOldMem, name: owner, typ: t, owner: owner} })
}

func (a *pta) event(name string, t types.Type) *obj {
	return a.mkobj("E:"+name, func() *obj { return &obj{kind: kEvent, name: name, typ: t, owner: "event"} })
}

func (a *pta) alloc(i *inst, site ssa.Instruction, sub string, kind objKind, t types.Type) *obj {
	v, _ := site.(ssa.Value)
	k := nodeKey{i, v, "alloc" + sub}
	if v == nil {
		k.p += fmt.Sprintf("%p", site)
	}
	o := a.allocs[k]
	if o == nil {
		a.nobj++
		o = &obj{kind: kind, id: a.nobj, typ: t, inst: i, site: site, fixed: i.root.init}
		a.allocs[k] = o
	}
	return o
}

func (a *pta) isFresh(o *obj) bool {
	switch o.kind {
	case kAlloc, kBox, kClosure, kExt:
		return !o.fixed
	}
	return false
}

// isOldCell: memory that existed before the call
func (a *pta) isOldCell(o *obj) bool {
	switch o.kind {
	case kOld, kOldMem, kEvent, kOldBox:
		return true
	case kGlobal:
		return true
	}
	return o.fixed
}

func (a *pta) cell(l loc) *node {
	n := a.cells[l]
	if n == nil {
		n = a.newNode()
		n.cell = l
		a.cells[l] = n
		switch l.o.kind {
		case kOld, kOldMem, kOldBox:
			n.old = true
			a.seed(n, l)
		}
	}
	return n
}

// ownerOf names the innermost named struct type that holds the component at path, with the rest of the path
func (a *pta) ownerOf(o *obj, path string) string {
	base := o.owner
	if o.kind == kAlloc || base == "" {
		base = types.TypeString(o.typ, types.RelativeTo(a.p.pkg.Pkg))
	}
	// walk
	t := o.typ
	rest := path
	cur := ""
	for rest != "" {
		step := nextStep(rest)
		cur += step
		rest = rest[len(step):]
		t = typeAt(t, step)
		if t == nil {
			break
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && rest != "" {
			if _, ok := n.Underlying().(*types.Struct); ok {
				base = types.TypeString(t, types.RelativeTo(a.p.pkg.Pkg))
				cur = ""
			}
		}
	}
	return base + cur
}

func nextStep(path string) string {
	switch path[0] {
	case '[':
		return "[]"
	case '{':
		return path[:3]
	}
	end := 1
	for end < len(path) && path[end] != '.' && path[end] != '[' && path[end] != '{' {
		end++
	}
	return path[:end]
}

func (a *pta) seed(n *node, l loc) {
	t := typeAt(l.o.typ, l.path)
	if t == nil {
		return
	}
	for _, s := range a.seedsFor(t, a.ownerOf(l.o, l.path)) {
		a.add(n, s)
	}
}

func (a *pta) seedsFor(t types.Type, owner string) []loc {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if n, ok := types.Unalias(el).(*types.Named); ok && n.Obj().Pkg() == a.p.pkg.Pkg {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return []loc{{a.oldObj(el), ""}}
			}
		}
		return []loc{{a.oldMem(owner+"*", el), ""}}
	case *types.Slice:
		return []loc{{a.oldMem(owner, t), "[]"}}
	case *types.Map:
		return []loc{{a.oldMem(owner, t), ""}}
	case *types.Interface:
		var out []loc
		for _, it := range a.implementers(t) {
			name := types.TypeString(it, types.RelativeTo(a.p.pkg.Pkg))
			o := a.mkobj("B:"+name, func() *obj { return &obj{kind: kOldBox, name: "value " + name, typ: it, owner: name} })
			out = append(out, loc{o, ""})
		}
		return out
	case *types.Signature:
		var out []loc
		for _, f := range a.p.funcs {
			if f.Parent() == nil || !types.Identical(f.Signature, t.Underlying()) {
				continue
			}
			o := a.mkobj("C:"+f.String(), func() *obj {
				return &obj{kind: kClosure, name: "option closure " + f.Name(), fn: f, typ: f.Signature, fixed: true}
			})
			for i, fv := range f.FreeVars {
				el := fv.Type()
				c := a.cell(loc{o, fmt.Sprintf("fv%d", i)})
				for _, s := range a.seedsFor(el, "captured variable "+fv.Name()) {
					a.add(c, s)
				}
			}
			out = append(out, loc{o, ""})
		}
		return out
	}
	return nil
}

// implementers of a non-empty interface among the types of the package
func (a *pta) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return nil
	}
	key := t.String()
	if r, ok := a.impls[key]; ok {
		return r
	}
	var out []types.Type
	sc := a.p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt := tn.Type()
		if types.IsInterface(nt) {
			continue
		}
		if types.Implements(nt, it) {
			out = append(out, nt)
		} else if types.Implements(types.NewPointer(nt), it) {
			out = append(out, types.NewPointer(nt))
		}
	}
	a.impls[key] = out
	return out
}

// ---- solver ----

func (a *pta) add(n *node, l loc) {
	if n.old && a.isFresh(l.o) {
		a.escapes[escape{n.cell, l}] = true
		return
	}
	if n.pts == nil {
		n.pts = map[loc]struct{}{}
	}
	if _, ok := n.pts[l]; ok {
		return
	}
	n.pts[l] = struct{}{}
	n.delta = append(n.delta, l)
	if !n.inWL {
		n.inWL = true
		a.wl = append(a.wl, n)
	}
}

func (a *pta) copyEdge(from, to *node) {
	if from == to {
		return
	}
	e := edge{to}
	if from.seen == nil {
		from.seen = map[edge]struct{}{}
	}
	if _, ok := from.seen[e]; ok {
		return
	}
	from.seen[e] = struct{}{}
	from.succ = append(from.succ, e)
	for l := range from.pts {
		a.add(to, l)
	}
}

func (a *pta) on(n *node, f func(loc)) {
	n.cbs = append(n.cbs, f)
	var ls []loc
	for l := range n.pts {
		ls = append(ls, l)
	}
	sortLocs(ls)
	for _, l := range ls {
		f(l)
	}
}

func sortLocs(ls []loc) {
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].o.id != ls[j].o.id {
			return ls[i].o.id < ls[j].o.id
		}
		return ls[i].path < ls[j].path
	})
}

func (a *pta) solve() {
	for len(a.wl) > 0 {
		n := a.wl[len(a.wl)-1]
		a.wl = a.wl[:len(a.wl)-1]
		n.inWL = false
		d := n.delta
		n.delta = nil
		for _, e := range n.succ {
			for _, l := range d {
				a.add(e.to, l)
			}
		}
		for k := 0; k < len(n.cbs); k++ {
			for _, l := range d {
				n.cbs[k](l)
			}
		}
		if len(a.instList) > a.maxInst {
			panic("too many calling contexts")
		}
	}
}

// cells written by package initialisation are ordinary until finishInit; afterwards, what is fresh can't be read back from them
func (a *pta) finishInit() {
	a.solve()
	a.postInit = true
	for l, n := range a.cells {
		if l.o.kind == kGlobal || l.o.fixed {
			n.old = true
		}
	}
}

// storeCell is the cell for a write: memory that existed before gets the seeds of its type too, because a later call
// can read what another call stored
func (a *pta) storeCell(l loc) *node {
	n := a.cell(l)
	if a.postInit && (l.o.kind == kGlobal || l.o.fixed) && l.o.kind != kClosure {
		n.old = true
		if !a.seeded[l] {
			a.seeded[l] = true
			a.seed(n, l)
		}
	}
	return n
}

// ---- instances and constraints ----

func (a *pta) addRoot(name string, fn *ssa.Function) *inst {
	r := &rootT{name: name, init: name == "init"}
	i := &inst{fn: fn, root: r, id: len(a.instList)}
	a.instList = append(a.instList, i)
	a.roots = append(a.roots, i)
	a.gen(i)
	return i
}

func (a *pta) getInst(parent *inst, site ssa.CallInstruction, fn *ssa.Function) *inst {
	consts := a.constArgs(parent, site, fn)
	sig := constSig(consts)
	// a recursive call is merged with the enclosing call of the same function
	for j := parent; j != nil; j = j.parent {
		if j.fn == fn && constSig(j.consts) == sig {
			return j
		}
	}
	k := instKey{parent, site, fn, sig}
	i := a.insts[k]
	if i == nil {
		i = &inst{fn: fn, parent: parent, site: site, root: parent.root, id: len(a.instList), depth: parent.depth + 1, consts: consts}
		i.dead = deadBlocks(i)
		a.insts[k] = i
		a.instList = append(a.instList, i)
		a.gen(i)
	}
	return i
}

// constArgs finds the parameters of fn which are constants at this call, and on which fn branches
func (a *pta) constArgs(parent *inst, site ssa.CallInstruction, fn *ssa.Function) map[int]*ssa.Const {
	cc := site.Common()
	off := 0
	if cc.IsInvoke() {
		off = 1
	}
	var out map[int]*ssa.Const
	for k, pr := range fn.Params {
		if k-off < 0 || k-off >= len(cc.Args) || !branchesOn(pr) {
			continue
		}
		c, ok := cc.Args[k-off].(*ssa.Const)
		if !ok {
			if q, isP := cc.Args[k-off].(*ssa.Parameter); isP && parent.fn == q.Parent() {
				for n, x := range parent.fn.Params {
					if x == q {
						c, ok = parent.consts[n]
					}
				}
			}
		}
		if ok && c != nil && c.Value != nil {
			if out == nil {
				out = map[int]*ssa.Const{}
			}
			out[k] = c
		}
	}
	return out
}

func constSig(m map[int]*ssa.Const) string {
	if len(m) == 0 {
		return ""
	}
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d=%s;", k, m[k].Value.ExactString())
	}
	return s
}

var branchMemo = map[*ssa.Parameter]bool{}

// branchesOn: some If of the function depends directly on the parameter
func branchesOn(p *ssa.Parameter) bool {
	if r, ok := branchMemo[p]; ok {
		return r
	}
	r := false
	if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsString) != 0 {
		for _, bl := range p.Parent().Blocks {
			if iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If); ok {
				switch c := iff.Cond.(type) {
				case *ssa.Parameter:
					r = r || c == p
				case *ssa.UnOp:
					r = r || c.X == p
				case *ssa.BinOp:
					_, k1 := c.X.(*ssa.Const)
					_, k2 := c.Y.(*ssa.Const)
					r = r || c.X == p && k2 || c.Y == p && k1
				}
			}
		}
	}
	branchMemo[p] = r
	return r
}

// deadBlocks: blocks that can't be reached with the constant parameters of i
func deadBlocks(i *inst) map[*ssa.BasicBlock]bool {
	if len(i.consts) == 0 {
		return nil
	}
	val := func(v ssa.Value) constant.Value {
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value
		case *ssa.Parameter:
			for k, p := range i.fn.Params {
				if p == v && i.consts[k] != nil {
					return i.consts[k].Value
				}
			}
		}
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{i.fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{i.fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		succs := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			var r constant.Value
			switch c := iff.Cond.(type) {
			case *ssa.Parameter:
				r = val(c)
			case *ssa.UnOp:
				if x := val(c.X); c.Op == token.NOT && x != nil {
					r = constant.UnaryOp(token.NOT, x, 0)
				}
			case *ssa.BinOp:
				x, y := val(c.X), val(c.Y)
				if x != nil && y != nil && (c.Op == token.EQL || c.Op == token.NEQ) && x.Kind() == y.Kind() {
					r = constant.MakeBool(constant.Compare(x, c.Op, y))
				}
			}
			if r != nil && r.Kind() == constant.Bool {
				if constant.BoolVal(r) {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	dead := map[*ssa.BasicBlock]bool{}
	for _, b := range i.fn.Blocks {
		if !seen[b] && b != i.fn.Recover {
			dead[b] = true
		}
	}
	return dead
}

func (a *pta) copyVal(i *inst, from ssa.Value, fp string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.copyEdge(a.val(i, from, fp+l), a.val(i, to, tp+l))
	}
}

func (a *pta) load(i *inst, ptr ssa.Value, sub string, to ssa.Value, tp string, t types.Type) {
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(a.val(i, ptr, ""), func(l loc) {
		for _, lf := range ls {
			a.copyEdge(a.cell(loc{l.o, l.path + sub + lf}), a.val(i, to, tp+lf))
		}
	})
}

func (a *pta) store(i *inst, ptr ssa.Value, sub string, v ssa.Value, vp string, t types.Type) {
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(a.val(i, ptr, ""), func(l loc) {
		for _, lf := range ls {
			a.copyEdge(a.val(i, v, vp+lf), a.storeCell(loc{l.o, l.path + sub + lf}))
		}
	})
}

func (a *pta) gen(i *inst) {
	for _, b := range i.fn.Blocks {
		if i.dead[b] {
			continue
		}
		for _, in := range b.Instrs {
			a.genInstr(i, in)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *pta) genInstr(i *inst, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a.add(a.val(i, in, ""), loc{a.alloc(i, in, "", kAlloc, deref(in.Type())), ""})
	case *ssa.MakeSlice:
		a.add(a.val(i, in, ""), loc{a.alloc(i, in, "", kAlloc, in.Type()), "[]"})
	case *ssa.MakeMap, *ssa.MakeChan:
		a.add(a.val(i, in.(ssa.Value), ""), loc{a.alloc(i, in, "", kAlloc, in.(ssa.Value).Type()), ""})
	case *ssa.MakeInterface:
		o := a.alloc(i, in, "", kBox, in.X.Type())
		for _, l := range a.leaves(in.X.Type()) {
			a.copyEdge(a.val(i, in.X, l), a.cell(loc{o, l}))
		}
		a.add(a.val(i, in, ""), loc{o, ""})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := a.alloc(i, in, "", kClosure, in.Type())
		o.fn = fn
		for k, b := range in.Bindings {
			a.copyEdge(a.val(i, b, ""), a.cell(loc{o, fmt.Sprintf("fv%d", k)}))
		}
		a.add(a.val(i, in, ""), loc{o, ""})
	case *ssa.Phi:
		for k, e := range in.Edges {
			if i.dead[in.Block().Preds[k]] {
				continue
			}
			a.copyVal(i, e, "", in, "", in.Type())
		}
	case *ssa.ChangeType:
		a.copyVal(i, in.X, "", in, "", in.Type())
	case *ssa.ChangeInterface:
		a.copyEdge(a.val(i, in.X, ""), a.val(i, in, ""))
	case *ssa.Convert:
		from, to := in.X.Type().Underlying(), in.Type().Underlying()
		if _, ok := to.(*types.Slice); ok {
			if _, ok := from.(*types.Slice); !ok {
				a.add(a.val(i, in, ""), loc{a.alloc(i, in, "", kAlloc, in.Type()), "[]"})
				return
			}
		}
		if len(a.leaves(in.Type())) == 1 && len(a.leaves(in.X.Type())) == 1 {
			a.copyEdge(a.val(i, in.X, ""), a.val(i, in, ""))
		} else if b, ok := to.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			a.problem(a.p.pos(in.Pos()), "integer converted to unsafe.Pointer in "+a.p.fname(i.fn))
		}
	case *ssa.SliceToArrayPointer:
		a.on(a.val(i, in.X, ""), func(l loc) {
			a.add(a.val(i, in, ""), loc{l.o, strings.TrimSuffix(l.path, "[]")})
		})
	case *ssa.MultiConvert:
		a.copyVal(i, in.X, "", in, "", in.Type())
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if vs, ok := a.fwd.value(in); ok {
				for _, v := range vs {
					a.copyVal(i, v, "", in, "", in.Type())
				}
				return
			}
			a.load(i, in.X, "", in, "", in.Type())
		} else if in.Op == token.ARROW {
			a.problem(a.p.pos(in.Pos()), "channel receive in "+a.p.fname(i.fn))
		}
	case *ssa.FieldAddr:
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		f := "." + st.Field(in.Field).Name()
		a.on(a.val(i, in.X, ""), func(l loc) { a.add(a.val(i, in, ""), loc{l.o, l.path + f}) })
	case *ssa.IndexAddr:
		sub := ""
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			sub = "[]"
		}
		a.on(a.val(i, in.X, ""), func(l loc) { a.add(a.val(i, in, ""), loc{l.o, l.path + sub}) })
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		a.copyVal(i, in.X, "."+st.Field(in.Field).Name(), in, "", in.Type())
	case *ssa.Index:
		a.copyVal(i, in.X, "[]", in, "", in.Type())
	case *ssa.Extract:
		a.copyVal(i, in.Tuple, fmt.Sprintf("#%d", in.Index), in, "", in.Type())
	case *ssa.Slice:
		switch in.X.Type().Underlying().(type) {
		case *types.Pointer:
			a.on(a.val(i, in.X, ""), func(l loc) { a.add(a.val(i, in, ""), loc{l.o, l.path + "[]"}) })
		case *types.Slice:
			a.copyEdge(a.val(i, in.X, ""), a.val(i, in, ""))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			t, tp := in.Type(), ""
			if in.CommaOk {
				t, tp = in.Type().(*types.Tuple).At(0).Type(), "#0"
			}
			a.load(i, in.X, "{v}", in, tp, t)
		}
	case *ssa.Range:
		if len(a.leaves(in.X.Type())) == 1 {
			a.copyEdge(a.val(i, in.X, ""), a.val(i, in, ""))
		}
	case *ssa.Next:
		if in.IsString {
			return
		}
		rg := in.Iter.(*ssa.Range)
		m := rg.X.Type().Underlying().(*types.Map)
		a.load(i, rg, "{k}", in, "#1", m.Key())
		a.load(i, rg, "{v}", in, "#2", m.Elem())
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		a.store(i, in.Map, "{k}", in.Key, "", m.Key())
		a.store(i, in.Map, "{v}", in.Value, "", m.Elem())
	case *ssa.Store:
		a.store(i, in.Addr, "", in.Val, "", in.Val.Type())
	case *ssa.TypeAssert:
		t, tp := in.AssertedType, ""
		if in.CommaOk {
			tp = "#0"
		}
		if types.IsInterface(t) {
			a.copyEdge(a.val(i, in.X, ""), a.val(i, in, tp))
			return
		}
		ls := a.leaves(t)
		if len(ls) == 0 {
			return
		}
		a.on(a.val(i, in.X, ""), func(l loc) {
			if (l.o.kind == kBox || l.o.kind == kOldBox) && types.Identical(l.o.typ, t) {
				for _, lf := range ls {
					a.copyEdge(a.boxCell(l, lf), a.val(i, in, tp+lf))
				}
			}
		})
	case *ssa.Return:
		for k, r := range in.Results {
			pre := ""
			if len(in.Results) > 1 {
				pre = fmt.Sprintf("#%d", k)
			}
			for _, l := range a.leaves(r.Type()) {
				a.copyEdge(a.val(i, r, l), a.ret(i, pre+l))
			}
		}
	case *ssa.Send, *ssa.Select:
		a.problem(a.p.pos(in.Pos()), "channel operation in "+a.p.fname(i.fn))
	case ssa.CallInstruction:
		a.genCall(i, in)
	}
}

// the contents of a box: an old one holds the old object of its type
func (a *pta) boxCell(l loc, lf string) *node { return a.cell(loc{l.o, lf}) }

func (a *pta) genCall(i *inst, c ssa.CallInstruction) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.genBuiltin(i, c, b)
		return
	}
	if cc.IsInvoke() {
		a.on(a.val(i, cc.Value, ""), func(l loc) {
			if l.o.kind != kBox && l.o.kind != kOldBox {
				return
			}
			f := a.p.prog.LookupMethod(l.o.typ, cc.Method.Pkg(), cc.Method.Name())
			if f == nil {
				return
			}
			if !a.p.isOurs(f) {
				a.external(i, c, f)
				return
			}
			t := a.getInst(i, c, f)
			a.link(i, c, t)
			for _, lf := range a.leaves(f.Params[0].Type()) {
				a.copyEdge(a.boxCell(l, lf), a.val(t, f.Params[0], lf))
			}
			a.passArgs(i, c, t, cc.Args, 1)
		})
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if a.p.isOurs(f) {
			t := a.getInst(i, c, f)
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for k, b := range mc.Bindings {
					a.copyEdge(a.val(i, b, ""), a.val(t, f.FreeVars[k], ""))
				}
			}
			a.link(i, c, t)
			a.passArgs(i, c, t, cc.Args, 0)
			return
		}
		a.external(i, c, f)
		return
	}
	// dynamic
	a.on(a.val(i, cc.Value, ""), func(l loc) { a.callClosure(i, c, l, cc.Args, true) })
}

func (a *pta) callClosure(i *inst, c ssa.CallInstruction, l loc, args []ssa.Value, pass bool) *inst {
	f := l.o.fn
	if f == nil {
		return nil
	}
	if !a.p.isOurs(f) {
		a.external(i, c, f)
		return nil
	}
	t := a.getInst(i, c, f)
	for k := range f.FreeVars {
		a.copyEdge(a.cell(loc{l.o, fmt.Sprintf("fv%d", k)}), a.val(t, f.FreeVars[k], ""))
	}
	a.link(i, c, t)
	if pass {
		a.passArgs(i, c, t, args, 0)
	}
	return t
}

func (a *pta) link(i *inst, c ssa.CallInstruction, t *inst) {
	e := callEdge{i, c, t}
	if a.edges[e] {
		return
	}
	a.edges[e] = true
	m := a.callees[i]
	if m == nil {
		m = map[ssa.CallInstruction][]*inst{}
		a.callees[i] = m
	}
	m[c] = append(m[c], t)
}

func (a *pta) passArgs(i *inst, c ssa.CallInstruction, t *inst, args []ssa.Value, off int) {
	for k, arg := range args {
		if k+off >= len(t.fn.Params) {
			break
		}
		p := t.fn.Params[k+off]
		for _, lf := range a.leaves(arg.Type()) {
			a.copyEdge(a.val(i, arg, lf), a.val(t, p, lf))
		}
	}
	if v := c.Value(); v != nil {
		for _, lf := range a.leaves(v.Type()) {
			a.copyEdge(a.ret(t, lf), a.val(i, v, lf))
		}
	}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic: // string
		return types.Typ[types.Byte]
	}
	return nil
}

func (a *pta) genBuiltin(i *inst, c ssa.CallInstruction, b *ssa.Builtin) {
	args := c.Common().Args
	v := c.Value()
	switch b.Name() {
	case "append":
		if v == nil {
			return
		}
		s := args[0]
		newArr := loc{a.alloc(i, c.(ssa.Instruction), "", kAlloc, v.Type()), "[]"}
		a.add(a.val(i, v, ""), newArr)
		a.copyEdge(a.val(i, s, ""), a.val(i, v, ""))
		ls := a.leaves(elemOf(v.Type()))
		if len(ls) == 0 {
			return
		}
		// old elements move to the new array
		a.on(a.val(i, s, ""), func(l loc) {
			for _, lf := range ls {
				a.copyEdge(a.cell(loc{l.o, l.path + lf}), a.cell(loc{newArr.o, newArr.path + lf}))
			}
		})
		if len(args) > 1 {
			if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
				a.moveElems(i, args[1], v, ls)
			}
		}
	case "copy":
		if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
			ls := a.leaves(elemOf(args[0].Type()))
			a.moveElems(i, args[1], args[0], ls)
		}
	case "ssa:wrapnilchk":
		if v != nil {
			a.copyVal(i, args[0], "", v, "", v.Type())
		}
	case "min", "max", "len", "cap", "panic", "print", "println", "delete", "clear", "real", "imag", "complex", "close":
	case "recover":
	case "String", "StringData", "SliceData", "Slice", "Add":
		if v != nil && len(a.leaves(v.Type())) == 1 && len(a.leaves(args[0].Type())) == 1 {
			a.copyEdge(a.val(i, args[0], ""), a.val(i, v, ""))
		}
	default:
		a.problem(a.p.pos(c.Pos()), "builtin "+b.Name())
	}
}

// moveElems copies the elements of slice from to those of slice to
func (a *pta) moveElems(i *inst, from, to ssa.Value, ls []string) {
	if len(ls) == 0 {
		return
	}
	tmp := map[string]*node{}
	for _, lf := range ls {
		tmp[lf] = a.newNode()
	}
	a.on(a.val(i, from, ""), func(l loc) {
		for _, lf := range ls {
			a.copyEdge(a.cell(loc{l.o, l.path + lf}), tmp[lf])
		}
	})
	a.on(a.val(i, to, ""), func(l loc) {
		for _, lf := range ls {
			a.copyEdge(tmp[lf], a.storeCell(loc{l.o, l.path + lf}))
		}
	})
}

// ---- functions outside the package ----

type extModel struct {
	writes []int // arguments whose elements (or map contents, or pointee) are written
	moves  [][2]int
	fresh  bool // the result is new memory, with the elements of its slice arguments
	alias  []int
	pure   bool
}

var extModels = map[string]extModel{
	"slices.SortFunc":                 {writes: []int{0}},
	"slices.SortStableFunc":           {writes: []int{0}},
	"slices.Sort":                     {writes: []int{0}},
	"slices.Reverse":                  {writes: []int{0}},
	"slices.Compact":                  {writes: []int{0}, alias: []int{0}},
	"slices.CompactFunc":              {writes: []int{0}, alias: []int{0}},
	"slices.Delete":                   {writes: []int{0}, alias: []int{0}},
	"slices.DeleteFunc":               {writes: []int{0}, alias: []int{0}},
	"slices.Insert":                   {writes: []int{0}, alias: []int{0}, fresh: true},
	"slices.Replace":                  {writes: []int{0}, alias: []int{0}, fresh: true},
	"slices.Grow":                     {alias: []int{0}, fresh: true},
	"slices.Clip":                     {alias: []int{0}},
	"slices.Clone":                    {fresh: true},
	"slices.Concat":                   {fresh: true},
	"slices.Repeat":                   {fresh: true},
	"slices.Equal":                    {pure: true},
	"slices.EqualFunc":                {pure: true},
	"slices.Compare":                  {pure: true},
	"slices.Contains":                 {pure: true},
	"slices.ContainsFunc":             {pure: true},
	"slices.Index":                    {pure: true},
	"slices.IndexFunc":                {pure: true},
	"slices.Max":                      {pure: true},
	"slices.Min":                      {pure: true},
	"slices.BinarySearch":             {pure: true},
	"slices.BinarySearchFunc":         {pure: true},
	"slices.IsSorted":                 {pure: true},
	"slices.IsSortedFunc":             {pure: true},
	"maps.Copy":                       {writes: []int{0}, moves: [][2]int{{1, 0}}},
	"maps.Clone":                      {fresh: true},
	"maps.DeleteFunc":                 {writes: []int{0}},
	"maps.Equal":                      {pure: true},
	"sort.Slice":                      {writes: []int{0}},
	"sort.SliceStable":                {writes: []int{0}},
	"sort.Strings":                    {writes: []int{0}},
	"sort.Ints":                       {writes: []int{0}},
	"sort.Sort":                       {writes: []int{0}},
	"encoding/json.Unmarshal":         {writes: []int{1}},
	"(*encoding/json.Decoder).Decode": {writes: []int{1}},
	"(encoding/binary.littleEndian).PutUint64": {writes: []int{1}},
	"(encoding/binary.littleEndian).PutUint32": {writes: []int{1}},
	"(encoding/binary.littleEndian).PutUint16": {writes: []int{1}},
	"(encoding/binary.bigEndian).PutUint64":    {writes: []int{1}},
	"(encoding/binary.bigEndian).PutUint32":    {writes: []int{1}},
	"(encoding/binary.bigEndian).PutUint16":    {writes: []int{1}},
	"unicode/utf8.EncodeRune":                  {writes: []int{0}},
	"unicode/utf8.AppendRune":                  {writes: []int{0}, alias: []int{0}, fresh: true},
	"strconv.AppendInt":                        {writes: []int{0}, alias: []int{0}, fresh: true},
	"strconv.AppendUint":                       {writes: []int{0}, alias: []int{0}, fresh: true},
	"strconv.AppendFloat":                      {writes: []int{0}, alias: []int{0}, fresh: true},
	"strconv.AppendQuote":                      {writes: []int{0}, alias: []int{0}, fresh: true},
	"fmt.Append":                               {writes: []int{0}, alias: []int{0}, fresh: true},
	"fmt.Appendf":                              {writes: []int{0}, alias: []int{0}, fresh: true},
	"unicode/utf16.AppendRune":                 {writes: []int{0}, alias: []int{0}, fresh: true},
	"bytes.Clone":                              {fresh: true},
}

// packages whose functions write to no memory they are given, apart from those above, but may return parts of their arguments
var readOnlyPackages = map[string]bool{
	"bytes": true, "strings": true, "strconv": true, "errors": true, "fmt": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "math": true, "math/bits": true, "cmp": true, "encoding/json": true, "encoding/binary": true, "sync": true, "sync/atomic": true,
	"time": true, "unsafe": true, "slices": true, "maps": true, "sort": true, "iter": true, "regexp": true, "io": true, "hash/fnv": true, "hash/maphash": true,
}

func fnPkgPath(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

func (a *pta) external(i *inst, c ssa.CallInstruction, f *ssa.Function) {
	m := a.extCalls[i]
	if m == nil {
		m = map[ssa.CallInstruction]bool{}
		a.extCalls[i] = m
	}
	m[c] = true
	cc := c.Common()
	args := cc.Args
	v := c.Value()
	name := calleeName(f)
	if fnPkgPath(f) == "sync/atomic" && f.Signature.Recv() != nil {
		if t, ok := isAtomicPointer(deref(f.Signature.Recv().Type())); ok {
			switch f.Name() {
			case "Load", "Swap":
				if v != nil {
					a.on(a.val(i, args[0], ""), func(l loc) {
						if a.isFresh(l.o) {
							a.copyEdge(a.cell(loc{l.o, l.path + "{atomic}"}), a.val(i, v, ""))
						} else {
							a.add(a.val(i, v, ""), loc{a.oldObj(t), ""})
						}
					})
				}
			}
			if f.Name() != "Load" {
				val := args[len(args)-1]
				a.on(a.val(i, args[0], ""), func(l loc) {
					a.copyEdge(a.val(i, val, ""), a.cell(loc{l.o, l.path + "{atomic}"}))
				})
			}
			return
		}
		return
	}
	// function arguments are called with parts of the other arguments
	for _, arg := range args {
		if _, ok := arg.Type().Underlying().(*types.Signature); ok {
			a.on(a.val(i, arg, ""), func(l loc) {
				t := a.callClosure(i, c, l, nil, false)
				if t == nil {
					return
				}
				for _, p := range t.fn.Params {
					for _, other := range args {
						a.feed(i, other, t, p)
					}
				}
			})
		}
	}
	// interfaces with methods of ours may be called; those are String and Error methods, sorters and the like
	if v == nil {
		return
	}
	md, known := extModels[name]
	results := []types.Type{v.Type()}
	pre := []string{""}
	if tt, ok := v.Type().(*types.Tuple); ok {
		results, pre = nil, nil
		for k := 0; k < tt.Len(); k++ {
			results = append(results, tt.At(k).Type())
			pre = append(pre, fmt.Sprintf("#%d", k))
		}
	}
	for k, rt := range results {
		if len(a.leaves(rt)) == 0 {
			continue
		}
		if types.Identical(rt, types.Universe.Lookup("error").Type()) {
			continue
		}
		dst := func(lf string) *node { return a.val(i, v, pre[k]+lf) }
		if _, isIf := rt.Underlying().(*types.Interface); isIf {
			continue // values from outside the package
		}
		if !known || md.fresh {
			o := a.alloc(i, c.(ssa.Instruction), pre[k], kExt, rt)
			o.name = name
			path := ""
			if _, ok := rt.Underlying().(*types.Slice); ok {
				path = "[]"
			}
			a.add(dst(""), loc{o, path})
			// elements come from the arguments
			if path == "[]" || isMap(rt) {
				sub := []string{"[]"}
				if isMap(rt) {
					sub = []string{"{k}", "{v}"}
				}
				for _, arg := range args {
					a.elementsInto(i, arg, rt, o, sub)
				}
			}
		}
		al := md.alias
		if !known {
			for k := range args {
				al = append(al, k)
			}
		}
		for _, k := range al {
			if k < len(args) && len(a.leaves(args[k].Type())) == 1 && types.Identical(args[k].Type().Underlying(), rt.Underlying()) {
				a.copyEdge(a.val(i, args[k], ""), dst(""))
			}
		}
	}
	for _, mv := range md.moves {
		if isMap(args[mv[0]].Type()) {
			mt := args[mv[0]].Type().Underlying().(*types.Map)
			for sub, t := range map[string]types.Type{"{k}": mt.Key(), "{v}": mt.Elem()} {
				a.moveVia(i, args[mv[0]], args[mv[1]], sub, a.leaves(t))
			}
		}
	}
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func (a *pta) moveVia(i *inst, from, to ssa.Value, sub string, ls []string) {
	for _, lf := range ls {
		tmp := a.newNode()
		a.on(a.val(i, from, ""), func(l loc) { a.copyEdge(a.cell(loc{l.o, l.path + sub + lf}), tmp) })
		a.on(a.val(i, to, ""), func(l loc) { a.copyEdge(tmp, a.storeCell(loc{l.o, l.path + sub + lf})) })
	}
}

// elementsInto makes the elements of arg (or of the slices it holds, for a variadic parameter) elements of o
func (a *pta) elementsInto(i *inst, arg ssa.Value, rt types.Type, o *obj, sub []string) {
	if len(a.leaves(arg.Type())) != 1 {
		return
	}
	same := func(t types.Type) bool { return types.Identical(t.Underlying(), rt.Underlying()) }
	if same(arg.Type()) {
		a.on(a.val(i, arg, ""), func(l loc) {
			for _, s := range sub {
				et := typeAt(rt, s)
				base := l.path + s
				if s == "[]" {
					base = l.path
				}
				for _, lf := range a.leaves(et) {
					a.copyEdge(a.cell(loc{l.o, base + lf}), a.cell(loc{o, s + lf}))
				}
			}
		})
		return
	}
	if sl, ok := arg.Type().Underlying().(*types.Slice); ok && same(sl.Elem()) {
		a.on(a.val(i, arg, ""), func(l loc) {
			a.on(a.cell(loc{l.o, l.path}), func(l2 loc) {
				for _, lf := range a.leaves(typeAt(rt, "[]")) {
					a.copyEdge(a.cell(loc{l2.o, l2.path + lf}), a.cell(loc{o, "[]" + lf}))
				}
			})
		})
		return
	}
	if sl, ok := arg.Type().Underlying().(*types.Slice); ok && isElemOf(sl.Elem(), rt) {
		_ = sl
	} else if sl2, ok := rt.Underlying().(*types.Slice); ok && types.Identical(arg.Type(), sl2.Elem()) {
		for _, lf := range a.leaves(arg.Type()) {
			a.copyEdge(a.val(i, arg, lf), a.cell(loc{o, "[]" + lf}))
		}
	}
}

func isElemOf(e, s types.Type) bool {
	sl, ok := s.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), e)
}

// feed lets a parameter of a callback receive what the other arguments of the external function hold
func (a *pta) feed(i *inst, other ssa.Value, t *inst, p *ssa.Parameter) {
	ls := a.leaves(p.Type())
	if len(ls) == 0 {
		return
	}
	if types.Identical(other.Type(), p.Type()) {
		for _, lf := range ls {
			a.copyEdge(a.val(i, other, lf), a.val(t, p, lf))
		}
	}
	switch u := other.Type().Underlying().(type) {
	case *types.Slice:
		if types.Identical(u.Elem(), p.Type()) {
			a.on(a.val(i, other, ""), func(l loc) {
				for _, lf := range ls {
					a.copyEdge(a.cell(loc{l.o, l.path + lf}), a.val(t, p, lf))
				}
			})
		}
	case *types.Map:
		for sub, et := range map[string]types.Type{"{k}": u.Key(), "{v}": u.Elem()} {
			if types.Identical(et, p.Type()) {
				a.on(a.val(i, other, ""), func(l loc) {
					for _, lf := range ls {
						a.copyEdge(a.cell(loc{l.o, l.path + sub + lf}), a.val(t, p, lf))
					}
				})
			}
		}
	}
}

// ---- results ----

func (a *pta) pts(i *inst, v ssa.Value, path string) []loc {
	if c, ok := v.(*ssa.Const); ok && c != nil {
		return nil
	}
	n := a.nodes[nodeKey{i, v, path}]
	if n == nil {
		switch v.(type) {
		case *ssa.Global, *ssa.Function:
			n = a.val(i, v, path)
		default:
			return nil
		}
	}
	return n.locs()
}

func (n *node) locs() []loc {
	var out []loc
	for l := range n.pts {
		out = append(out, l)
	}
	sortLocs(out)
	return out
}

type access struct {
	i     *inst
	in    ssa.Instruction
	l     loc
	what  string
	write bool
}

// isClipped: appending to v can't write to the memory behind it
func isClipped(v ssa.Value) bool { return isClipped1(v, map[ssa.Value]bool{}) }

func isClipped1(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Max != nil {
			if v.High != nil && sameValue(v.High, v.Max) {
				return true
			}
			if isConstInt(v.Max, 0) {
				return true
			}
		}
	case *ssa.Const:
		return v.IsNil()
	case *ssa.ChangeType:
		return isClipped1(v.X, seen)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && calleeName(f) == "slices.Clip" {
			return true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isClipped1(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// sameValue: two SSA values are the same computation (len of the same slice, the same constant)
func sameValue(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	switch x := x.(type) {
	case *ssa.Const:
		y, ok := y.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.Call:
		y, ok := y.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		if ok1 && ok2 && bx.Name() == by.Name() && bx.Name() == "len" {
			return sameAddrOrValue(x.Call.Args[0], y.Call.Args[0])
		}
	}
	return false
}

func sameAddrOrValue(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	xu, ok1 := x.(*ssa.UnOp)
	yu, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && xu.Op == token.MUL && yu.Op == token.MUL && xu.Block() == yu.Block() {
		xf, ok1 := xu.X.(*ssa.FieldAddr)
		yf, ok2 := yu.X.(*ssa.FieldAddr)
		return ok1 && ok2 && xf.X == yf.X && xf.Field == yf.Field
	}
	return false
}

func isConstInt(v ssa.Value, k int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && c.Int64() == k
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// accesses lists the reads and writes of memory by one instruction of an instance
func (a *pta) accesses(i *inst, in ssa.Instruction) []access {
	var out []access
	ac := func(v ssa.Value, sub, what string, w bool) {
		for _, l := range a.pts(i, v, "") {
			out = append(out, access{i, in, loc{l.o, l.path + sub}, what, w})
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		ac(in.Addr, "", "assignment", true)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ac(in.X, "", "read", false)
		}
	case *ssa.MapUpdate:
		ac(in.Map, "{v}", "map update", true)
	case *ssa.Lookup:
		if isMap(in.X.Type()) {
			ac(in.X, "{v}", "map lookup", false)
		}
	case *ssa.Next:
		if !in.IsString {
			ac(in.Iter.(*ssa.Range).X, "{v}", "map iteration", false)
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if len(cc.Args) > 1 {
					if !isClipped(cc.Args[0]) && !isNilConst(cc.Args[1]) {
						ac(cc.Args[0], "", "append in place", true)
					}
					if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
						ac(cc.Args[1], "", "read", false)
					}
					ac(cc.Args[0], "", "read", false)
				}
			case "copy":
				ac(cc.Args[0], "", "copy", true)
				if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
					ac(cc.Args[1], "", "read", false)
				}
			case "delete":
				ac(cc.Args[0], "{v}", "delete", true)
			case "clear":
				if isMap(cc.Args[0].Type()) {
					ac(cc.Args[0], "{v}", "clear", true)
				} else {
					ac(cc.Args[0], "", "clear", true)
				}
			}
			return out
		}
		if cc.IsInvoke() {
			return out
		}
		f := cc.StaticCallee()
		if f == nil || a.p.isOurs(f) {
			return out
		}
		name := calleeName(f)
		if fnPkgPath(f) == "sync/atomic" {
			switch f.Name() {
			case "Store", "Swap", "CompareAndSwap", "Add", "And", "Or":
				ac(cc.Args[0], "", "atomic store", true)
			default:
				ac(cc.Args[0], "", "atomic load", false)
			}
			return out
		}
		if fnPkgPath(f) == "sync" {
			return out
		}
		md, known := extModels[name]
		if known {
			for _, k := range md.writes {
				arg := cc.Args[k]
				if mi, ok := arg.(*ssa.MakeInterface); ok {
					arg = mi.X
				}
				sub := ""
				if isMap(arg.Type()) {
					sub = "{v}"
				}
				ac(arg, sub, "written by "+name, true)
			}
			return out
		}
		if !readOnlyPackages[fnPkgPath(f)] {
			for _, arg := range cc.Args {
				ac(arg, "", "passed to "+name+", which isn't known not to write it", true)
			}
		}
	}
	return out
}
