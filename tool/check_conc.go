package main

// C01 to C06, C10, C11: properties of what is read and written where, decided on the points-to analysis

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C01"] = checkC01
	checkers["C02"] = checkC02
	checkers["C03"] = checkC03
	checkers["C04"] = checkC04
	checkers["C05"] = checkC05
	checkers["C06"] = checkC06
	checkers["C07"] = checkC07
	checkers["C10"] = checkC10
	checkers["C11"] = checkC11
}

var updateNames = map[string]bool{"AddPattern": true, "DeletePatterns": true, "SetMatcherBuildMode": true, "SetMemoryBudget": true}

// entry points: the exported methods of Quamina, the exported functions, and the methods of the matchers that nothing in
// the package calls
func (p *Prog) apiRoots() (match, update, other []string) {
	ms := p.prog.MethodSets.MethodSet(types.NewPointer(p.namedType("Quamina")))
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if !token.IsExported(n) {
			continue
		}
		switch {
		case updateNames[n]:
			update = append(update, "Quamina."+n)
		case n == "Copy":
			other = append(other, "Quamina."+n)
		default:
			match = append(match, "Quamina."+n)
		}
	}
	sc := p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		res := sig.Results()
		if res.Len() == 0 {
			continue
		}
		rn := ""
		switch t := res.At(0).Type().(type) {
		case *types.Pointer:
			rn = namedName(t.Elem())
		default:
			rn = namedName(t)
		}
		if rn == "Quamina" || rn == "Option" {
			other = append(other, n)
		}
	}
	sort.Strings(match)
	sort.Strings(update)
	return
}

// looseMethods: methods of the bookkeeping types that no function of the package calls
func (p *Prog) looseMethods() []string {
	called := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for _, f := range p.funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						called[g] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
			}
		}
	}
	var out []string
	for _, tn := range []string{"coreMatcher", "prunerMatcher", "memState"} {
		t := p.namedType(tn)
		if t == nil {
			continue
		}
		ms := p.prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			f := p.prog.MethodValue(ms.At(i))
			if f == nil || f.Synthetic != "" || called[f] {
				continue
			}
			out = append(out, tn+"."+f.Name())
		}
	}
	sort.Strings(out)
	return out
}

// memoGuarded: the write fills in an epsilon closure which is still nil, or stores the shared self-only one
func memoGuarded(i *inst, in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || fieldNameOf(fa) != "epsilonClosure" {
		return false
	}
	if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Name() == "selfOnlyClosure" {
			return true
		}
	}
	return nilGuarded(i, in, fa.X, "epsilonClosure")
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

// nilGuarded: on every path to in (through the callers too), base's field has been found to be nil
func nilGuarded(i *inst, in ssa.Instruction, base ssa.Value, field string) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		x := bo.X
		if !isNilConst(bo.Y) {
			if !isNilConst(x) {
				continue
			}
			x = bo.Y
		}
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != base || fieldNameOf(fa) != field {
			continue
		}
		nilSide := d.Succs[0]
		if bo.Op == token.NEQ {
			nilSide = d.Succs[1]
		}
		if len(nilSide.Preds) == 1 && nilSide.Dominates(in.Block()) {
			return true
		}
	}
	if pr, ok := base.(*ssa.Parameter); ok && i.parent != nil && i.site != nil {
		args := i.site.Common().Args
		for k, q := range i.fn.Params {
			if q == pr && k < len(args) && !i.site.Common().IsInvoke() {
				return nilGuarded(i.parent, i.site.(ssa.Instruction), args[k], field)
			}
		}
	}
	return false
}

func (m *memAnalysis) reportProblems(r *Report) {
	for what, where := range m.problems {
		r.fail("unmodelled", what, where, "the analysis doesn't model this construct")
	}
}

func accessConstruct(m *memAnalysis, ac access) string {
	return m.p.fname(ac.i.fn) + " / " + ac.what + " of " + m.ownerOf(ac.l.o, ac.l.path)
}

func wHeld(st *lockState, m *memAnalysis) bool {
	if st == nil {
		return false
	}
	for l, h := range st.must {
		if h.mode == modeW && !m.isFresh(l.o) {
			return true
		}
	}
	return false
}

var lockCache = map[*memAnalysis]*lockAnalysis{}

func locksOf(m *memAnalysis) *lockAnalysis {
	la := lockCache[m]
	if la == nil {
		la = analyseLocks(m)
		lockCache[m] = la
	}
	return la
}

func isSyncPath(m *memAnalysis, l loc) bool {
	t := typeAt(l.o.typ, l.path)
	return t != nil && isSyncType(t)
}

func checkC01(p *Prog, r *Report) {
	r.rule = "no instruction reachable from the matching entry points writes memory that is shared between copies, except matcher bookkeeping under an exclusively held lock"
	r.explain = "Points-to analysis (context per call chain, field-sensitive) of package initialisation and of the entry points that match; each write instruction in each calling context is an obligation: the memory it can write must be new in this call, working state of the instance, or bookkeeping written with the lock held (from a lock-state dataflow analysis). Atomic stores into matcher data that existed before the call are violations too."
	r.notCovered = "Flattener implementations from outside the package; writes through unsafe or reflection (there are none)."
	r.assume = []string{"user-supplied Flattener and LivePatternsState implementations keep to their documentation", "an epsilon closure that is still nil is filled in only (carve-out of the statement)"}
	match, _, _ := p.apiRoots()
	m := analyse(p, match...)
	la := locksOf(m)
	m.reportProblems(r)
	c := p.classifier(m.pta)
	writes, nonPriv := 0, 0
	m.each(func(i *inst, in ssa.Instruction) {
		for _, ac := range m.accesses(i, in) {
			if !ac.write {
				continue
			}
			writes++
			k := accessConstruct(m, ac)
			wh := m.where(i, in)
			switch c.class(m.pta, ac.l) {
			case clImmutable:
				nonPriv++
				ok := false
				r.check(ok, "published-write", k, wh, iff(ok, "", "a match writes "+ac.l.String()+", which copies share, via "+i.chain()))
			case clShared:
				nonPriv++
				if strings.HasPrefix(ac.what, "atomic") {
					r.fail("publish-while-matching", k, wh, "a match publishes a change to "+ac.l.String()+" via "+i.chain())
					continue
				}
				st := la.stateAt(i, in)
				ok := wHeld(st, m)
				r.check(ok, "bookkeeping-lock", k, wh, iff(ok, "written while a lock is held exclusively", "a match writes "+ac.l.String()+" while it holds no lock exclusively, via "+i.chain()))
			case clGlobal:
				nonPriv++
				ok := memoGuarded(i, in) || wHeld(la.stateAt(i, in), m)
				r.check(ok, "global-write", k, wh, iff(ok, "written under a lock, or a nil closure filled in", "a match writes package-level data "+ac.l.String()+" via "+i.chain()))
			case clEvent, clFresh, clPrivate:
				r.counts["other-write"]++
			}
		}
	})
	r.facts["entry points"] = match
	r.facts["calling contexts"] = len(m.instList)
	r.facts["functions reached"] = countFns(m)
	r.floor("writes examined", writes, 150)
	r.floor("functions reached", countFns(m), 60)
	r.pass("scope", "all writes", "-", fmt.Sprintf("%d writes in %d contexts, %d to memory that isn't the call's or the instance's own", writes, len(m.instList), nonPriv))
}

func countFns(m *memAnalysis) int {
	s := map[*ssa.Function]bool{}
	for _, i := range m.instList {
		if !i.root.init {
			s[i.fn] = true
		}
	}
	return len(s)
}

func iff(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func atomicPointerOp(in ssa.Instruction) (ssa.CallInstruction, string) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, ""
	}
	f := c.Common().StaticCallee()
	if f == nil || fnPkgPath(f) != "sync/atomic" || f.Signature.Recv() == nil {
		return nil, ""
	}
	if _, ok := isAtomicPointer(deref(f.Signature.Recv().Type())); !ok {
		return nil, ""
	}
	return c, f.Name()
}

// reach gives the objects that can be reached from a set of locs, through atomic pointers too if through
func (a *pta) reach(start []loc, through bool) map[*obj]bool {
	byObj := a.cellsByObj()
	seen := map[*obj]bool{}
	work := []*obj{}
	push := func(o *obj) {
		if !seen[o] {
			seen[o] = true
			work = append(work, o)
		}
	}
	for _, l := range start {
		push(l.o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, l := range byObj[o] {
			if !through && strings.HasSuffix(l.path, "{atomic}") {
				continue
			}
			for x := range a.cells[l].pts {
				push(x.o)
			}
		}
	}
	return seen
}

var byObjCache = map[*pta]map[*obj][]loc{}

func (a *pta) cellsByObj() map[*obj][]loc {
	if m := byObjCache[a]; m != nil {
		return m
	}
	m := map[*obj][]loc{}
	for l := range a.cells {
		m[l.o] = append(m[l.o], l)
	}
	byObjCache[a] = m
	return m
}

func checkC02(p *Prog, r *Report) {
	r.rule = "update entry points never write published matcher data; what is published isn't written afterwards and shares no memory with scratch space that is written again"
	r.explain = "Points-to analysis of the entry points that change patterns. published-write: every write in every calling context is checked not to hit memory of the types that are reachable from an atomic pointer and existed before the call. write-after-publish: a forward dataflow over all calling contexts carries the set of newly allocated objects that an atomic store has made visible; a write to one of them is a violation (an object leaves the set where its allocation site is executed again). scratch-alias: no memory is owned both by published data and by bookkeeping that is written."
	r.notCovered = "whether the published version is the right one (C26, N02)"
	r.assume = []string{"an epsilon closure that is still nil may be filled in: states without a closure are never traversed through it"}
	_, update, _ := p.apiRoots()
	m := analyse(p, update...)
	m.reportProblems(r)
	c := p.classifier(m.pta)
	writes := 0
	type wr struct {
		ac access
	}
	writesTo := map[*obj][]access{}
	m.each(func(i *inst, in ssa.Instruction) {
		for _, ac := range m.accesses(i, in) {
			if !ac.write {
				continue
			}
			writes++
			if strings.HasPrefix(ac.what, "atomic") {
				continue
			}
			if !memoGuarded(i, in) {
				writesTo[ac.l.o] = append(writesTo[ac.l.o], ac)
			}
			if c.class(m.pta, ac.l) == clImmutable {
				ok := memoGuarded(i, in)
				r.check(ok, "published-write", accessConstruct(m, ac), m.where(i, in), iff(ok, "fills in a closure", "writes "+ac.l.String()+", which matches in progress may be reading, via "+i.chain()))
			} else {
				r.counts["write-elsewhere"]++
			}
		}
	})
	r.floor("writes examined", writes, 400)

	// write after publish
	g := newSuperGraph(m)
	type pub struct {
		i  *inst
		in ssa.Instruction
		o  map[*obj]bool
	}
	var pubs []pub
	interesting := map[*obj]bool{}
	stores := map[string]bool{}
	m.each(func(i *inst, in ssa.Instruction) {
		cl, name := atomicPointerOp(in)
		if cl == nil || name == "Load" {
			return
		}
		// only stores to places that can be visible already, or that get visible together with their owner
		args := cl.Common().Args
		ls := m.pts(i, args[len(args)-1], "")
		os := map[*obj]bool{}
		for o := range m.reach(ls, false) {
			if m.isFresh(o) && len(writesTo[o]) > 0 {
				os[o] = true
				interesting[o] = true
			}
		}
		// is the destination visible?
		old := false
		for _, l := range m.pts(i, args[0], "") {
			if !m.isFresh(l.o) {
				old = true
			}
		}
		stores[p.fname(i.fn)] = true
		if old {
			pubs = append(pubs, pub{i, in, os})
			r.check(true, "publish", p.fname(i.fn)+" / "+name, m.where(i, in), "publication through an atomic pointer")
		}
	})
	r.floor("functions that publish", len(stores), 3)
	r.facts["publications (contexts)"] = len(pubs)
	// one walk per publication, over what can be executed after it
	allocAt := map[*inst]map[ssa.Instruction][]*obj{}
	for o := range interesting {
		if o.inst == nil {
			continue
		}
		if allocAt[o.inst] == nil {
			allocAt[o.inst] = map[ssa.Instruction][]*obj{}
		}
		allocAt[o.inst][o.site] = append(allocAt[o.inst][o.site], o)
	}
	bad := publishedWrites(m, g, func() (out []flowGen) {
		for _, pb := range pubs {
			out = append(out, flowGen{pb.i, pb.in, pb.o})
		}
		return
	}(), allocAt, writesTo)
	for _, b := range bad {
		r.fail("write-after-publish", accessConstruct(m, b), m.where(b.i, b.in), "writes "+b.l.String()+" which may have been published before, via "+b.i.chain())
	}
	r.pass("write-after-publish", "all publications", "-", fmt.Sprintf("%d publications in context, %d objects tracked", len(pubs), len(interesting)))

	// aliasing with scratch space
	mutable := func(own string) bool { o := ownerType(own); return !c.imm[o] && o != "" }
	immCell := func(l loc) bool {
		if strings.HasSuffix(l.path, "{atomic}") {
			return false
		}
		return c.imm[ownerType(m.ownerOf(l.o, l.path))]
	}
	wElems := map[loc]bool{}
	for _, as := range writesTo {
		for _, ac := range as {
			wElems[ac.l] = true
		}
	}
	writtenUnder := func(l loc) bool {
		for w := range wElems {
			if w.o == l.o && strings.HasPrefix(w.path, l.path) {
				return true
			}
		}
		return false
	}
	n := 0
	inImm := map[loc]loc{}
	for cl, nd := range m.cells {
		if !immCell(cl) || cl.o.inst != nil && cl.o.inst.root.init {
			continue
		}
		for x := range nd.pts {
			n++
			inImm[x] = cl
			if x.o.kind == kOldMem && mutable(x.o.owner) && !strings.HasPrefix(x.o.owner, "global ") && writtenUnder(x) {
				r.fail("scratch-alias", m.ownerOf(cl.o, cl.path)+" holds "+x.String(), "-", "published data would share memory that is written again")
			}
		}
	}
	for e := range m.escapes {
		if immCell(e.cell) {
			inImm[e.what] = e.cell
		}
	}
	for e := range m.escapes {
		own := m.ownerOf(e.cell.o, e.cell.path)
		if immCell(e.cell) || !mutable(own) || strings.HasSuffix(e.cell.path, "{atomic}") {
			continue
		}
		n++
		if cl, ok := inImm[e.what]; ok && isSliceOrMapAt(e.cell) {
			mem := loc{m.memOfCell(e.cell), ""}
			if mem.o != nil && writtenUnder(mem) {
				r.fail("scratch-alias", m.ownerOf(cl.o, cl.path)+" and "+own, "-", "published data would share "+e.what.String()+" with scratch space that is written again")
			}
		}
	}
	r.pass("scratch-alias", "all references from published data", "-", fmt.Sprintf("%d references examined", n))
	r.facts["entry points"] = update
	r.facts["calling contexts"] = len(m.instList)
	r.facts["functions reached"] = countFns(m)
}

func isSliceOrMapAt(l loc) bool {
	t := typeAt(l.o.typ, l.path)
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// memOfCell: the old memory object that a cell of slice or map type owns
func (a *pta) memOfCell(l loc) *obj {
	return a.objs["M:"+a.ownerOf(l.o, l.path)]
}

type flowGen struct {
	i  *inst
	in ssa.Instruction
	o  map[*obj]bool
}

// publishedWrites runs the forward dataflow: gen at publications, kill at allocations, report writes to objects in the set
func publishedWrites(m *memAnalysis, g *superGraph, gens []flowGen, allocAt map[*inst]map[ssa.Instruction][]*obj, writesTo map[*obj][]access) []access {
	genAt := map[*inst]map[ssa.Instruction]map[*obj]bool{}
	for _, x := range gens {
		if genAt[x.i] == nil {
			genAt[x.i] = map[ssa.Instruction]map[*obj]bool{}
		}
		genAt[x.i][x.in] = x.o
	}
	// number the objects
	num := map[*obj]int{}
	var objs []*obj
	for _, x := range gens {
		for o := range x.o {
			if _, ok := num[o]; !ok {
				num[o] = len(objs)
				objs = append(objs, o)
			}
		}
	}
	words := (len(objs) + 63) / 64
	writeAt := map[*inst]map[ssa.Instruction][]access{}
	for o, as := range writesTo {
		if _, ok := num[o]; !ok {
			continue
		}
		for _, ac := range as {
			if writeAt[ac.i] == nil {
				writeAt[ac.i] = map[ssa.Instruction][]access{}
			}
			writeAt[ac.i][ac.in] = append(writeAt[ac.i][ac.in], ac)
		}
	}
	type key struct {
		i *inst
		b *ssa.BasicBlock
		k int
	}
	kill := map[*inst][]uint64{}
	for i, sites := range allocAt {
		for _, os := range sites {
			for _, o := range os {
				x, ok := num[o]
				if !ok {
					continue
				}
				for j := i; j != nil; j = j.parent {
					if kill[j] == nil {
						kill[j] = make([]uint64, words)
					}
					kill[j][x/64] |= 1 << (x % 64)
				}
			}
		}
	}
	state := map[key][]uint64{}
	var work []key
	push := func(k key, s []uint64) {
		old := state[k]
		ch := false
		if old == nil {
			old = make([]uint64, words)
			state[k] = old
			ch = true
		}
		for w := range s {
			if s[w]&^old[w] != 0 {
				old[w] |= s[w]
				ch = true
			}
		}
		if ch {
			work = append(work, k)
		}
	}
	for _, rt := range m.roots {
		push(key{rt, rt.fn.Blocks[0], 0}, make([]uint64, words))
	}
	bad := map[string]access{}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		s := append([]uint64(nil), state[k]...)
		stopped := false
		if k.k == 0 && k.b == k.i.fn.Blocks[0] {
			// a new activation: what it and its callees allocate from here on is new. (What an earlier activation published
			// and this one finds in the matcher is among the published-write obligations.)
			if km := kill[k.i]; km != nil {
				for w := range s {
					s[w] &^= km[w]
				}
			}
		}
		for n := k.k; n < len(k.b.Instrs); n++ {
			in := k.b.Instrs[n]
			for _, ac := range writeAt[k.i][in] {
				if x := num[ac.l.o]; s[x/64]&(1<<(x%64)) != 0 {
					bad[fmt.Sprintf("%p%s", in, ac.l)] = ac
				}
			}
			for _, o := range allocAt[k.i][in] {
				if x, ok := num[o]; ok {
					s[x/64] &^= 1 << (x % 64)
				}
			}
			for o := range genAt[k.i][in] {
				x := num[o]
				s[x/64] |= 1 << (x % 64)
			}
			cs := g.calleesAt(k.i, in)
			for _, t := range cs {
				push(key{t, t.fn.Blocks[0], 0}, s)
			}
			if len(cs) > 0 {
				c, isCall := in.(ssa.CallInstruction)
				if isCall && !m.extCalls[k.i][c] {
					stopped = true
					break
				}
			}
			if _, ok := in.(*ssa.Return); ok {
				for _, c := range g.callers[k.i] {
					push(key{c.i, c.b, c.k}, s)
				}
			}
		}
		if stopped {
			continue
		}
		for _, sc := range k.b.Succs {
			if k.i.dead[sc] {
				continue
			}
			push(key{k.i, sc, 0}, s)
		}
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []access
	for _, k := range ks {
		out = append(out, bad[k])
	}
	return out
}

// ---- C03 ----

func checkC03(p *Prog, r *Report) {
	r.rule = "in each call that changes patterns, every atomic load of and store to shared matcher data, and every access to the bookkeeping it is based on, happens in one critical section of the matcher's exclusive lock"
	r.explain = "Lock-state analysis (which lock is held, in which mode, since which acquisition) of each update entry point in each calling context. publish-locked: an atomic store to shared data holds a matcher lock exclusively. load-locked: so does each atomic load of shared data in an update. one-section: within a call no lock is taken exclusively again, or upgraded from a read lock, after it has been released, if shared data is read under the first and written under the second. rebuild-section: the live patterns are iterated over in the critical section in which the rebuilt matcher is installed."
	_, update, _ := p.apiRoots()
	match, _, _ := p.apiRoots()
	roots := append(append([]string{}, update...), "Quamina.MatchesForEvent")
	loads, stores := 0, 0
	for _, root := range roots {
		m := analyse(p, root)
		m.reportProblems(r)
		la := locksOf(m)
		isUpdate := root != "Quamina.MatchesForEvent"
		// locks held by accesses; sections
		type sec struct {
			in ssa.Instruction
			i  *inst
		}
		type use struct {
			read, write bool
			mode        int
			where, what string
		}
		sections := map[loc]map[sec]*use{}
		m.each(func(i *inst, in ssa.Instruction) {
			st := la.stateAt(i, in)
			if st == nil {
				return
			}
			var cl ssa.CallInstruction
			var name string
			if cl, name = atomicPointerOp(in); cl != nil {
				old := false
				for _, l := range m.pts(i, cl.Common().Args[0], "") {
					if !m.isFresh(l.o) {
						old = true
					}
				}
				if old && isUpdate {
					ok := heldUnique(st, m)
					k := p.fname(i.fn) + " / " + name + " called from " + callerName(p, i)
					if name == "Load" {
						loads++
						r.check(ok, "load-locked", k, m.where(i, in), iff(ok, "holds "+st.names(m.pta, modeW), "shared data is read for an update without the matcher's lock: "+i.chain()))
					} else {
						stores++
						r.check(ok, "publish-locked", k, m.where(i, in), iff(ok, "holds "+st.names(m.pta, modeW), "a change is published without holding the matcher's lock: "+i.chain()))
					}
				}
			}
			record := func(write bool, what string) {
				for l, h := range st.must {
					if m.isFresh(l.o) || h.acq == nil {
						continue
					}
					if sections[l] == nil {
						sections[l] = map[sec]*use{}
					}
					u := sections[l][sec{h.acq, h.inst}]
					if u == nil {
						u = &use{mode: h.mode, where: m.where(h.inst, h.acq), what: what}
						sections[l][sec{h.acq, h.inst}] = u
					}
					if write {
						u.write = true
					} else {
						u.read = true
					}
				}
			}
			c := p.classifier2(m)
			for _, ac := range m.accesses(i, in) {
				if cls := c.class(m.pta, ac.l); cls == clShared || cls == clImmutable {
					if !isSyncPath(m, ac.l) {
						record(ac.write, m.ownerOf(ac.l.o, ac.l.path))
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && namedName(c.Common().Value.Type()) == "LivePatternsState" {
				switch c.Common().Method.Name() {
				case "Add", "Delete", "SetMatcherBuildMode":
					record(true, "live patterns")
				default:
					record(false, "live patterns")
				}
			}
		})
		g := newSuperGraph(m)
		for l, ss := range sections {
			lc := lockClass(l, m.pta)
			for a, ua := range ss {
				for b, ub := range ss {
					if a == b || !ua.read || !ub.write {
						continue
					}
					if !isUpdate {
						continue
					}
					if sharedSection(la, m, a.i, a.in, b.i, b.in) {
						continue // both are part of a section of another lock
					}
					if g.reaches(g.after(a.i, a.in), b.i, b.in, nil) {
						r.fail("one-section", root+" / "+lc+" in "+p.fname(a.i.fn)+" and "+p.fname(b.i.fn), ub.where, "the lock is released after "+ua.where+" and taken again before "+ub.what+" is changed: another call can come in between")
					}
				}
			}
			r.check(true, "one-section", root+" / "+lc, "-", fmt.Sprintf("%d acquisitions under which shared data is used", len(ss)))
		}
		checkRebuildSection(p, r, m, la, root)
	}
	_ = match
	r.floor("atomic loads in updates (contexts)", loads, 5)
	r.floor("atomic stores in updates (contexts)", stores, 5)
	r.facts["entry points"] = roots
}

func sharedSection(la *lockAnalysis, m *memAnalysis, i *inst, x ssa.Instruction, j *inst, y ssa.Instruction) bool {
	s, t := la.stateAt(i, x), la.stateAt(j, y)
	if s == nil || t == nil {
		return false
	}
	for l, h := range s.must {
		if h.mode == modeW && h.acq != nil && !m.isFresh(l.o) && t.must[l] == h {
			return true
		}
	}
	return false
}

var clsCache = map[*memAnalysis]*classifier{}

func (p *Prog) classifier2(m *memAnalysis) *classifier {
	if clsCache[m] == nil {
		clsCache[m] = p.classifier(m.pta)
	}
	return clsCache[m]
}

func callerName(p *Prog, i *inst) string {
	if i.parent == nil {
		return "outside"
	}
	return p.fname(i.parent.fn)
}

func heldUnique(st *lockState, m *memAnalysis) bool {
	for l, h := range st.must {
		if h.mode == modeW && !m.isFresh(l.o) && h.acq != nil {
			return true
		}
	}
	return false
}

// checkRebuildSection: Iterate over the live patterns and the store of the rebuilt matcher are under one acquisition
func checkRebuildSection(p *Prog, r *Report, m *memAnalysis, la *lockAnalysis, root string) {
	type at struct {
		i  *inst
		in ssa.Instruction
	}
	var iters, installs []at
	m.each(func(i *inst, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Iterate" && namedName(c.Common().Value.Type()) == "LivePatternsState" {
			iters = append(iters, at{i, in})
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedName(deref(fa.X.Type())) == "prunerMatcher" {
				if pt, ok := deref(fa.Type()).Underlying().(*types.Pointer); ok && namedName(pt.Elem()) == "coreMatcher" {
					fresh := true
					for _, l := range m.pts(i, fa.X, "") {
						if !m.isFresh(l.o) {
							fresh = false
						}
					}
					if !fresh {
						installs = append(installs, at{i, in})
					}
				}
			}
		}
	})
	secs := func(a at) map[loc]held {
		out := map[loc]held{}
		if st := la.stateAt(a.i, a.in); st != nil {
			for l, h := range st.must {
				if h.mode == modeW && h.acq != nil && !m.isFresh(l.o) && strings.HasPrefix(lockClass(l, m.pta), "prunerMatcher") {
					out[l] = h
				}
			}
		}
		return out
	}
	for _, x := range installs {
		sx := secs(x)
		k := root + " / " + p.fname(x.i.fn)
		if len(sx) == 0 {
			r.fail("rebuild-section", k, m.where(x.i, x.in), "a rebuilt matcher is installed without holding the matcher's lock exclusively: "+x.i.chain())
			continue
		}
		ok := len(iters) > 0
		why := "no iteration over the live patterns found"
		// every iteration from which the installation can be reached is in the same section
		g := newSuperGraph(m)
		for _, it := range iters {
			if !g.reaches(g.after(it.i, it.in), x.i, x.in, nil) {
				continue
			}
			sit := secs(it)
			same := false
			for l, h := range sit {
				if sx[l] == h {
					same = true
				}
			}
			if !same {
				ok = false
				why = "the live patterns are read at " + m.where(it.i, it.in) + " in another critical section than the one in which the rebuilt matcher is installed"
			}
		}
		r.check(ok, "rebuild-section", k, m.where(x.i, x.in), iff(ok, "read and installed under one acquisition", why))
	}
	r.facts["installations in "+root] = len(installs)
}

// ---- C04 ----

type sharedKey struct{ own string }

func checkC04(p *Prog, r *Report) {
	r.rule = "for each piece of shared bookkeeping or package-level data that some call writes, one lock is held at every access to it, exclusively at every write"
	r.explain = "Lockset analysis: for all entry points (public API, and matcher methods that nothing in the package calls), each access to shared, unpublished memory in each calling context contributes the set of locks that are certainly held; the intersection over all accesses of a written location must not be empty, and the write accesses must hold it exclusively."
	r.assume = []string{"locks and data of the same type belong to the same instance (one abstract object per type)"}
	match, update, other := p.apiRoots()
	loose := p.looseMethods()
	roots := append(append(append(append([]string{}, match...), update...), other...), loose...)
	type accs struct {
		written bool
		all     []accRec
	}
	recs := map[string]*accs{}
	for _, root := range roots {
		m := analyse(p, root)
		m.reportProblems(r)
		la := locksOf(m)
		c := p.classifier2(m)
		m.each(func(i *inst, in ssa.Instruction) {
			for _, ac := range m.accesses(i, in) {
				cls := c.class(m.pta, ac.l)
				if cls != clShared && cls != clGlobal {
					continue
				}
				if strings.HasPrefix(ac.what, "atomic") || isSyncPath(m, ac.l) {
					continue
				}
				if memoGuarded(i, in) {
					continue
				}
				own := sharedName(m, ac.l)
				st := la.stateAt(i, in)
				if st == nil {
					continue // not reached by the lock analysis: a call before it never returns
				}
				x := recs[own]
				if x == nil {
					x = &accs{}
					recs[own] = x
				}
				x.written = x.written || ac.write
				ls := map[string]int{}
				for l, h := range st.must {
					if !m.isFresh(l.o) {
						ls[lockClass(l, m.pta)] |= h.mode
					}
				}
				x.all = append(x.all, accRec{ls, ac.write, p.fname(i.fn) + " / " + ac.what, m.where(i, in), root, i.chain()})
			}
		})
	}
	written, n := 0, 0
	for _, own := range sortedKeys(recs) {
		x := recs[own]
		n += len(x.all)
		if !x.written {
			continue
		}
		written++
		// candidate locks: those held exclusively at some write
		best, bestBad := "", 1<<30
		cands := map[string]bool{}
		for _, a := range x.all {
			for l := range a.locks {
				cands[l] = true
			}
		}
		for l := range cands {
			bad := 0
			for _, a := range x.all {
				if md := a.locks[l]; md == 0 || a.write && md&modeW == 0 {
					bad++
				}
			}
			if bad < bestBad || bad == bestBad && l < best {
				best, bestBad = l, bad
			}
		}
		for _, a := range x.all {
			md := a.locks[best]
			ok := best != "" && md != 0 && !(a.write && md&modeW == 0)
			r.check(ok, "lockset", own+" / "+a.fn, a.where, iff(ok, "under "+best, fmt.Sprintf("%s is accessed without holding %s as it should be (elsewhere it is written under it), via %s: %s", own, orNone(best), a.root, a.chain)))
		}
	}
	r.facts["entry points"] = roots
	r.floor("accesses to shared memory", n, 100)
	r.floor("shared locations that are written", written, 15)
}

type accRec struct {
	locks           map[string]int
	write           bool
	fn, where, root string
	chain           string
}

func orNone(s string) string {
	if s == "" {
		return "any lock"
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sharedName names a shared location independently of the calling context
func sharedName(m *memAnalysis, l loc) string {
	if l.o.fixed {
		return "package-level " + types.TypeString(l.o.typ, types.RelativeTo(m.p.pkg.Pkg)) + l.path
	}
	return m.ownerOf(l.o, l.path)
}

// ---- C05 ----

func checkC05(p *Prog, r *Report) {
	r.rule = "locks are balanced on every path, never taken while held, and taken in one order"
	r.explain = "Lock-state dataflow with must- and may-held sets over all calling contexts of each entry point, deferred calls included: a lock that may be held at exit, an unlock of a lock not certainly held in that mode, an acquisition of a lock that may be held, conditional locking, or a lock whose identity is ambiguous is a violation. The acquisition order graph over all entry points must have no cycle."
	r.notCovered = "user-supplied LivePatternsState and Flattener implementations that call back into the same instance; Go's runtime aborts on panics while a lock is held aren't considered exits"
	match, update, other := p.apiRoots()
	loose := p.looseMethods()
	roots := append(append(append(append([]string{}, match...), update...), other...), loose...)
	ops := map[ssa.Instruction]bool{}
	order := map[[2]string]string{}
	exits := 0
	for _, root := range roots {
		m := analyse(p, root)
		m.reportProblems(r)
		la := locksOf(m)
		for _, f := range la.finds {
			r.fail(f.rule, f.construct, f.where, f.why)
		}
		for in := range la.ops {
			if !ops[in] {
				ops[in] = true
			}
			r.check(true, "lock-op", p.fname(in.Parent())+" / "+opName(in), p.pos(in.Pos()), "balanced on every path")
		}
		for k, w := range la.order {
			order[k] = w
		}
		exits += la.exits
		r.check(true, "entry-exit", root, "-", "no lock held at return")
	}
	// cycles
	succ := map[string][]string{}
	for k := range order {
		succ[k[0]] = append(succ[k[0]], k[1])
	}
	for k, w := range order {
		if reachStr(succ, k[1], k[0]) {
			r.fail("lock-order", k[0]+" then "+k[1], w, "elsewhere the locks are taken in the opposite order, so calls can deadlock")
		} else {
			r.pass("lock-order", k[0]+" then "+k[1], w, "no path in the opposite order")
		}
	}
	// every lock operation of the package must have been analysed
	all := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, ok := lockOpOf(c.Common().StaticCallee()); ok {
						all++
						if !ops[in] && f.Synthetic == "" {
							r.fail("unreached-lock-op", p.fname(f)+" / "+opName(in), p.pos(in.Pos()), "no entry point reaches this lock operation, so it hasn't been checked")
						}
					}
				}
			}
		}
	}
	r.floor("lock operations", all, 10)
	r.floor("entry points", exits, 8)
	r.facts["entry point names"] = roots
}

func opName(in ssa.Instruction) string {
	c := in.(ssa.CallInstruction)
	f := c.Common().StaticCallee()
	s := ""
	if _, ok := in.(*ssa.Defer); ok {
		s = "deferred "
	}
	arg := ""
	if len(c.Common().Args) > 0 {
		switch a := c.Common().Args[0].(type) {
		case *ssa.FieldAddr:
			arg = " of " + namedName(deref(a.X.Type())) + "." + fieldNameOf(a)
		case *ssa.Global:
			arg = " of " + a.Name()
		}
	}
	return s + f.Name() + arg
}

func reachStr(succ map[string][]string, from, to string) bool {
	seen := map[string]bool{}
	var visit func(x string) bool
	visit = func(x string) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range succ[x] {
			if visit(y) {
				return true
			}
		}
		return false
	}
	return visit(from)
}
