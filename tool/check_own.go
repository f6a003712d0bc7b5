package main

// C06, C07, C10, C11: ownership properties

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) allRoots() []string {
	match, update, other := p.apiRoots()
	return append(append(append(append([]string{}, match...), update...), other...), p.looseMethods()...)
}

// writtenOwners: the owners of old memory that is written, with the first writer, over all entry points
func (p *Prog) writtenOwners() map[string]string {
	out := map[string]string{}
	for _, root := range p.allRoots() {
		m := analyse(p, root)
		m.each(func(i *inst, in ssa.Instruction) {
			for _, ac := range m.accesses(i, in) {
				if !ac.write || strings.HasPrefix(ac.what, "atomic") || memoGuarded(i, in) {
					continue
				}
				switch ac.l.o.kind {
				case kOld, kOldMem, kOldBox:
					k := ac.l.o.owner
					if _, ok := out[k]; !ok {
						out[k] = p.fname(i.fn) + " at " + m.where(i, in)
					}
				}
			}
		})
	}
	return out
}

func checkC06(p *Prog, r *Report) {
	r.rule = "no package-level data is written after initialisation except under one lock, none of it becomes part of memory that an instance writes, and no instance's data is stored in a package-level variable without a lock"
	r.explain = "Points-to analysis of package initialisation and every entry point. global-write: each write that can hit a package-level variable, or memory that initialisation allocated, is an obligation: it must hold a package-level lock exclusively (or fill in a nil closure of the placeholder state). static-in-instance: memory that initialisation allocated may be referred to from an instance only where nothing writes such memory. pool: no instance memory is put in a package-level pool."
	r.assume = []string{"C04 checks that readers of lock-protected package-level data hold the same lock"}
	roots := p.allRoots()
	written := p.writtenOwners()
	n, refs := 0, 0
	for _, root := range roots {
		m := analyse(p, root)
		m.reportProblems(r)
		la := locksOf(m)
		c := p.classifier2(m)
		m.each(func(i *inst, in ssa.Instruction) {
			for _, ac := range m.accesses(i, in) {
				if !ac.write {
					continue
				}
				n++
				if c.class(m.pta, ac.l) != clGlobal || isSyncPath(m, ac.l) {
					continue
				}
				ok := memoGuarded(i, in)
				why := "fills in a nil closure"
				if !ok {
					st := la.stateAt(i, in)
					if st != nil {
						for l, h := range st.must {
							if h.mode == modeW && l.o.kind == kGlobal {
								ok = true
								why = "under " + lockClass(l, m.pta)
							}
						}
					}
				}
				r.check(ok, "global-write", p.fname(i.fn)+" / "+ac.what+" of "+sharedName(m, ac.l), m.where(i, in), iff(ok, why, "package-level data "+ac.l.String()+" is written without a package-level lock, via "+i.chain()))
			}
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f != nil && calleeName(f) == "(*sync.Pool).Put" {
					arg := cl.Common().Args[1]
					bad := ""
					for _, l := range m.pts(i, arg, "") {
						for o := range m.reach([]loc{l}, false) {
							if o.kind == kOld || o.kind == kOldMem || o.kind == kEvent {
								bad = o.String()
							}
						}
					}
					r.check(bad == "", "pool", p.fname(i.fn), m.where(i, in), iff(bad == "", "memory of this call only", "puts "+bad+" in a pool that all instances share"))
				}
			}
		})
		// static memory that becomes part of an instance
		for cl, nd := range m.cells {
			if cl.o.kind == kGlobal || cl.o.fixed || cl.o.kind == kBox || cl.o.kind == kClosure || cl.o.inst != nil && cl.o.inst.root.init {
				continue
			}
			for x := range nd.pts {
				if !(x.o.kind == kGlobal || x.o.fixed) || x.o.kind == kClosure {
					continue
				}
				refs++
				own := m.ownerOf(cl.o, cl.path)
				t := typeAt(cl.o.typ, cl.path)
				if t == nil {
					if strings.HasSuffix(cl.path, "{atomic}") {
						continue
					}
					continue
				}
				var mem string
				switch u := t.Underlying().(type) {
				case *types.Slice, *types.Map:
					mem = own
				case *types.Pointer:
					if nn := types.TypeString(u.Elem(), types.RelativeTo(p.pkg.Pkg)); namedName(u.Elem()) != "" {
						mem = nn
					} else {
						mem = own + "*"
					}
				default:
					continue
				}
				w, bad := written[mem]
				r.check(!bad, "static-in-instance", own+" refers to "+sharedName(m, x), "-", iff(!bad, "memory of that kind is never written", "package-level memory becomes part of an instance, where "+w+" writes such memory"))
			}
		}
	}
	r.facts["entry points"] = roots
	r.facts["kinds of instance memory that is written"] = len(written)
	r.floor("writes examined", n, 1000)
	r.floor("references from instances to package-level memory", refs, 1)
	r.pass("scope", "all entry points", "-", fmt.Sprintf("%d writes", n))
}

// ---- C07 ----

func checkC07(p *Prog, r *Report) {
	r.rule = "Copy's result is new, shares nothing but the matcher with its original, and has its original's settings"
	r.explain = "Points-to analysis of Quamina.Copy. no-sharing: everything that can be reached from the result, except through the matcher, is allocated in the call (or is constant package-level memory). same-matcher: the matcher field holds the original's. settings: each field of Quamina that a method reads is either new memory or a copy of the original's field. working-state: what the matching calls write without a lock is of types that can't be reached from a matcher."
	r.notCovered = "Flattener implementations from outside the package"
	m := analyse(p, "Quamina.Copy")
	m.reportProblems(r)
	root := m.roots[0]
	f := root.fn
	qt := p.namedType("Quamina").Underlying().(*types.Struct)
	res := m.ret(root, "").locs()
	if len(res) == 0 {
		r.fail("no-sharing", "Quamina.Copy", p.pos(f.Pos()), "no result found")
		return
	}
	matcherField := ""
	for i := 0; i < qt.NumFields(); i++ {
		if namedName(qt.Field(i).Type()) == "matcher" {
			matcherField = "." + qt.Field(i).Name()
		}
	}
	if matcherField == "" {
		r.fail("same-matcher", "Quamina", "-", "no field of type matcher")
		return
	}
	byObj := m.cellsByObj()
	for _, l := range res {
		ok := m.isFresh(l.o)
		r.check(ok, "new-instance", "Quamina.Copy", p.pos(f.Pos()), iff(ok, "the result is allocated in the call", "the result can be "+l.String()))
		if !ok {
			continue
		}
		for k := 0; k < qt.NumFields(); k++ {
			fld := "." + qt.Field(k).Name()
			var start []loc
			for _, cl := range byObj[l.o] {
				if strings.HasPrefix(cl.path, l.path+fld) && (len(cl.path) == len(l.path+fld) || strings.ContainsRune(".[{", rune(cl.path[len(l.path+fld)]))) {
					for x := range m.cells[cl].pts {
						start = append(start, x)
					}
				}
			}
			sortLocs(start)
			if fld == matcherField {
				ok := len(start) > 0
				for _, x := range start {
					if x.o.kind != kOldBox {
						ok = false
					}
				}
				r.check(ok, "same-matcher", "Quamina"+fld, p.pos(f.Pos()), iff(ok, "the original's matcher", "the copy's matcher isn't (always) its original's"))
				continue
			}
			bad := ""
			for o := range m.reach(start, true) {
				if !m.isFresh(o) && o.kind != kFunc && !(o.fixed || o.kind == kGlobal) {
					bad = o.String()
				}
			}
			r.check(bad == "", "no-sharing", "Quamina"+fld, p.pos(f.Pos()), iff(bad == "", "only memory of the new instance", "the copy refers to "+bad+", which belongs to its original"))
		}
	}
	// and nothing of the new instance is kept by the original
	for e := range m.escapes {
		r.fail("no-sharing", "original keeps "+m.ownerOf(e.cell.o, e.cell.path), p.pos(f.Pos()), "Copy stores new memory in its original")
	}
	// settings
	readBy := p.fieldReaders("Quamina", map[string]bool{"Copy": true})
	for k := 0; k < qt.NumFields(); k++ {
		name := qt.Field(k).Name()
		rd := readBy[name]
		if rd == "" {
			r.check(true, "settings", "Quamina."+name, "-", "no method reads it")
			continue
		}
		ok, why := p.copiesField(m, root, res, name)
		r.check(ok, "settings", "Quamina."+name, p.pos(f.Pos()), iff(ok, why, rd+" reads the field, but Copy doesn't set it from the original's: "+why))
	}
	r.floor("fields of Quamina", qt.NumFields(), 4)
	// working state
	match, _, _ := p.apiRoots()
	mm := analyse(p, match...)
	c := p.classifier2(mm)
	n := 0
	la := locksOf(mm)
	mm.each(func(i *inst, in ssa.Instruction) {
		for _, ac := range mm.accesses(i, in) {
			if !ac.write {
				continue
			}
			switch cls := c.class(mm.pta, ac.l); cls {
			case clPrivate:
				n++
				own := ownerType(mm.ownerOf(ac.l.o, ac.l.path))
				ok := !c.imm[own] && !c.shared[own]
				r.check(ok, "working-state", own, mm.where(i, in), "written while matching, not reachable from a matcher")
			case clShared, clImmutable:
				ok := memoGuarded(i, in) || cls == clShared && wHeld(la.stateAt(i, in), mm)
				r.check(ok, "working-state", accessConstruct(mm, ac), mm.where(i, in), iff(ok, "under a lock", "matching writes "+ac.l.String()+", which copies share, without a lock"))
			}
		}
	})
	r.floor("writes to working state", n, 30)
}

// fieldReaders: for each field of a struct type, a method of the type that reads it (constructors and the excepted ones aside)
func (p *Prog) fieldReaders(typ string, except map[string]bool) map[string]string {
	out := map[string]string{}
	t := p.namedType(typ)
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil || namedName(deref(f.Signature.Recv().Type())) != typ || except[f.Name()] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.MUL {
						if fa, ok := in.X.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), t) {
							out[fieldNameOf(fa)] = p.fname(f)
						}
					}
				}
			}
		}
	}
	return out
}

// copiesField: in the call of root (and what it calls), every store to the field of the result has either the same field of the
// receiver as its value, or new memory; and there is such a store
func (p *Prog) copiesField(m *memAnalysis, root *inst, res []loc, name string) (bool, string) {
	isRes := func(o *obj) bool {
		for _, l := range res {
			if l.o == o {
				return true
			}
		}
		return false
	}
	recv := root.fn.Params[0]
	var fromRecv func(i *inst, v ssa.Value, depth int) bool
	fromRecv = func(i *inst, v ssa.Value, depth int) bool {
		if depth > 12 {
			return false
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if fa, ok := v.X.(*ssa.FieldAddr); ok && fieldNameOf(fa) == name {
					for _, l := range m.pts(i, fa.X, "") {
						if l.o.kind == kOld && l.o.name == "Quamina" {
							return true
						}
					}
				}
			}
		case *ssa.Field:
			if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				for _, l := range m.pts(i, u.X, "") {
					if l.o.kind == kOld && l.o.name == "Quamina" {
						return true
					}
				}
			}
		case *ssa.Parameter:
			if i.parent != nil {
				for k, q := range i.fn.Params {
					if q == v {
						args := i.site.Common().Args
						if k < len(args) {
							return fromRecv(i.parent, args[k], depth+1)
						}
					}
				}
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !fromRecv(i, e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && p.isOurs(f) {
				// an accessor such as GetMatcherBuildMode
				for _, t := range m.callees[i][v] {
					ok := false
					for _, b := range t.fn.Blocks {
						if rt, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && len(rt.Results) == 1 {
							if !fromRecv(t, rt.Results[0], depth+1) {
								return false
							}
							ok = true
						}
					}
					return ok
				}
			}
		case *ssa.ChangeType:
			return fromRecv(i, v.X, depth+1)
		}
		return false
	}
	_ = recv
	found := false
	why := "there is no assignment to it"
	okAll := true
	m.each(func(i *inst, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		hit, whole := false, false
		for _, l := range m.pts(i, st.Addr, "") {
			if isRes(l.o) {
				if strings.HasSuffix(l.path, "."+name) {
					hit = true
				}
				if t := typeAt(l.o.typ, l.path); t != nil && namedName(t) == "Quamina" {
					whole = true
				}
			}
		}
		if whole {
			// *copy = *q
			if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				for _, l := range m.pts(i, u.X, "") {
					if l.o.kind == kOld && l.o.name == "Quamina" {
						found = true
						return
					}
				}
				// composite literal built elsewhere: its own field stores
				src := m.pts(i, u.X, "")
				if ok2, w := p.copiesField(m, root, src, name); ok2 && len(src) > 0 && !isRes(src[0].o) {
					found = true
					_ = w
				}
			}
			return
		}
		if !hit {
			return
		}
		if fromRecv(i, st.Val, 0) {
			found = true
			return
		}
		// new memory is right for working state, which has pointers
		if len(m.leaves(st.Val.Type())) > 0 {
			fresh := true
			cnt := 0
			for _, lf := range m.leaves(st.Val.Type()) {
				for _, l := range m.pts(i, st.Val, lf) {
					cnt++
					if !m.isFresh(l.o) {
						fresh = false
					}
				}
			}
			if fresh && cnt > 0 {
				found = true
				return
			}
			if cnt == 0 {
				why = "it is set to nil at " + p.pos(in.Pos())
				okAll = false
				return
			}
		}
		okAll = false
		why = "it is set to something else at " + p.pos(in.Pos())
	})
	if found && okAll {
		return true, "set from the original's field, or new"
	}
	return false, why
}

// ---- C10 ----

func checkC10(p *Prog, r *Report) {
	r.rule = "no instruction in a matching call writes memory of the event"
	r.explain = "Points-to analysis with the event's bytes as one abstract object: each write (assignments, copy, clear, append without clipped capacity, functions of the standard library that write their argument) in each calling context is checked not to hit the event, nor memory that a field holds which an earlier call set to part of its event."
	r.notCovered = "Flattener implementations from outside the package"
	match, _, _ := p.apiRoots()
	match = append(match, p.looseMethods()...)
	var ms []*memAnalysis
	eventCells := map[string]bool{} // owners of cells that hold event memory
	holders := 0
	for _, root := range match {
		m := analyse(p, root)
		ms = append(ms, m)
		m.reportProblems(r)
		for cl, nd := range m.cells {
			for x := range nd.pts {
				if x.o.kind == kEvent {
					holders++
					eventCells[m.ownerOf(cl.o, cl.path)] = true
				}
			}
		}
	}
	n := 0
	for _, m := range ms {
		m.each(func(i *inst, in ssa.Instruction) {
			for _, ac := range m.accesses(i, in) {
				if !ac.write {
					continue
				}
				n++
				isEv := ac.l.o.kind == kEvent
				if ac.l.o.kind == kOldMem && eventCells[ac.l.o.owner] && isByteMem(ac.l) {
					isEv = true
				}
				if isEv {
					r.fail("event-write", p.fname(i.fn)+" / "+ac.what, m.where(i, in), "can write the bytes of an event ("+ac.l.String()+"), via "+i.chain())
				}
			}
		})
	}
	for _, o := range sortedKeys(eventCells) {
		r.pass("event-holder", o, "-", "holds a part of an event; its bytes are never written")
	}
	r.pass("event-write", "all writes", "-", fmt.Sprintf("%d writes examined", n))
	r.floor("writes examined", n, 200)
	r.floor("cells that hold event bytes", holders, 3)
	// the event must not leak to code which isn't known to leave it alone: covered by the access model of calls
	r.facts["entry points"] = match
}

func isByteMem(l loc) bool {
	t := typeAt(l.o.typ, l.path)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// ---- C11 ----

func checkC11(p *Prog, r *Report) {
	r.rule = "the slice that a matching call returns is allocated in the call and reachable from nothing that outlives it"
	r.explain = "Points-to analysis: every memory block the first result of MatchesForEvent can refer to must be allocated in that call and not be reachable from memory that existed before (an escape analysis on the points-to graph)."
	n := 0
	roots := []string{"Quamina.MatchesForEvent"}
	for _, lm := range p.looseMethods() {
		if strings.Contains(strings.ToLower(lm), "matchesfor") {
			roots = append(roots, lm)
		}
	}
	for _, name := range roots {
		m := analyse(p, name)
		m.reportProblems(r)
		root := m.roots[0]
		esc := map[*obj]string{}
		for e := range m.escapes {
			for o := range m.reach([]loc{e.what}, true) {
				esc[o] = m.ownerOf(e.cell.o, e.cell.path)
			}
		}
		// the box and the elements belong to the user; the memory of the slice itself is what counts
		for k := 0; k < root.fn.Signature.Results().Len(); k++ {
			rt := root.fn.Signature.Results().At(k).Type()
			if _, ok := rt.Underlying().(*types.Slice); !ok {
				continue
			}
			ls := m.ret(root, fmt.Sprintf("#%d", k)).locs()
			for _, l := range ls {
				n++
				k := name + " / " + allocName(m, l)
				ok := m.isFresh(l.o)
				r.check(ok, "result-fresh", k, m.siteOf(l.o), iff(ok, "allocated in the call", "the result can be "+l.String()+", which the library keeps"))
				if ok {
					own, bad := esc[l.o]
					r.check(!bad, "result-escape", k, m.siteOf(l.o), iff(!bad, "kept nowhere", "the slice stays reachable through "+own))
				}
			}
		}
	}
	r.floor("memory blocks that results refer to", n, 1)
}

func allocName(m *memAnalysis, l loc) string {
	if l.o.inst != nil {
		return m.p.fname(l.o.inst.fn)
	}
	return l.o.owner
}

func (m *memAnalysis) siteOf(o *obj) string {
	if o.site != nil {
		return m.p.pos(instrPos(o.site))
	}
	return "-"
}
