package main

// Lock-state analysis: which locks are held at each instruction of each calling context, and since which acquisition.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	modeR = 1
	modeW = 2
)

type held struct {
	mode int
	acq  ssa.Instruction // where it was acquired; nil if that differs between paths
	inst *inst
}

// lockState: must and may sets, and deferred calls that are pending on all or some paths
type lockState struct {
	must  map[loc]held
	may   map[loc]int
	dmust map[ssa.Instruction]bool
	dmay  map[ssa.Instruction]bool
	order []ssa.Instruction // deferred calls in order
}

func newLockState() *lockState {
	return &lockState{must: map[loc]held{}, may: map[loc]int{}, dmust: map[ssa.Instruction]bool{}, dmay: map[ssa.Instruction]bool{}}
}

func (s *lockState) clone() *lockState {
	c := newLockState()
	for k, v := range s.must {
		c.must[k] = v
	}
	for k, v := range s.may {
		c.may[k] = v
	}
	for k := range s.dmust {
		c.dmust[k] = true
	}
	for k := range s.dmay {
		c.dmay[k] = true
	}
	c.order = append(c.order, s.order...)
	return c
}

// join merges t into s (nil s: copy of t) and says whether s changed
func joinLS(s, t *lockState) (*lockState, bool) {
	if s == nil {
		return t.clone(), true
	}
	ch := false
	for k, v := range s.must {
		w, ok := t.must[k]
		if !ok {
			delete(s.must, k)
			ch = true
			continue
		}
		n := v
		if w.mode < n.mode {
			n.mode = w.mode
		}
		if w.acq != n.acq || w.inst != n.inst {
			n.acq, n.inst = nil, nil
		}
		if n != v {
			s.must[k] = n
			ch = true
		}
	}
	for k, v := range t.may {
		if s.may[k]|v != s.may[k] {
			s.may[k] |= v
			ch = true
		}
	}
	for k := range s.dmust {
		if !t.dmust[k] {
			delete(s.dmust, k)
			ch = true
		}
	}
	for k := range t.dmay {
		if !s.dmay[k] {
			s.dmay[k] = true
			ch = true
		}
	}
	for _, d := range t.order {
		found := false
		for _, e := range s.order {
			if e == d {
				found = true
			}
		}
		if !found {
			s.order = append(s.order, d)
		}
	}
	return s, ch
}

type lockOp struct {
	acquire bool
	mode    int
	name    string
}

func lockOpOf(f *ssa.Function) (lockOp, bool) {
	if f == nil {
		return lockOp{}, false
	}
	switch strings.TrimSuffix(calleeName(f), "$bound") {
	case "(*sync.Mutex).Lock":
		return lockOp{true, modeW, "Lock"}, true
	case "(*sync.Mutex).Unlock":
		return lockOp{false, modeW, "Unlock"}, true
	case "(*sync.RWMutex).Lock":
		return lockOp{true, modeW, "Lock"}, true
	case "(*sync.RWMutex).Unlock":
		return lockOp{false, modeW, "Unlock"}, true
	case "(*sync.RWMutex).RLock":
		return lockOp{true, modeR, "RLock"}, true
	case "(*sync.RWMutex).RUnlock":
		return lockOp{false, modeR, "RUnlock"}, true
	}
	return lockOp{}, false
}

type lockFinding struct {
	rule, construct, where, why string
}

type lockAnalysis struct {
	m       *memAnalysis
	entry   map[*inst]*lockState
	exit    map[*inst]*lockState
	at      map[*inst]map[ssa.Instruction]*lockState // only filled in the final pass
	callers map[*inst][]*inst
	final   bool
	finds   map[string]lockFinding
	ops     map[ssa.Instruction]bool
	order   map[[2]string]string // held, acquired → where
	exits   int
}

func lockClass(l loc, a *pta) string {
	own := a.ownerOf(l.o, l.path)
	return own
}

func analyseLocks(m *memAnalysis) *lockAnalysis {
	la := &lockAnalysis{m: m, entry: map[*inst]*lockState{}, exit: map[*inst]*lockState{}, at: map[*inst]map[ssa.Instruction]*lockState{},
		callers: map[*inst][]*inst{}, finds: map[string]lockFinding{}, ops: map[ssa.Instruction]bool{}, order: map[[2]string]string{}}
	wl := []*inst{}
	in := map[*inst]bool{}
	push := func(i *inst) {
		if !in[i] {
			in[i] = true
			wl = append(wl, i)
		}
	}
	for _, r := range m.roots {
		la.entry[r] = newLockState()
		push(r)
	}
	for e := range m.edges {
		la.callers[e.to] = append(la.callers[e.to], e.from)
	}
	n := 0
	for len(wl) > 0 {
		i := wl[0]
		wl = wl[1:]
		in[i] = false
		if n++; n > 400000 {
			panic("lock analysis doesn't converge")
		}
		changedEntries, exitChanged := la.run(i, nil)
		for _, c := range changedEntries {
			push(c)
		}
		if exitChanged {
			for _, c := range la.callers[i] {
				if la.entry[c] != nil {
					push(c)
				}
			}
		}
	}
	la.final = true
	var insts []*inst
	for i := range la.entry {
		insts = append(insts, i)
	}
	sort.Slice(insts, func(a, b int) bool { return insts[a].id < insts[b].id })
	for _, i := range insts {
		rec := map[ssa.Instruction]*lockState{}
		la.run(i, rec)
		la.at[i] = rec
	}
	for _, r := range m.roots {
		la.exits++
		if x := la.exit[r]; x != nil {
			for l := range x.may {
				la.find("held-at-exit", r.root.name+" / "+lockClass(l, m.pta), m.p.pos(r.fn.Pos()), "the lock may still be held when the call returns")
			}
		}
	}
	return la
}

func (la *lockAnalysis) find(rule, construct, where, why string) {
	k := rule + construct
	if _, ok := la.finds[k]; !ok {
		la.finds[k] = lockFinding{rule, construct, where, why}
	}
}

func (la *lockAnalysis) run(i *inst, rec map[ssa.Instruction]*lockState) (changed []*inst, exitChanged bool) {
	fn := i.fn
	ins := make([]*lockState, len(fn.Blocks))
	ins[0], _ = joinLS(nil, la.entry[i])
	// deferred calls belong to the function
	ins[0].dmay, ins[0].dmust, ins[0].order = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, nil
	work := []int{0}
	var exit *lockState
	record := func() bool { return rec != nil }
	process := func(b *ssa.BasicBlock, st *lockState) *lockState {
		for _, in := range b.Instrs {
			if record() {
				rec[in] = st.clone()
			}
			switch in := in.(type) {
			case *ssa.Defer:
				st.dmust[in] = true
				st.dmay[in] = true
				st.order = append(st.order, in)
			case *ssa.RunDefers:
				for k := len(st.order) - 1; k >= 0; k-- {
					d := st.order[k]
					if !st.dmay[d] {
						continue
					}
					after, ch := la.call(i, d.(*ssa.Defer), st.clone(), rec != nil)
					changed = append(changed, ch...)
					if after == nil {
						continue
					}
					if st.dmust[d] {
						after.dmay, after.dmust, after.order = st.dmay, st.dmust, st.order
						st = after
					} else {
						o := st.order
						st, _ = joinLS(st, after)
						st.order = o
					}
				}
			case *ssa.Go:
				_, ch := la.call(i, in, newLockState(), rec != nil)
				changed = append(changed, ch...)
			case ssa.CallInstruction:
				after, ch := la.call(i, in, st, rec != nil)
				changed = append(changed, ch...)
				if after == nil {
					return nil // the callee hasn't returned yet, as far as is known
				}
				after.dmay, after.dmust, after.order = st.dmay, st.dmust, st.order
				st = after
			case *ssa.Return:
				e := st.clone()
				e.dmay, e.dmust, e.order = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, nil
				exit, _ = joinLS(exit, e)
			}
		}
		return st
	}
	steps := 0
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if steps++; steps > 100000 {
			panic("lock analysis doesn't converge in " + fn.Name())
		}
		b := fn.Blocks[k]
		out := process(b, ins[k].clone())
		if out == nil {
			continue
		}
		for _, s := range b.Succs {
			if i.dead[s] {
				continue
			}
			n, ch := joinLS(ins[s.Index], out)
			ins[s.Index] = n
			if ch {
				work = append(work, s.Index)
			}
		}
	}
	if exit != nil {
		n, ch := joinLS(la.exit[i], exit)
		la.exit[i] = n
		exitChanged = ch
	}
	return
}

// call applies a call to the lock state; nil if the callee isn't known to return
func (la *lockAnalysis) call(i *inst, c ssa.CallInstruction, st *lockState, final bool) (*lockState, []*inst) {
	cc := c.Common()
	m := la.m
	if f := cc.StaticCallee(); f != nil {
		if op, ok := lockOpOf(f); ok {
			return la.apply(i, c, op, m.pts(i, cc.Args[0], ""), st, final), nil
		}
		if strings.HasPrefix(calleeName(f), "(*sync.") && strings.Contains(calleeName(f), "Try") {
			la.find("lock-operation", m.p.fname(i.fn)+" / "+f.Name(), m.where(i, c.(ssa.Instruction)), "conditional locking isn't something the analysis can follow")
		}
	} else if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			la.find("lock-operation", m.p.fname(i.fn)+" / "+cc.Method.Name(), m.where(i, c.(ssa.Instruction)), "locking through an interface isn't something the analysis can follow")
		}
	}
	cs := m.callees[i][c]
	if len(cs) == 0 {
		return st.clone(), nil
	}
	var out *lockState
	var changed []*inst
	for _, t := range cs {
		e := st.clone()
		e.dmay, e.dmust, e.order = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}, nil
		n, ch := joinLS(la.entry[t], e)
		la.entry[t] = n
		if ch {
			changed = append(changed, t)
		}
		if x := la.exit[t]; x != nil {
			out, _ = joinLS(out, x)
		}
	}
	if m.extCalls[i][c] {
		out, _ = joinLS(out, st)
	}
	return out, changed
}

func (la *lockAnalysis) apply(i *inst, c ssa.CallInstruction, op lockOp, ls []loc, st *lockState, final bool) *lockState {
	in := c.(ssa.Instruction)
	st = st.clone()
	m := la.m
	where := m.where(i, in)
	con := func(l loc) string { return m.p.fname(i.fn) + " / " + op.name + " of " + lockClass(l, m.pta) }
	if final {
		la.ops[in] = true
		if len(ls) != 1 {
			la.find("lock-identity", m.p.fname(i.fn)+" / "+op.name, where, fmt.Sprintf("can't tell which lock this is (%d candidates)", len(ls)))
		}
	}
	for _, l := range ls {
		if op.acquire {
			if final {
				if st.may[l] != 0 {
					la.find("double-lock", con(l), where, "the call may hold the lock already: "+i.chain())
				}
				for h := range st.may {
					if h != l && !m.isFresh(h.o) {
						k := [2]string{lockClass(h, m.pta), lockClass(l, m.pta)}
						if k[0] != k[1] || !m.isFresh(l.o) {
							la.order[k] = where + " in " + i.chain()
						}
					}
				}
			}
			st.may[l] |= op.mode
			if len(ls) == 1 {
				st.must[l] = held{op.mode, in, i}
			}
		} else {
			h, ok := st.must[l]
			if final && (!ok || h.mode != op.mode) {
				la.find("unlock-unheld", con(l), where, "the lock isn't held in that mode on every path: "+i.chain())
			}
			if len(ls) == 1 {
				delete(st.may, l)
			}
			delete(st.must, l)
		}
	}
	return st
}

// stateAt: locks held before an instruction; nil if it isn't reached
func (la *lockAnalysis) stateAt(i *inst, in ssa.Instruction) *lockState { return la.at[i][in] }

func (s *lockState) names(a *pta, mode int) string {
	var out []string
	for l, h := range s.must {
		if h.mode >= mode {
			out = append(out, lockClass(l, a))
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "no lock"
	}
	return strings.Join(out, ", ")
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}
