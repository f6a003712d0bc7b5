package main

// Order of events across calls: a graph of the instructions of all calling contexts, at block granularity.

import (
	"golang.org/x/tools/go/ssa"
)

// pnt is a place in the supergraph: before instruction k of a block of an instance
type pnt struct {
	i *inst
	b *ssa.BasicBlock
	k int
}

type superGraph struct {
	m       *memAnalysis
	callers map[*inst][]pnt // the points after calls
	defers  map[*inst][]*ssa.Defer
}

func newSuperGraph(m *memAnalysis) *superGraph {
	g := &superGraph{m: m, callers: map[*inst][]pnt{}, defers: map[*inst][]*ssa.Defer{}}
	for e := range m.edges {
		in := e.site.(ssa.Instruction)
		if d, ok := e.site.(*ssa.Defer); ok {
			// runs at each RunDefers
			for _, b := range e.from.fn.Blocks {
				for k, x := range b.Instrs {
					if _, ok := x.(*ssa.RunDefers); ok {
						g.callers[e.to] = append(g.callers[e.to], pnt{e.from, b, k + 1})
					}
				}
			}
			g.defers[e.from] = append(g.defers[e.from], d)
			continue
		}
		g.callers[e.to] = append(g.callers[e.to], pnt{e.from, in.Block(), instrIndex(in) + 1})
	}
	return g
}

func instrIndex(in ssa.Instruction) int {
	for k, x := range in.Block().Instrs {
		if x == in {
			return k
		}
	}
	return -1
}

// walk visits what can be executed after start; visit returns false to stop going on from an instruction
func (g *superGraph) walk(start pnt, visit func(i *inst, in ssa.Instruction) bool) {
	seen := map[pnt]bool{}
	work := []pnt{start}
	push := func(p pnt) {
		if !seen[p] {
			seen[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		stopped := false
		for k := p.k; k < len(p.b.Instrs); k++ {
			in := p.b.Instrs[k]
			if !visit(p.i, in) {
				stopped = true
				break
			}
			callees := g.calleesAt(p.i, in)
			if len(callees) > 0 {
				for _, t := range callees {
					push(pnt{t, t.fn.Blocks[0], 0})
				}
				if c, ok := in.(ssa.CallInstruction); !ok || !g.m.extCalls[p.i][c] {
					if _, ok := in.(*ssa.RunDefers); !ok {
						stopped = true // goes on after the callee returns
						break
					}
				}
			}
			if _, ok := in.(*ssa.Return); ok {
				for _, c := range g.callers[p.i] {
					push(c)
				}
			}
		}
		if stopped {
			continue
		}
		for _, s := range p.b.Succs {
			if p.i.dead[s] {
				continue
			}
			push(pnt{p.i, s, 0})
		}
	}
}

func (g *superGraph) calleesAt(i *inst, in ssa.Instruction) []*inst {
	switch in := in.(type) {
	case *ssa.RunDefers:
		var out []*inst
		for _, d := range g.defers[i] {
			out = append(out, g.m.callees[i][d]...)
		}
		return out
	case *ssa.Defer:
		return nil
	case ssa.CallInstruction:
		return g.m.callees[i][in]
	}
	return nil
}

func (g *superGraph) after(i *inst, in ssa.Instruction) pnt {
	return pnt{i, in.Block(), instrIndex(in) + 1}
}

func (g *superGraph) reaches(from pnt, toI *inst, to ssa.Instruction, block func(i *inst, in ssa.Instruction) bool) bool {
	found := false
	g.walk(from, func(i *inst, in ssa.Instruction) bool {
		if found {
			return false
		}
		if i == toI && in == to {
			found = true
			return false
		}
		return block == nil || !block(i, in)
	})
	return found
}
