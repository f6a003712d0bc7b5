package main

import (
	"golang.org/x/tools/go/ssa"
)

// dataSources finds the values from which v is computed, through moves, arithmetic, memory that is local to a function,
// and calls of the package's own functions. stop says where not to look further.
func (p *Prog) dataSources(stop func(ssa.Value) bool, vs ...ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	// stores into memory that begins at an allocation
	stores := func(root ssa.Value) {
		var refs func(a ssa.Value, d int)
		done := map[ssa.Value]bool{}
		refs = func(a ssa.Value, d int) {
			if done[a] || a.Referrers() == nil {
				return
			}
			done[a] = true
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == a {
						visit(u.Val)
					}
				case *ssa.FieldAddr:
					refs(u, d+1)
				case *ssa.IndexAddr:
					refs(u, d+1)
				case *ssa.Slice:
					refs(u, d+1)
				case *ssa.Call:
					if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && u.Call.Args[0] == a {
						visit(u.Call.Args[1])
					}
					if !u.Call.IsInvoke() && u.Call.StaticCallee() != nil && !p.isOurs(u.Call.StaticCallee()) {
						// e.g. utf8.EncodeRune(buf, r) fills the buffer
						for _, x := range u.Call.Args {
							if x != a {
								visit(x)
							}
						}
					}
				}
			}
		}
		refs(root, 0)
	}
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if stop != nil && stop(v) {
			return
		}
		switch v := v.(type) {
		case *ssa.Parameter:
			fn := v.Parent()
			k := -1
			for i, q := range fn.Params {
				if q == v {
					k = i
				}
			}
			for _, c := range p.callersOf(fn) {
				a := c.Common().Args
				if k < len(a) {
					visit(a[k])
				}
			}
		case *ssa.Alloc:
			stores(v)
		case *ssa.MakeSlice:
			stores(v)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				_ = b
				for _, a := range v.Call.Args {
					visit(a)
				}
				return
			}
			if g := v.Call.StaticCallee(); g != nil && p.isOurs(g) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range r.Results {
							visit(x)
						}
					}
				}
				return
			}
			for _, a := range v.Call.Args {
				visit(a)
			}
		case ssa.Instruction:
			for _, o := range v.Operands(nil) {
				if *o != nil {
					visit(*o)
				}
			}
			if _, ok := v.(*ssa.Slice); ok {
				stores(v.(ssa.Value))
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return seen
}

// callersOf lists the static calls of fn in the package
func (p *Prog) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							p.callers[g] = append(p.callers[g], c)
						}
					}
				}
			}
		}
	}
	return p.callers[fn]
}
