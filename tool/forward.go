package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What a load of a field gives, if that's what was stored in it before in the same function. A store to memory that isn't
// known kills it, and so does a call if it may store to the field.

type forwarder struct {
	p      *Prog
	loads  map[*ssa.UnOp][]ssa.Value // nil if it isn't known
	stores map[*ssa.Function]map[string]bool
	all    map[*ssa.Function]map[string]bool
	calls  map[*ssa.Function][]*ssa.Function
}

func newForwarder(p *Prog) *forwarder {
	return &forwarder{p: p, loads: map[*ssa.UnOp][]ssa.Value{}, stores: map[*ssa.Function]map[string]bool{},
		all: map[*ssa.Function]map[string]bool{}, calls: map[*ssa.Function][]*ssa.Function{}}
}

// fieldKey names a field of a type
func fieldKey(fa *ssa.FieldAddr) string {
	t := deref(fa.X.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return t.String() + "." + st.Field(fa.Field).Name()
}

// mayStore lists the fields that a function may store to, itself or in what it calls
func (w *forwarder) mayStore(fn *ssa.Function) map[string]bool {
	if m, ok := w.all[fn]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{fn: true}
	for work := []*ssa.Function{fn}; len(work) > 0; {
		f := work[0]
		work = work[1:]
		for k := range w.direct(f) {
			m[k] = true
		}
		for _, g := range w.calls[f] {
			if !seen[g] {
				seen[g] = true
				work = append(work, g)
			}
		}
	}
	w.all[fn] = m
	return m
}

// direct lists the fields that a function's own instructions store to, "T.*" for all of a type, and "?" for a store through
// another pointer than a field's
func (w *forwarder) direct(fn *ssa.Function) map[string]bool {
	if m, ok := w.stores[fn]; ok {
		return m
	}
	m := map[string]bool{}
	w.stores[fn] = m
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					m[fieldKey(a)] = true
					if s, ok := in.Val.Type().Underlying().(*types.Struct); ok && s != nil {
						m[in.Val.Type().String()+".*"] = true
					}
				case *ssa.IndexAddr, *ssa.Global:
					m[in.Val.Type().String()+".*"] = true
				default:
					if _, ok := in.Val.Type().Underlying().(*types.Struct); ok {
						m[in.Val.Type().String()+".*"] = true
					} else if al, ok := in.Addr.(*ssa.Alloc); !ok || al == nil {
						m["?"] = true // through a pointer to a field, maybe
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					m["?"] = true
					continue
				}
				if !w.p.isOurs(f) {
					// what it's given it may write, through pointers and callbacks
					for _, x := range c.Args {
						switch t := x.Type().Underlying().(type) {
						case *types.Signature:
							m["?"] = true
						case *types.Pointer:
							m[t.Elem().String()+".*"] = true
							if _, ok := t.Elem().Underlying().(*types.Struct); !ok {
								m["?"] = true
							}
						case *types.Interface:
							if f.Pkg != nil && f.Pkg.Pkg.Path() != "fmt" && f.Pkg.Pkg.Path() != "errors" {
								m["?"] = true
							}
						}
					}
					continue
				}
				w.calls[fn] = append(w.calls[fn], f)
			}
		}
	}
	return m
}

// kills says if a call may change a field
func (w *forwarder) kills(c *ssa.CallCommon, fa *ssa.FieldAddr) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false // builtins write elements of slices and maps
	}
	f := c.StaticCallee()
	if f == nil {
		return true
	}
	var m map[string]bool
	if w.p.isOurs(f) {
		m = w.mayStore(f)
	} else {
		for _, x := range c.Args {
			switch t := x.Type().Underlying().(type) {
			case *types.Basic:
			case *types.Slice:
				if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
					return true
				}
			case *types.Map:
				if _, ok := t.Elem().Underlying().(*types.Struct); ok {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return m["?"] || m[fieldKey(fa)] || m[deref(fa.X.Type()).String()+".*"]
}

// escapes lists the instructions that let the address of an allocation out
func escapes(al *ssa.Alloc) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == al {
				out = append(out, r)
			}
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if q.Val == r {
						out = append(out, q)
					}
				default:
					out = append(out, q)
				}
			}
		default:
			out = append(out, r)
		}
	}
	return out
}

// value gives the values that a load can give
func (w *forwarder) value(ld *ssa.UnOp) ([]ssa.Value, bool) {
	if v, ok := w.loads[ld]; ok {
		return v, v != nil
	}
	v := w.find(ld)
	w.loads[ld] = v
	return v, v != nil
}

func (w *forwarder) find(ld *ssa.UnOp) []ssa.Value {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	switch ld.Type().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
	default:
		return nil
	}
	al, _ := fa.X.(*ssa.Alloc)
	hidden := al != nil
	if al != nil {
		for _, e := range escapes(al) {
			if canFollow(e, ld) {
				hidden = false
			}
		}
	}
	base, _ := fa.X.(ssa.Instruction)
	key, whole := fieldKey(fa), deref(fa.X.Type()).String()+".*"
	vals := []ssa.Value{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for k := from; k >= 0; k-- {
			in := b.Instrs[k]
			if in == base {
				if al == nil {
					return false
				}
				vals = append(vals, ssa.NewConst(nil, ld.Type()))
				return true
			}
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == fa.X {
					return false // all of the struct
				}
				if a, ok := in.Addr.(*ssa.FieldAddr); ok {
					if a.X == fa.X {
						if a.Field == fa.Field {
							vals = append(vals, in.Val)
							return true
						}
						continue
					}
					if !hidden && fieldKey(a) == key {
						return false
					}
				}
				if !hidden {
					if _, ok := in.Val.Type().Underlying().(*types.Struct); ok {
						if in.Val.Type().String()+".*" == whole {
							return false
						}
					}
					switch in.Addr.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc:
					default:
						return false
					}
				}
			case ssa.CallInstruction:
				if !hidden && w.kills(in.Common(), fa) {
					return false
				}
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				if !walk(p, len(p.Instrs)-1) {
					return false
				}
			}
		}
		return true
	}
	blk := ld.Block()
	at := 0
	for k, in := range blk.Instrs {
		if in == ld {
			at = k
		}
	}
	if !walk(blk, at-1) {
		return nil
	}
	return vals
}

// canFollow says if b can be executed after a, in the same call
func canFollow(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}
