package main

import (
	"os"
	"strings"

	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What single instructions and conditions mean to the numeric analysis.

// copyOperand makes dst equal to a value's number, length, capacity or nil-ness; false if the state can't be
func (f *zFunc) copyOperand(z *zone, dst int32, v ssa.Value, k byte) bool {
	a := f.a
	if c, ok := v.(*ssa.Const); ok {
		switch k {
		case 'v':
			if n, ok := constInt(c); ok {
				return z.eq(dst, 0, n)
			}
			return a.typeRange(z, dst, k, v.Type())
		case 'l', 'c':
			if c.Value == nil {
				return z.eq(dst, 0, 0)
			}
			if c.Value.Kind() == constant.String {
				return z.eq(dst, 0, int64(len(constant.StringVal(c.Value))))
			}
		case 'n':
			if c.Value == nil {
				return z.eq(dst, 0, 0)
			}
			return z.eq(dst, 0, 1)
		}
		return a.typeRange(z, dst, k, v.Type())
	}
	return f.copyName(z, dst, zName{v: v, kind: k})
}

func (f *zFunc) copyName(z *zone, dst int32, n zName) bool {
	a := f.a
	if n.kind == 'n' && n.path == "" && n.role == 0 {
		switch n.v.(type) {
		case *ssa.Alloc, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.MakeClosure:
			return z.eq(dst, 0, 1)
		}
	}
	src := a.id(n)
	if z.ix(src) < 0 {
		var t types.Type
		if n.role == 0 {
			t = f.typeOf(n)
		}
		if t == nil || !a.typeRange(z, src, n.kind, t) {
			z.add(dst)
			return t == nil
		}
		z.add(src)
	}
	if !z.eq(dst, src, 0) {
		return false
	}
	if s, ok := z.sets[src]; ok {
		z.sets[dst] = s
	}
	if l, ok := z.from[src]; ok {
		z.from[dst] = l
	}
	if c, ok := z.cont[src]; ok {
		z.cont[dst] = c
	}
	return true
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	switch c.Value.Kind() {
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		if !ok || n >= zInf || n <= -zInf {
			return 0, false
		}
		return n, true
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// num gives an operand as a variable and a constant to add
func (f *zFunc) num(z *zone, v ssa.Value) (int32, int64) {
	if c, ok := v.(*ssa.Const); ok {
		if n, ok := constInt(c); ok {
			return 0, n
		}
	}
	id := f.a.val(v)
	if z.ix(id) < 0 {
		z.add(id)
		f.a.typeRange(z, id, 'v', v.Type())
	}
	return id, 0
}

// length gives the length or capacity of a slice, string, or array
func (f *zFunc) length(z *zone, v ssa.Value, k byte) (int32, int64) {
	t := v.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if at, ok := t.(*types.Array); ok {
		return 0, at.Len()
	}
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return 0, 0
		}
		if c.Value.Kind() == constant.String {
			return 0, int64(len(constant.StringVal(c.Value)))
		}
	}
	if _, ok := t.(*types.Basic); ok {
		k = 'l'
	}
	id := f.a.id(zName{v: v, kind: k})
	if z.ix(id) < 0 {
		z.le(0, id, 0)
		if k == 'c' {
			l := f.a.len_(v)
			z.le(0, l, 0)
			z.le(l, id, 0)
		}
	}
	return id, 0
}

// def forgets what was known of a value that gets computed again
func (f *zFunc) def(z *zone, v ssa.Value) {
	dead := map[int32]bool{}
	for _, id := range z.vars[1:] {
		n := f.a.names[id]
		if n.v == v && (n.role == 0 || n.role == 't') {
			dead[id] = true
		}
	}
	if len(dead) > 0 {
		z.forgetAll(dead)
	}
}

func (f *zFunc) havoc(z *zone, v ssa.Value) bool {
	for _, k := range zKinds(v.Type()) {
		id := f.a.id(zName{v: v, kind: k})
		z.add(id)
		if !f.a.typeRange(z, id, k, v.Type()) {
			return false
		}
		if k == 'c' {
			z.le(f.a.len_(v), id, 0)
		}
	}
	return true
}

// kill forgets memory that stores of the named kinds can change, but not the term keep
func (f *zFunc) kill(z *zone, keys map[string]bool, keep zTerm) {
	if len(keys) == 0 {
		return
	}
	dead := map[int32]bool{}
	for _, id := range z.vars[1:] {
		n := f.a.names[id]
		if n.path == "" || n.role != 0 {
			continue
		}
		if _, ok := n.v.Type().Underlying().(*types.Pointer); !ok {
			continue // part of a value
		}
		if keep.base == n.v && keep.path == n.path {
			continue
		}
		if f.a.hit(zTerm{n.v, n.path}, keys) {
			dead[id] = true
		}
	}
	z.forgetAll(dead)
	if keys["bytes"] {
		f.killBytes(z)
	}
}

func (f *zFunc) killBytes(z *zone) {
	for l := range z.locs {
		t := f.typeOf(f.a.names[l.content])
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			continue
		}
		delete(z.locs, l)
	}
	for v, l := range z.from {
		if _, ok := z.locs[l]; !ok {
			delete(z.from, v)
		}
	}
}

func termPath(p string) string {
	if p == "" {
		return "*"
	}
	return p
}

// load gives v the value of a term
func (f *zFunc) load(z *zone, v ssa.Value, base ssa.Value, path string) bool {
	a := f.a
	if _, ok := v.Type().Underlying().(*types.Struct); ok {
		pre := path
		if pre == "*" {
			pre = ""
		}
		type cp struct {
			dst int32
			src zName
		}
		var cs []cp
		for _, id := range z.vars[1:] {
			n := a.names[id]
			if n.v == base && n.role == 0 && len(n.path) > len(pre) && n.path != "*" && n.path[:len(pre)] == pre && n.path[len(pre)] == '.' {
				cs = append(cs, cp{a.id(zName{v: v, path: n.path[len(pre):], kind: n.kind}), n})
			}
		}
		for _, c := range cs {
			if !f.copyName(z, c.dst, c.src) {
				return false
			}
		}
		return true
	}
	for _, k := range zKinds(v.Type()) {
		src := zName{v: base, path: path, kind: k}
		if !f.copyName(z, a.id(zName{v: v, kind: k}), src) {
			return false
		}
		if k == 'c' {
			z.le(a.id(zName{v: v, kind: 'l'}), a.id(zName{v: v, kind: 'c'}), 0)
		}
		if k == 'l' {
			id, dst := a.id(src), a.id(zName{v: v, kind: k})
			if c, ok := z.cont[id]; ok {
				z.cont[dst] = c
			} else {
				f.freshContent(z, v, dst)
				z.cont[id] = z.cont[dst]
			}
		}
	}
	return true
}

// freshContent gives a slice or string contents of its own
func (f *zFunc) freshContent(z *zone, v ssa.Value, dst int32) {
	c := f.a.id(zName{v: v, kind: 'C'})
	for l := range z.locs {
		if l.content == c {
			delete(z.locs, l)
		}
	}
	for w, l := range z.from {
		if l.content == c {
			delete(z.from, w)
		}
	}
	for w, k := range z.cont {
		if k == c {
			delete(z.cont, w)
		}
	}
	z.cont[dst] = c
}

// readByte gives v the value at an index of a slice or string whose contents may be known
func (f *zFunc) readByte(z *zone, v, slice, index ssa.Value) bool {
	a := f.a
	id := a.val(v)
	z.add(id)
	if !a.typeRange(z, id, 'v', v.Type()) {
		return false
	}
	if !isByte(v.Type()) {
		return true
	}
	if z.ix(a.len_(slice)) < 0 {
		return true
	}
	c, ok := z.cont[a.len_(slice)]
	if !ok {
		f.freshContent(z, slice, a.len_(slice))
		c = z.cont[a.len_(slice)]
	}
	x, off := f.num(z, index)
	l, s, known := z.look(c, x, off)
	if !known {
		l, s = zLoc{c, x, off}, allBytes
		z.locs[l] = s
	}
	z.from[id] = l
	return z.restrict(id, s)
}

// step interprets an instruction that isn't a call or the end of a block
func (f *zFunc) step(in ssa.Instruction, z *zone) bool {
	a := f.a
	v, isVal := in.(ssa.Value)
	if isVal {
		f.def(z, v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		f.zeroTerms(z, x, "", x.Type().Underlying().(*types.Pointer).Elem(), 0)
		return true
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice && isByte(x.Type()) {
					return f.readByte(z, x, ia.X, ia.Index)
				}
			}
			base, path := zAddr(x.X)
			if g, ok := base.(*ssa.Global); ok && path == "" {
				if n, ok := a.fixed[g]; ok {
					if !f.havoc(z, x) {
						return false
					}
					z.le(a.nn(x), 0, 1)
					return z.eq(a.len_(x), 0, n) && z.eq(a.nn(x), 0, 1)
				}
				if a.nonNil[g] {
					return z.eq(a.nn(x), 0, 1)
				}
			}
			return f.load(z, x, base, termPath(path))
		case token.SUB:
			n, c := f.num(z, x.X)
			id := a.val(x)
			z.add(id)
			if n == 0 {
				return z.eq(id, 0, -c)
			}
			return z.diff(id, 0, n) && f.clip(z, x, nil)
		case token.NOT:
			n, _ := f.num(z, x.X)
			id := a.val(x)
			if c, ok := z.isConst(n); ok {
				return z.eq(id, 0, 1-c)
			}
		}
		return f.havoc(z, x)
	case *ssa.BinOp:
		return f.binop(z, x)
	case *ssa.Convert:
		return f.convert(z, x, x.X)
	case *ssa.ChangeType:
		for _, k := range zKinds(x.Type()) {
			if !f.copyOperand(z, a.id(zName{v: x, kind: k}), x.X, k) {
				return false
			}
		}
		return true
	case *ssa.ChangeInterface:
		return f.copyOperand(z, a.nn(x), x.X, 'n')
	case *ssa.MakeInterface:
		return z.eq(a.nn(x), 0, 1)
	case *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan:
		return z.eq(a.nn(v), 0, 1)
	case *ssa.MakeSlice:
		n, c := f.num(z, x.Len)
		m, d := f.num(z, x.Cap)
		id, cp := a.len_(x), a.id(zName{v: x, kind: 'c'})
		lo := -z.get(0, n) + c
		f.oblige(in, "make", exprOf(f, x), lo >= 0 && z.get(n, m) <= d-c, "the length of the new slice might be negative or more than its capacity")
		ok := z.eq(id, n, c) && z.eq(cp, m, d) && z.eq(a.nn(x), 0, 1) && z.le(0, id, 0) && z.le(id, cp, 0)
		if ok {
			f.freshContent(z, x, id)
		}
		return ok
	case *ssa.Slice:
		return f.slice(z, x)
	case *ssa.IndexAddr:
		return f.index(z, in, x.X, x.Index)
	case *ssa.Index:
		if !f.index(z, in, x.X, x.Index) {
			return false
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return f.readByte(z, x, x.X, x.Index)
		}
		return f.havoc(z, x)
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return f.index(z, in, x.X, x.Index) && f.readByte(z, x, x.X, x.Index)
		}
		if x.CommaOk {
			return true
		}
		return f.havoc(z, x)
	case *ssa.Field:
		base, path := zField(x)
		return f.load(z, x, base, path)
	case *ssa.FieldAddr:
		return true
	case *ssa.Extract:
		return f.extract(z, x)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			f.oblige(in, "type assertion", x.AssertedType.String(), f.surelyIs(x), "nothing shows that the value has this type")
			return f.havoc(z, x)
		}
		return true
	case *ssa.Store:
		return f.store(z, x)
	case *ssa.MapUpdate:
		return true
	}
	if isVal {
		return f.havoc(z, v)
	}
	return true
}

// zeroTerms: memory that was just allocated
func (f *zFunc) zeroTerms(z *zone, base ssa.Value, path string, t types.Type, depth int) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if depth > 2 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f.zeroTerms(z, base, path+"."+itoa(i), st.Field(i).Type(), depth+1)
		}
		return
	}
	for _, k := range zKinds(t) {
		z.eq(f.a.id(zName{v: base, path: termPath(path), kind: k}), 0, 0)
	}
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

// index checks an index and remembers that it was in range
func (f *zFunc) index(z *zone, in ssa.Instruction, x, ix ssa.Value) bool {
	n, c := f.num(z, ix)
	l, d := f.length(z, x, 'l')
	low := -z.get(0, n) + c
	ok1, ok2 := low >= 0, z.get(n, l)+c-d <= -1
	if z.get(n, l) >= zInf {
		ok2 = false
	}
	if z.get(0, n) >= zInf {
		ok1 = false
	}
	why := ""
	if !ok1 {
		why = "the index might be negative"
	}
	if !ok2 {
		if why != "" {
			why += ", and "
		}
		why += "the index might be as great as the length, or greater"
	}
	f.oblige(in, "index", exprOf(f, in), ok1 && ok2, why)
	return z.le(0, n, c) && z.le(n, l, d-c-1)
}

func (f *zFunc) slice(z *zone, x *ssa.Slice) bool {
	a := f.a
	_, isStr := x.X.Type().Underlying().(*types.Basic)
	l, ld := f.length(z, x.X, 'l')
	cp, cd := l, ld
	if !isStr {
		cp, cd = f.length(z, x.X, 'c')
	}
	lo, lc := int32(0), int64(0)
	if x.Low != nil {
		lo, lc = f.num(z, x.Low)
	}
	hi, hc := l, ld
	if x.High != nil {
		hi, hc = f.num(z, x.High)
	}
	top, tc := cp, cd
	if x.Max != nil {
		top, tc = f.num(z, x.Max)
	}
	le := func(p int32, pc int64, q int32, qc int64) bool {
		g := z.get(p, q)
		return g < zInf && g+pc-qc <= 0
	}
	why := ""
	if !le(0, 0, lo, lc) {
		why = "the lower bound might be negative"
	} else if !le(lo, lc, hi, hc) {
		why = "the lower bound might be above the upper one"
	} else if x.High != nil && !le(hi, hc, top, tc) {
		why = "the upper bound might be above the length or capacity"
	} else if x.Max != nil && !le(top, tc, cp, cd) {
		why = "the capacity might be above that of the slice"
	}
	f.oblige(x, "slice", exprOf(f, x), why == "", why)
	if !z.le(0, lo, lc) || !z.le(lo, hi, hc-lc) || !z.le(hi, top, tc-hc) {
		return false
	}
	id := a.len_(x)
	z.add(id)
	if !z.le(0, id, 0) {
		return false
	}
	// id = hi + hc - lo - lc
	set := func(id int32, hi int32, hc int64) bool {
		if k, ok := z.isConst(lo); ok {
			return z.eq(id, hi, hc-lc-k)
		}
		t := a.id(zName{v: x, kind: 'v', role: 'p'})
		if hc == lc {
			return z.diff(id, hi, lo)
		}
		ok := z.diff(t, hi, lo) && z.eq(id, t, hc-lc)
		z.forget(t)
		return ok
	}
	if !set(id, hi, hc) {
		return false
	}
	if !isStr {
		cid := a.id(zName{v: x, kind: 'c'})
		z.add(cid)
		if !z.le(id, cid, 0) || !set(cid, top, tc) {
			return false
		}
		nn := a.nn(x)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			z.eq(nn, 0, 1)
		} else {
			f.copyOperand(z, nn, x.X, 'n')
			// nil has no elements
			if g := z.get(0, l); g < 0 {
				z.eq(nn, 0, 1)
			}
		}
	}
	if k, ok := z.isConst(lo); ok && k+lc == 0 {
		if c, ok := z.cont[l]; ok && l != 0 {
			z.cont[id] = c
		}
	} else {
		f.freshContent(z, x, id)
	}
	return true
}

func (f *zFunc) store(z *zone, x *ssa.Store) bool {
	a := f.a
	base, path := zAddr(x.Addr)
	keys := map[string]bool{a.storeKey(x.Addr): true}
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
		_ = ia
		if isByte(x.Val.Type()) {
			keys["bytes"] = true
		}
	}
	tp := termPath(path)
	// the value first: it may be about the memory that changes
	type nv struct{ tmp, dst int32 }
	var set []nv
	if _, isStruct := x.Val.Type().Underlying().(*types.Struct); isStruct {
		if path == "" {
			keys["*"+x.Val.Type().String()] = true
		}
		if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
			f.kill(z, keys, zTerm{})
			f.killPrefix(z, base, path)
			f.zeroTerms(z, base, path, x.Val.Type(), 0)
			return true
		}
		for _, id := range append([]int32{}, z.vars[1:]...) {
			n := a.names[id]
			if n.v == x.Val && n.path != "" && n.role == 0 {
				tmp := a.id(zName{v: base, path: path + n.path, kind: n.kind, role: 'p'})
				f.copyName(z, tmp, n)
				set = append(set, nv{tmp, a.id(zName{v: base, path: path + n.path, kind: n.kind})})
			}
		}
		f.kill(z, keys, zTerm{})
		f.killPrefix(z, base, path)
	} else {
		for _, k := range zKinds(x.Val.Type()) {
			tmp := a.id(zName{v: base, path: tp, kind: k, role: 'p'})
			if !f.copyOperand(z, tmp, x.Val, k) {
				return false
			}
			set = append(set, nv{tmp, a.id(zName{v: base, path: tp, kind: k})})
		}
		f.kill(z, keys, zTerm{base, tp})
		dead := map[int32]bool{}
		for _, s := range set {
			dead[s.dst] = true
		}
		z.forgetAll(dead)
	}
	ren := map[int32]int32{}
	for _, s := range set {
		ren[s.tmp] = s.dst
	}
	if len(ren) > 0 {
		*z = *z.rename(ren)
	}
	return true
}

func (f *zFunc) killPrefix(z *zone, base ssa.Value, path string) {
	dead := map[int32]bool{}
	for _, id := range z.vars[1:] {
		n := f.a.names[id]
		if n.v == base && n.role == 0 && n.path != "" && n.path != "*" && len(n.path) > len(path) && n.path[:len(path)] == path {
			dead[id] = true
		}
	}
	z.forgetAll(dead)
}

func (f *zFunc) extract(z *zone, x *ssa.Extract) bool {
	a := f.a
	switch t := x.Tuple.(type) {
	case *ssa.Call:
		for _, k := range zKinds(x.Type()) {
			src := zName{v: t, role: 't', idx: x.Index, kind: k}
			id := a.id(zName{v: x, kind: k})
			if z.ix(a.id(src)) < 0 {
				z.add(id)
				if !a.typeRange(z, id, k, x.Type()) {
					return false
				}
				continue
			}
			if !f.copyName(z, id, src) {
				return false
			}
		}
		return true
	case *ssa.Next:
		if !f.havoc(z, x) {
			return false
		}
		if x.Index == 1 && t.IsString {
			id := a.val(x)
			if !z.le(0, id, 0) {
				return false
			}
			if x.Block() != t.Block() {
				if r, ok := t.Iter.(*ssa.Range); ok {
					l, d := f.length(z, r.X, 'l')
					return z.le(id, l, d-1)
				}
			}
		}
		return true
	}
	return f.havoc(z, x)
}

func exprOf(f *zFunc, in ssa.Instruction) string { return f.a.p.exprAt(in) }

// clip gives up on results that may not fit their type
func (f *zFunc) clip(z *zone, x ssa.Value, exact func() bool) bool {
	b, ok := x.Type().Underlying().(*types.Basic)
	if !ok {
		return true
	}
	lo, hi := basicRange(b)
	id := f.a.val(x)
	l, h := z.bounds(id)
	if l >= lo && h <= hi {
		return true
	}
	if lo == -zInf && hi == zInf || b.Kind() == types.Int64 {
		return true // counters of 64 bits don't overflow
	}
	if lo == 0 && hi == zInf && l >= 0 {
		return true
	}
	z.forget(id)
	z.add(id)
	return f.a.typeRange(z, id, 'v', x.Type())
}

func (f *zFunc) binop(z *zone, x *ssa.BinOp) bool {
	a := f.a
	id := a.val(x)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		z.add(id)
		if !z.le(0, id, 0) || !z.le(id, 0, 1) {
			return false
		}
		t, e := z.clone(), z.clone()
		can := f.compare(t, x, true)
		cannot := f.compare(e, x, false)
		switch {
		case !can && !cannot:
			return false
		case !can:
			return z.eq(id, 0, 0)
		case !cannot:
			return z.eq(id, 0, 1)
		}
		return true
	}
	bt, ok := x.Type().Underlying().(*types.Basic)
	if !ok {
		return true
	}
	if bt.Info()&types.IsString != 0 {
		n, c := f.length(z, x.X, 'l')
		m, d := f.length(z, x.Y, 'l')
		l := a.len_(x)
		z.add(l)
		if !z.le(0, l, 0) {
			return false
		}
		return f.plus(z, l, n, c, m, d, x)
	}
	if bt.Info()&types.IsInteger == 0 {
		return true
	}
	z.add(id)
	n, c := f.num(z, x.X)
	m, d := f.num(z, x.Y)
	xl, xh := z.bounds(n)
	yl, yh := z.bounds(m)
	add := func(v, k int64) int64 {
		if v >= zInf {
			return zInf
		}
		if v <= -zInf {
			return -zInf
		}
		return v + k
	}
	xl, xh, yl, yh = add(xl, c), add(xh, c), add(yl, d), add(yh, d)
	rng := func(lo, hi int64) bool {
		if hi < zInf && !z.le(id, 0, hi) {
			return false
		}
		if lo > -zInf && !z.le(0, id, -lo) {
			return false
		}
		return true
	}
	ok = true
	switch x.Op {
	case token.ADD:
		ok = f.plus(z, id, n, c, m, d, x)
	case token.SUB:
		unsigned := bt.Info()&types.IsUnsigned != 0
		if unsigned {
			if g := z.get(m, n); g >= zInf || g+d-c > 0 { // might wrap around
				return a.typeRange(z, id, 'v', x.Type())
			}
		}
		if k, isC := z.isConst(m); isC {
			ok = z.eq(id, n, c-d-k)
		} else if c == d {
			ok = z.diff(id, n, m)
		} else {
			t := a.id(zName{v: x, kind: 'v', role: 'p'})
			ok = z.diff(t, n, m) && z.eq(id, t, c-d)
			z.forget(t)
		}
	case token.MUL:
		if xl > -1<<30 && xh < 1<<30 && yl > -1<<30 && yh < 1<<30 {
			lo, hi := xl*yl, xl*yl
			for _, v := range []int64{xl * yh, xh * yl, xh * yh} {
				if v < lo {
					lo = v
				}
				if v > hi {
					hi = v
				}
			}
			ok = rng(lo, hi)
		} else if xl >= 0 && yl >= 0 {
			ok = rng(0, zInf)
		}
	case token.QUO, token.REM:
		f.oblige(x, "division", exprOf(f, x), yl > 0 || yh < 0, "the divisor might be zero")
		if x.Op == token.REM {
			if yl > 0 && yh < zInf && xl >= 0 {
				ok = rng(0, yh-1) && z.le(id, n, c)
			} else if yl > 0 && yh < zInf {
				ok = rng(-(yh - 1), yh-1)
			}
		} else if xl >= 0 && yl >= 1 {
			ok = rng(0, xh) && z.le(id, n, c)
			if yl == yh && xh < zInf {
				ok = ok && rng(xl/yl, xh/yl)
			}
		}
	case token.AND:
		switch {
		case yl >= 0 && xl >= 0:
			h := xh
			if yh < h {
				h = yh
			}
			ok = rng(0, h)
		case yl >= 0:
			ok = rng(0, yh)
		case xl >= 0:
			ok = rng(0, xh)
		}
	case token.OR, token.XOR:
		if xl >= 0 && yl >= 0 && xh < 1<<40 && yh < 1<<40 {
			h := int64(1)
			for h <= xh || h <= yh {
				h *= 2
			}
			ok = rng(0, h-1)
		}
	case token.AND_NOT:
		if xl >= 0 {
			ok = rng(0, xh)
		}
	case token.SHL, token.SHR:
		if yt, is := x.Y.Type().Underlying().(*types.Basic); is && yt.Info()&types.IsUnsigned == 0 {
			f.oblige(x, "shift", exprOf(f, x), yl >= 0, "the shift count might be negative")
		}
		if x.Op == token.SHR && xl >= 0 {
			h := xh
			if h < zInf && yl > 0 && yl < 63 {
				h >>= uint(yl)
			}
			ok = rng(0, h)
		}
		if x.Op == token.SHL && xl >= 0 && xh < 1<<20 && yh < 30 && yl >= 0 {
			ok = rng(xl<<uint(yl), xh<<uint(yh))
		}
	}
	if !ok {
		return false
	}
	return f.clip(z, x, nil)
}

// plus: id = (n+c) + (m+d)
func (f *zFunc) plus(z *zone, id, n int32, c int64, m int32, d int64, x ssa.Value) bool {
	if k, ok := z.isConst(m); ok {
		return z.eq(id, n, c+d+k)
	}
	if k, ok := z.isConst(n); ok {
		return z.eq(id, m, c+d+k)
	}
	if c+d == 0 {
		return z.sum(id, n, m)
	}
	t := f.a.id(zName{v: x, kind: 'v', role: 'p'})
	ok := z.sum(t, n, m) && z.eq(id, t, c+d)
	z.forget(t)
	return ok
}

func (f *zFunc) convert(z *zone, v ssa.Value, x ssa.Value) bool {
	a := f.a
	from, okF := x.Type().Underlying().(*types.Basic)
	to, okT := v.Type().Underlying().(*types.Basic)
	if okF && okT && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 {
		n, c := f.num(z, x)
		lo, hi := z.bounds(n)
		tl, th := basicRange(to)
		if lo > -zInf {
			lo += c
		}
		if hi < zInf {
			hi += c
		}
		same := lo >= tl && hi <= th
		if th == zInf && tl == 0 && lo >= 0 { // to a 64-bit unsigned type
			same = true
		}
		if th == zInf && tl == -zInf && (hi < zInf || from.Info()&types.IsUnsigned == 0) {
			same = true
		}
		if same {
			id := a.val(v)
			if !z.eq(id, n, c) {
				return false
			}
			if s, ok := z.sets[n]; ok && n != 0 {
				z.sets[id] = s
				if l, ok := z.from[n]; ok {
					z.from[id] = l
				}
			}
			return true
		}
		return f.havoc(z, v)
	}
	if !f.havoc(z, v) {
		return false
	}
	hasLen := func(t types.Type) byte {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return 's'
			}
		case *types.Slice:
			if isByte(u.Elem()) {
				return 'b'
			}
			return 'r'
		}
		return 0
	}
	switch hasLen(v.Type()) {
	case 's', 'b', 'r':
		src := hasLen(x.Type())
		if src == 0 {
			return z.le(0, a.len_(v), -1) && z.le(a.len_(v), 0, 4)
		}
		l, c := f.length(z, x, 'l')
		if src == 'r' || hasLen(v.Type()) == 'r' {
			if hasLen(v.Type()) == 'r' {
				return z.le(a.len_(v), l, c)
			}
			return z.le(l, a.len_(v), -c)
		}
		return z.eq(a.len_(v), l, c)
	}
	return true
}

// assume refines the state with a condition
func (f *zFunc) assume(z *zone, cond ssa.Value, truth bool) bool {
	if c, ok := cond.(*ssa.Const); ok {
		n, _ := constInt(c)
		return (n == 1) == truth
	}
	want := int64(0)
	if truth {
		want = 1
	}
	id := f.a.val(cond)
	if !z.eq(id, 0, want) {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.assume(z, x.X, !truth)
		}
	case *ssa.BinOp:
		return f.compare(z, x, truth)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Pkg == nil && g.Origin() == nil {
			return true
		}
		pkg := ""
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		}
		switch pkg + "." + g.Name() {
		case "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasPrefix", "strings.HasSuffix", "bytes.Contains", "strings.Contains":
			if truth && g.Signature.Recv() == nil {
				n, c := f.length(z, x.Common().Args[0], 'l')
				m, d := f.length(z, x.Common().Args[1], 'l')
				return z.le(m, n, c-d)
			}
		case "bytes.Equal":
			if truth && g.Signature.Recv() == nil {
				n, c := f.length(z, x.Common().Args[0], 'l')
				m, d := f.length(z, x.Common().Args[1], 'l')
				return z.eq(n, m, d-c)
			}
		}
		if pkg == "errors" && g.Name() == "Is" && truth {
			if u, ok := x.Common().Args[1].(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok && (f.a.nonNil[gl] || gl.Pkg != f.a.p.pkg) {
					return z.eq(f.a.nn(x.Common().Args[0]), 0, 1)
				}
			}
		}
	}
	return true
}

func (f *zFunc) compare(z *zone, x *ssa.BinOp, truth bool) bool {
	a := f.a
	op := x.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	isNil := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil
	}
	t := x.X.Type().Underlying()
	if isNil(x.X) || isNil(x.Y) {
		v := x.X
		if isNil(v) {
			v = x.Y
		}
		if isNil(v) {
			return op == token.EQL
		}
		ks := zKinds(v.Type())
		if len(ks) == 0 || ks[len(ks)-1] != 'n' {
			return true
		}
		id := a.nn(v)
		if z.ix(id) < 0 {
			if !f.copyOperand(z, id, v, 'n') {
				return false
			}
			if z.ix(id) < 0 {
				z.add(id)
				a.typeRange(z, id, 'n', v.Type())
			}
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
			if !z.eq(id, 0, 1) {
				return false
			}
		}
		if op == token.EQL {
			if !z.eq(id, 0, 0) {
				return false
			}
			if _, ok := t.(*types.Slice); ok && z.ix(a.len_(v)) >= 0 {
				return z.eq(a.len_(v), 0, 0)
			}
			return true
		}
		return z.eq(id, 0, 1)
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return true
	}
	if b.Info()&types.IsString != 0 {
		n, c := f.length(z, x.X, 'l')
		m, d := f.length(z, x.Y, 'l')
		if op == token.EQL {
			return z.eq(n, m, d-c)
		}
		if op == token.NEQ {
			// not equal to the empty string
			for _, p := range []struct {
				v ssa.Value
				n int32
				c int64
			}{{x.X, m, d}, {x.Y, n, c}} {
				if cc, ok := p.v.(*ssa.Const); ok && cc.Value != nil && constant.StringVal(cc.Value) == "" {
					return z.le(0, p.n, p.c-1)
				}
			}
		}
		return true
	}
	if b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return true
	}
	n, c := f.num(z, x.X)
	m, d := f.num(z, x.Y)
	// n + c OP m + d
	switch op {
	case token.EQL:
		if !z.eq(n, m, d-c) {
			return false
		}
	case token.NEQ:
		g, h := z.get(n, m), z.get(m, n)
		if g == d-c && h == c-d {
			return false
		}
		if g == d-c && !z.le(n, m, d-c-1) {
			return false
		}
		if h == c-d && !z.le(m, n, c-d-1) {
			return false
		}
	case token.LSS:
		if !z.le(n, m, d-c-1) {
			return false
		}
	case token.LEQ:
		if !z.le(n, m, d-c) {
			return false
		}
	case token.GTR:
		if !z.le(m, n, c-d-1) {
			return false
		}
	case token.GEQ:
		if !z.le(m, n, c-d) {
			return false
		}
	}
	if !isByte(t) && !f.byteLike(z, n) && !f.byteLike(z, m) {
		return true
	}
	// sets of bytes
	rel := func(v int32, c int64, op token.Token, k int64) bool {
		if v == 0 {
			return true
		}
		var s byteSet
		for i := 0; i < 256; i++ {
			w := int64(i) + c
			ok := false
			switch op {
			case token.EQL:
				ok = w == k
			case token.NEQ:
				ok = w != k
			case token.LSS:
				ok = w < k
			case token.LEQ:
				ok = w <= k
			case token.GTR:
				ok = w > k
			case token.GEQ:
				ok = w >= k
			}
			if ok {
				s.add(i)
			}
		}
		return z.restrict(v, s)
	}
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	if k, ok := z.isConst(m); ok && f.byteLike(z, n) {
		if !rel(n, c, op, k+d) {
			return false
		}
	}
	if k, ok := z.isConst(n); ok && f.byteLike(z, m) {
		if !rel(m, d, flip[op], k+c) {
			return false
		}
	}
	if op == token.EQL && c == d && f.byteLike(z, n) && f.byteLike(z, m) && n != 0 && m != 0 {
		s, ok := z.sets[n]
		if !ok {
			s = allBytes
		}
		t, ok := z.sets[m]
		if !ok {
			t = allBytes
		}
		return z.restrict(n, s.and(t)) && z.restrict(m, s.and(t))
	}
	return true
}

// byteLike: a variable whose values are bytes
func (f *zFunc) byteLike(z *zone, v int32) bool {
	if v == 0 {
		return false
	}
	if _, ok := z.sets[v]; ok {
		return true
	}
	lo, hi := z.bounds(v)
	return lo >= 0 && hi <= 255 && isByte(f.typeOf2(v))
}

func (f *zFunc) typeOf2(v int32) types.Type {
	n := f.a.names[v]
	if n.v == nil || n.kind != 'v' || n.role != 0 {
		return types.Typ[types.Int]
	}
	return f.typeOf(n)
}

// surelyIs: a type assertion that can't fail
func (f *zFunc) surelyIs(x *ssa.TypeAssert) bool {
	if m, ok := x.X.(*ssa.MakeInterface); ok {
		return types.Identical(m.X.Type(), x.AssertedType)
	}
	return false
}

// ---- calls

var zWatch = os.Getenv("ZWATCH")

func (f *zFunc) call(in ssa.CallInstruction, s *zState) []*zState {
	a, c, z := f.a, in.Common(), s.z
	v, _ := in.(ssa.Value)
	if d, ok := in.(*ssa.Defer); ok {
		v = nil
		_ = d
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if v != nil {
			f.def(z, v)
		}
		if !f.builtin(z, in, v, b) {
			return nil
		}
		return []*zState{s}
	}
	if a.final && !zMuted && a.onCall != nil {
		a.onCall(f, in, z)
	}
	g := c.StaticCallee()
	if g != nil && a.p.isOurs(g) {
		return f.callOurs(in, v, a.get(g), s)
	}
	mods := map[string]bool{}
	a.callMods(c, mods)
	for _, t := range a.targets(c) {
		if g == nil {
			for k := range a.modsOf[t] {
				mods[k] = true
			}
			if !zMuted {
				tf := a.get(t)
				y := newZone()
				tf.top(y)
				a.contribute(tf, y)
			}
		}
	}
	for _, arg := range c.Args {
		for _, t := range closuresOf(arg) {
			for k := range a.modsOf[t] {
				mods[k] = true
			}
			if !zMuted && a.p.isOurs(t) {
				tf := a.get(t)
				y := newZone()
				tf.top(y)
				a.contribute(tf, y)
			}
		}
	}
	if v != nil {
		f.def(z, v)
	}
	f.kill(z, mods, zTerm{})
	if v != nil {
		if t, ok := v.Type().(*types.Tuple); ok {
			for i := 0; i < t.Len(); i++ {
				for _, k := range zKinds(t.At(i).Type()) {
					id := a.id(zName{v: v, role: 't', idx: i, kind: k})
					z.add(id)
					if !a.typeRange(z, id, k, t.At(i).Type()) {
						return nil
					}
				}
			}
		} else if !f.havoc(z, v) {
			return nil
		}
		if g != nil && !f.library(z, v, g, c) {
			return nil
		}
	}
	return []*zState{s}
}

func (f *zFunc) callOurs(in ssa.CallInstruction, v ssa.Value, g *zFunc, s *zState) []*zState {
	a, c, z := f.a, in.Common(), s.z
	if v != nil {
		f.def(z, v)
	}
	g.deps[f] = true
	// the callee's view of this state
	type link struct {
		n   zName // callee's
		tmp int32
		act zName // the caller's name of it, if it's memory
	}
	var links []link
	ren := map[int32]int32{}
	for _, n := range g.foot {
		pi := -1
		for i, p := range g.fn.Params {
			if p == n.v {
				pi = i
			}
		}
		arg := c.Args[pi]
		x := n
		x.role = 'x'
		l := link{n: n, tmp: a.id(x)}
		if n.path == "" {
			if !f.copyOperand(z, l.tmp, arg, n.kind) {
				return nil
			}
		} else {
			base, p := zArg(arg)
			l.act = zName{v: base, path: joinPath(p, n.path), kind: n.kind}
			if _, isC := base.(*ssa.Const); isC {
				z.add(l.tmp)
				a.typeRange(z, l.tmp, n.kind, g.typeOf(n))
			} else if !f.copyName(z, l.tmp, l.act) {
				return nil
			}
		}
		links = append(links, l)
		ren[l.tmp] = a.id(n)
	}
	if !zMuted {
		e := z.clone()
		dead := map[int32]bool{}
		for _, w := range e.vars[1:] {
			if ren[w] == 0 {
				dead[w] = true
			}
		}
		conts := map[int32]int32{}
		for _, l := range links {
			if l.n.kind == 'l' {
				if cc, ok := e.cont[l.tmp]; ok {
					cn := l.n
					cn.kind = 'C'
					if _, dup := conts[cc]; !dup {
						conts[cc] = a.id(cn)
					}
				}
			}
		}
		e.forgetAll(dead)
		locs := e.locs
		e.locs, e.from, e.cont = map[zLoc]byteSet{}, map[int32]zLoc{}, map[int32]int32{}
		for l, set := range locs {
			if n, ok := conts[l.content]; ok && (ren[l.idx] != 0 || l.idx == 0) {
				e.locs[zLoc{n, l.idx, l.off}] = set
			}
		}
		e = e.rename(ren)
		if zWatch != "" && a.final && strings.HasSuffix(g.fn.String(), zWatch) {
			println("WATCH", a.p.pos(instrPos(in)), a.dump(e))
		}
		a.contribute(g, e)
		if a.final {
			f.recursion(in, g, z)
		}
	}
	var out []*zState
	keys := sortedKeys(g.exits)
	for _, key := range keys {
		e := g.exits[key]
		to := map[int32]int32{}
		var drop []int32
		back := map[int32]int32{}
		taken := map[zName]bool{}
		gone := map[int32]bool{}
		for _, l := range links {
			en, y := l.n, l.n
			en.role, y.role = 'e', 'y'
			to[a.id(en)] = l.tmp
			to[a.id(l.n)] = a.id(y)
			drop = append(drop, l.tmp)
			if l.n.path == "" || l.act.v == nil || !a.hit(zTerm{l.act.v, l.act.path}, g.mods) {
				drop = append(drop, a.id(y))
				continue
			}
			if _, isC := l.act.v.(*ssa.Const); isC || taken[l.act] {
				drop = append(drop, a.id(y))
				continue
			}
			taken[l.act] = true
			back[a.id(y)] = a.id(l.act)
			gone[a.id(l.act)] = true
		}
		rs := g.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			for _, k := range zKinds(rs.At(i).Type()) {
				r := a.id(zName{role: 'r', idx: i, kind: k, base: g})
				switch {
				case v == nil:
					t := a.id(zName{v: g.fn, role: 'y', idx: i, kind: k})
					to[r] = t
					drop = append(drop, t)
				case rs.Len() == 1:
					to[r] = a.id(zName{v: v, kind: k})
				default:
					to[r] = a.id(zName{v: v, role: 't', idx: i, kind: k})
				}
			}
		}
		t := s.clone()
		if !t.z.meet(e.rename(to)) {
			continue
		}
		// memory that the callee can change and that isn't in its footprint
		dead := map[int32]bool{}
		for _, w := range t.z.vars[1:] {
			n := a.names[w]
			if n.path == "" || n.role != 0 || gone[w] {
				continue
			}
			if _, ok := n.v.Type().Underlying().(*types.Pointer); ok && a.hit(zTerm{n.v, n.path}, g.mods) {
				dead[w] = true
			}
		}
		for w := range gone {
			dead[w] = true
		}
		for _, w := range drop {
			dead[w] = true
		}
		t.z.forgetAll(dead)
		if g.mods["bytes"] {
			f.killBytes(t.z)
		}
		t.z = t.z.rename(back)
		out = append(out, t)
	}
	return out
}

// recursion notes how far a call that may lead back here has got since the entry
func (f *zFunc) recursion(in ssa.CallInstruction, g *zFunc, z *zone) {
	m := f.a.recs[in]
	first := m == nil
	if first {
		m = map[zName]*zProgress{}
		f.a.recs[in] = m
	}
	for _, n := range f.foot {
		if n.kind == 'n' || n.kind == 'c' {
			continue
		}
		e := n
		e.role = 'e'
		id, ge := f.a.id(n), f.a.id(e)
		if z.ix(id) < 0 {
			continue
		}
		lo := -z.get(ge, id)
		hi := z.get(id, ge)
		p := m[n]
		if p == nil {
			if !first {
				lo, hi = -zInf, zInf
			}
			p = &zProgress{name: n, lo: lo, hi: hi}
			m[n] = p
		}
		if lo < p.lo {
			p.lo = lo
		}
		if hi > p.hi {
			p.hi = hi
		}
		up := false
		for _, w := range z.vars {
			wn := f.a.names[w]
			if (w == 0 || wn.role == 'e' && wn.kind == 'l' || wn.path != "" && wn.kind == 'l') && w != id && z.get(id, w) < zInf {
				up = true
				p.above = f.a.show(w)
			}
		}
		p.noUp = p.noUp || !up
	}
}

func (f *zFunc) builtin(z *zone, in ssa.CallInstruction, v ssa.Value, b *ssa.Builtin) bool {
	a, args := f.a, in.Common().Args
	switch b.Name() {
	case "len", "cap":
		id := a.val(v)
		switch args[0].Type().Underlying().(type) {
		case *types.Slice, *types.Basic, *types.Array, *types.Pointer:
			k := byte('l')
			if b.Name() == "cap" {
				k = 'c'
			}
			n, c := f.length(z, args[0], k)
			return z.eq(id, n, c)
		}
		z.add(id)
		return z.le(0, id, 0)
	case "append":
		n, c := f.length(z, args[0], 'l')
		var m int32
		var d int64
		if len(args) > 1 {
			m, d = f.length(z, args[1], 'l')
		}
		id, cid := a.len_(v), a.id(zName{v: v, kind: 'c'})
		z.add(id)
		z.add(cid)
		if !f.plus(z, id, n, c, m, d, v) || !z.le(0, id, 0) || !z.le(id, cid, 0) {
			return false
		}
		nn := a.nn(v)
		z.add(nn)
		a.typeRange(z, nn, 'n', v.Type())
		if lo := -z.get(0, id); lo >= 1 {
			z.eq(nn, 0, 1)
		}
		if s, ok := v.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			f.killBytes(z)
		}
		f.freshContent(z, v, id)
		return true
	case "copy":
		if s, ok := args[0].Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			f.killBytes(z)
		}
		if v == nil {
			return true
		}
		id := a.val(v)
		n, c := f.length(z, args[0], 'l')
		m, d := f.length(z, args[1], 'l')
		z.add(id)
		return z.le(0, id, 0) && z.le(id, n, c) && z.le(id, m, d)
	case "min", "max":
		if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			return f.havoc(z, v)
		}
		id := a.val(v)
		z.add(id)
		if !a.typeRange(z, id, 'v', v.Type()) {
			return false
		}
		lo, hi := int64(zInf), int64(-zInf)
		for _, x := range args {
			n, c := f.num(z, x)
			l, h := z.bounds(n)
			if b.Name() == "min" {
				if !z.le(id, n, c) {
					return false
				}
				if l > -zInf {
					l += c
				}
				if l < lo {
					lo = l
				}
			} else {
				if !z.le(n, id, -c) {
					return false
				}
				if h < zInf {
					h += c
				}
				if h > hi {
					hi = h
				}
			}
		}
		if b.Name() == "min" {
			return lo <= -zInf || z.le(0, id, -lo)
		}
		return hi >= zInf || z.le(id, 0, hi)
	case "panic":
		f.oblige(in, "panic", "panic", false, "it can be reached")
		return false
	}
	if v != nil {
		return f.havoc(z, v)
	}
	return true
}

// library says what some functions of the standard library return
func (f *zFunc) library(z *zone, v ssa.Value, g *ssa.Function, c *ssa.CallCommon) bool {
	a := f.a
	if g.Pkg == nil && g.Origin() == nil {
		return true
	}
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if g.Origin().Pkg != nil {
		pkg = g.Origin().Pkg.Pkg.Path()
	}
	name := g.Name()
	if g.Origin() != nil {
		name = g.Origin().Name()
	}
	if g.Signature.Recv() != nil {
		name = "." + name
	}
	res := func(i int, k byte) int32 {
		if _, ok := v.Type().(*types.Tuple); ok {
			return a.id(zName{v: v, role: 't', idx: i, kind: k})
		}
		return a.id(zName{v: v, kind: k})
	}
	switch pkg + "." + name {
	case "errors.New", "fmt.Errorf":
		return z.eq(a.nn(v), 0, 1)
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString":
		l, d := f.length(z, c.Args[0], 'l')
		sz := res(1, 'v')
		if !z.le(0, sz, 0) || !z.le(sz, 0, 4) || !z.le(sz, l, d) {
			return false
		}
		if lo, _ := z.bounds(l); lo+d >= 1 {
			if !z.le(0, sz, -1) {
				return false
			}
		}
		return z.le(0, res(0, 'v'), 0) && z.le(res(0, 'v'), 0, 0x10FFFF)
	case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
		l, d := f.length(z, c.Args[0], 'l')
		return z.le(0, res(0, 'v'), 0) && z.le(res(0, 'v'), l, d)
	case "unicode/utf8.RuneLen":
		return z.le(0, res(0, 'v'), 1) && z.le(res(0, 'v'), 0, 4)
	case "unicode/utf8.EncodeRune":
		return z.le(0, res(0, 'v'), -1) && z.le(res(0, 'v'), 0, 4)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.IndexAny", "bytes.Index", "bytes.IndexByte", "bytes.LastIndex", "strings.LastIndexByte":
		l, d := f.length(z, c.Args[0], 'l')
		id := res(0, 'v')
		return z.le(0, id, 1) && (z.get(l, 0) == 0 || z.le(id, l, d))
	case "strings.Split", "bytes.Split":
		return z.le(0, res(0, 'l'), 0)
	case "sort.Search":
		n, d := f.num(z, c.Args[0])
		return z.le(0, res(0, 'v'), 0) && z.le(res(0, 'v'), n, d)
	case "unicode/utf16.Decode":
		l, d := f.length(z, c.Args[0], 'l')
		return z.le(res(0, 'l'), l, d)
	case "math/bits.TrailingZeros64", "math/bits.LeadingZeros64", "math/bits.Len64", "math/bits.OnesCount64":
		return z.le(0, res(0, 'v'), 0) && z.le(res(0, 'v'), 0, 64)
	case "math/bits.TrailingZeros32", "math/bits.LeadingZeros32", "math/bits.Len32", "math/bits.OnesCount32":
		return z.le(0, res(0, 'v'), 0) && z.le(res(0, 'v'), 0, 32)
	case "slices.Clone", "bytes.Clone":
		l, d := f.length(z, c.Args[0], 'l')
		return z.eq(res(0, 'l'), l, d)
	}
	return true
}
