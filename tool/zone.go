package main

import (
	"math"
	"sort"
)

// A numeric abstract state: difference bounds (x - y <= c) between numbers, equations of the form a + b = c + k, sets
// of possible values of bytes, and what is known about the bytes at some positions of byte slices that aren't written.
// Variable 0 is the constant zero.

const zInf = math.MaxInt64 / 4

type zEq struct {
	a, b, c int32
	k       int64
}

type byteSet [4]uint64

var allBytes = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (s byteSet) has(b int) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s *byteSet) add(b int)     { s[b>>6] |= 1 << (b & 63) }
func (s byteSet) and(t byteSet) byteSet {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s byteSet) or(t byteSet) byteSet {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s byteSet) not() byteSet {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s byteSet) empty() bool { return s == byteSet{} }
func (s byteSet) bounds() (lo, hi int) {
	lo, hi = 256, -1
	for b := 0; b < 256; b++ {
		if s.has(b) {
			if lo > b {
				lo = b
			}
			hi = b
		}
	}
	return
}

// zLoc: the byte at position idx+off of the slice whose contents are called content
type zLoc struct {
	content, idx int32
	off          int64
}

type zone struct {
	vars []int32 // sorted, vars[0] == 0
	m    []int64 // m[i*n+j] bounds vars[i]-vars[j]; closed
	eqs  []zEq
	sets map[int32]byteSet
	locs map[zLoc]byteSet
	from map[int32]zLoc // which position a byte was read from
	cont map[int32]int32
}

func newZone() *zone {
	return &zone{vars: []int32{0}, m: []int64{0}, sets: map[int32]byteSet{}, locs: map[zLoc]byteSet{}, from: map[int32]zLoc{}, cont: map[int32]int32{}}
}

func (z *zone) clone() *zone {
	n := &zone{vars: append([]int32{}, z.vars...), m: append([]int64{}, z.m...), eqs: append([]zEq{}, z.eqs...),
		sets: make(map[int32]byteSet, len(z.sets)), locs: make(map[zLoc]byteSet, len(z.locs)), from: make(map[int32]zLoc, len(z.from)), cont: make(map[int32]int32, len(z.cont))}
	for k, v := range z.sets {
		n.sets[k] = v
	}
	for k, v := range z.locs {
		n.locs[k] = v
	}
	for k, v := range z.from {
		n.from[k] = v
	}
	for k, v := range z.cont {
		n.cont[k] = v
	}
	return n
}

func (z *zone) ix(v int32) int {
	lo, hi := 0, len(z.vars)
	for lo < hi {
		m := (lo + hi) / 2
		if z.vars[m] < v {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(z.vars) && z.vars[lo] == v {
		return lo
	}
	return -1
}

// get is an upper bound of x-y
func (z *zone) get(x, y int32) int64 {
	if x == y {
		return 0
	}
	i, j := z.ix(x), z.ix(y)
	if i < 0 || j < 0 {
		return zInf
	}
	return z.m[i*len(z.vars)+j]
}

func (z *zone) bounds(x int32) (lo, hi int64) {
	hi = z.get(x, 0)
	lo = -z.get(0, x)
	return
}

func (z *zone) isConst(x int32) (int64, bool) {
	lo, hi := z.bounds(x)
	return lo, lo == hi && hi < zInf
}

func (z *zone) add(v int32) int {
	if i := z.ix(v); i >= 0 {
		return i
	}
	n := len(z.vars)
	k := sort.Search(n, func(i int) bool { return z.vars[i] > v })
	vars := make([]int32, 0, n+1)
	vars = append(vars, z.vars[:k]...)
	vars = append(vars, v)
	vars = append(vars, z.vars[k:]...)
	m := make([]int64, (n+1)*(n+1))
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			switch {
			case i == j:
				m[i*(n+1)+j] = 0
			case i == k || j == k:
				m[i*(n+1)+j] = zInf
			default:
				oi, oj := i, j
				if oi > k {
					oi--
				}
				if oj > k {
					oj--
				}
				m[i*(n+1)+j] = z.m[oi*n+oj]
			}
		}
	}
	z.vars, z.m = vars, m
	return k
}

func (z *zone) addAll(vs []int32) {
	var all []int32
	i, j := 0, 0
	for i < len(z.vars) || j < len(vs) {
		switch {
		case j == len(vs) || i < len(z.vars) && z.vars[i] < vs[j]:
			all = append(all, z.vars[i])
			i++
		case i == len(z.vars) || vs[j] < z.vars[i]:
			all = append(all, vs[j])
			j++
		default:
			all = append(all, vs[j])
			i++
			j++
		}
	}
	n, o := len(all), len(z.vars)
	m := make([]int64, n*n)
	old := make([]int, n)
	i = 0
	for k, v := range all {
		old[k] = -1
		if i < o && z.vars[i] == v {
			old[k] = i
			i++
		}
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			switch {
			case a == b:
			case old[a] < 0 || old[b] < 0:
				m[a*n+b] = zInf
			default:
				m[a*n+b] = z.m[old[a]*o+old[b]]
			}
		}
	}
	z.vars, z.m = all, m
}

// le adds x - y <= c; false if that is impossible
func (z *zone) le(x, y int32, c int64) bool {
	if c >= zInf {
		return true
	}
	if x == y {
		return c >= 0
	}
	i := z.add(x)
	j := z.add(y)
	i = z.ix(x)
	n := len(z.vars)
	if z.m[i*n+j] <= c {
		return true
	}
	if back := z.m[j*n+i]; back < zInf && back+c < 0 {
		return false
	}
	z.m[i*n+j] = c
	for a := 0; a < n; a++ {
		ai := z.m[a*n+i]
		if ai >= zInf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := z.m[j*n+b]
			if jb >= zInf {
				continue
			}
			if w := ai + c + jb; w < z.m[a*n+b] {
				z.m[a*n+b] = w
			}
		}
	}
	for a := 0; a < n; a++ {
		if z.m[a*n+a] < 0 {
			return false
		}
	}
	return true
}

func (z *zone) eq(x, y int32, c int64) bool { // x = y + c
	if x != y && x != 0 && z.ix(x) < 0 {
		j := z.ix(y)
		if j < 0 {
			z.add(y)
		}
		i := z.add(x)
		j = z.ix(y)
		n := len(z.vars)
		for k := 0; k < n; k++ {
			if k == i {
				continue
			}
			if w := z.m[j*n+k]; w < zInf {
				z.m[i*n+k] = w + c
			}
			if w := z.m[k*n+j]; w < zInf {
				z.m[k*n+i] = w - c
			}
		}
		return true
	}
	return z.le(x, y, c) && z.le(y, x, -c)
}

// equalTo finds another variable that differs from v by a constant: v = w + k
func (z *zone) equalTo(v int32, ok func(int32) bool) (int32, int64, bool) {
	i := z.ix(v)
	if i < 0 {
		return 0, 0, false
	}
	n := len(z.vars)
	for j, w := range z.vars {
		if j == i || !ok(w) {
			continue
		}
		if z.m[i*n+j] < zInf && z.m[i*n+j] == -z.m[j*n+i] {
			return w, z.m[i*n+j], true
		}
	}
	return 0, 0, false
}

func (z *zone) forget(v int32) { z.forgetAll(map[int32]bool{v: true}) }

func (z *zone) forgetAll(dead map[int32]bool) {
	delete(dead, 0)
	if len(dead) == 0 {
		return
	}
	live := func(w int32) bool { return !dead[w] }
	// restate what refers to the variable
	var eqs []zEq
	for _, e := range z.eqs {
		keep := true
		for _, p := range []struct {
			v    *int32
			sign int64
		}{{&e.a, -1}, {&e.b, -1}, {&e.c, 1}} {
			if !dead[*p.v] {
				continue
			}
			w, k, ok := z.equalTo(*p.v, live)
			if !ok {
				keep = false
				break
			}
			*p.v = w
			e.k += p.sign * k
		}
		if keep && e.a != 0 && e.b != 0 {
			eqs = append(eqs, e)
		}
	}
	z.eqs = eqs
	moved := map[zLoc]zLoc{}
	for l, s := range z.locs {
		if !dead[l.idx] {
			continue
		}
		delete(z.locs, l)
		if w, k, ok := z.equalTo(l.idx, live); ok {
			n := zLoc{l.content, w, l.off + k}
			if t, ok := z.locs[n]; ok {
				s = s.and(t)
			}
			z.locs[n] = s
			moved[l] = n
		} else {
			moved[l] = zLoc{}
		}
	}
	for v, l := range z.from {
		if dead[v] {
			delete(z.from, v)
			continue
		}
		if n, ok := moved[l]; ok {
			if n == (zLoc{}) {
				delete(z.from, v)
			} else {
				z.from[v] = n
			}
		}
	}
	for v := range dead {
		delete(z.sets, v)
		delete(z.cont, v)
	}
	var keep []int
	for i, v := range z.vars {
		if !dead[v] {
			keep = append(keep, i)
		}
	}
	if len(keep) == len(z.vars) {
		return
	}
	n := len(z.vars)
	k := len(keep)
	m := make([]int64, k*k)
	vars := make([]int32, k)
	for a, i := range keep {
		vars[a] = z.vars[i]
		for b, j := range keep {
			m[a*k+b] = z.m[i*n+j]
		}
	}
	z.vars, z.m = vars, m
}

// rename replaces variables; nothing may be named twice
func (z *zone) rename(to map[int32]int32) *zone {
	f := func(v int32) int32 {
		if w, ok := to[v]; ok {
			return w
		}
		return v
	}
	n := len(z.vars)
	type pair struct {
		v int32
		i int
	}
	ps := make([]pair, n)
	for i, v := range z.vars {
		ps[i] = pair{f(v), i}
	}
	sort.Slice(ps, func(a, b int) bool { return ps[a].v < ps[b].v })
	out := newZone()
	out.vars = make([]int32, n)
	out.m = make([]int64, n*n)
	for a := range ps {
		out.vars[a] = ps[a].v
		for b := range ps {
			out.m[a*n+b] = z.m[ps[a].i*n+ps[b].i]
		}
	}
	for _, e := range z.eqs {
		out.eqs = append(out.eqs, zEq{f(e.a), f(e.b), f(e.c), e.k})
	}
	for v, s := range z.sets {
		out.sets[f(v)] = s
	}
	for l, s := range z.locs {
		out.locs[zLoc{l.content, f(l.idx), l.off}] = s
	}
	for v, l := range z.from {
		out.from[f(v)] = zLoc{l.content, f(l.idx), l.off}
	}
	for v, c := range z.cont {
		out.cont[f(v)] = c
	}
	return out
}

// meetRaw adds what another state says; variables with the same name are the same
func (z *zone) meet(o *zone) bool {
	z.addAll(o.vars)
	n, zn := len(o.vars), len(z.vars)
	at := make([]int, n)
	for i, v := range o.vars {
		at[i] = z.ix(v)
	}
	for i := range o.vars {
		for j := range o.vars {
			if w := o.m[i*n+j]; w < z.m[at[i]*zn+at[j]] {
				z.m[at[i]*zn+at[j]] = w
			}
		}
	}
	if !z.close() {
		return false
	}
	z.eqs = append(z.eqs, o.eqs...)
	for v, s := range o.sets {
		if t, ok := z.sets[v]; ok {
			s = s.and(t)
		}
		if s.empty() {
			return false
		}
		z.sets[v] = s
	}
	return true
}

// look finds what is known about the byte at idx+off
func (z *zone) look(content, idx int32, off int64) (zLoc, byteSet, bool) {
	if s, ok := z.locs[zLoc{content, idx, off}]; ok {
		return zLoc{content, idx, off}, s, true
	}
	for l, s := range z.locs {
		if l.content == content && z.get(l.idx, idx) == off-l.off && z.get(idx, l.idx) == l.off-off {
			return l, s, true
		}
	}
	return zLoc{}, allBytes, false
}

// restrict narrows the possible values of a byte variable
func (z *zone) restrict(v int32, s byteSet) bool {
	if t, ok := z.sets[v]; ok {
		s = s.and(t)
	}
	if s.empty() {
		return false
	}
	lo, hi := s.bounds()
	if !z.le(v, 0, int64(hi)) || !z.le(0, v, -int64(lo)) {
		return false
	}
	l2, h2 := z.bounds(v)
	for b := 0; b < 256; b++ {
		if int64(b) < l2 || int64(b) > h2 {
			s[b>>6] &^= 1 << (b & 63)
		}
	}
	if s.empty() {
		return false
	}
	z.sets[v] = s
	if l, ok := z.from[v]; ok {
		t, ok := z.locs[l]
		if !ok {
			t = allBytes
		}
		t = t.and(s)
		if t.empty() {
			return false
		}
		z.locs[l] = t
		for w, k := range z.from {
			if k == l && w != v {
				ws, ok := z.sets[w]
				if !ok {
					ws = allBytes
				}
				ws = ws.and(t)
				if ws.empty() {
					return false
				}
				z.sets[w] = ws
				lo, hi := ws.bounds()
				if !z.le(w, 0, int64(hi)) || !z.le(0, w, -int64(lo)) {
					return false
				}
			}
		}
	}
	return true
}

// useEqs gives t = x + y (or x - y) the bounds that follow from the equations
func (z *zone) sum(t, x, y int32) bool {
	ok := true
	le := func(a, b int32, c int64) {
		if ok && c < zInf {
			ok = z.le(a, b, c)
		}
	}
	xl, xh := z.bounds(x)
	yl, yh := z.bounds(y)
	if yh < zInf {
		le(t, x, yh)
	}
	if yl > -zInf {
		le(x, t, -yl)
	}
	if xh < zInf {
		le(t, y, xh)
	}
	if xl > -zInf {
		le(y, t, -xl)
	}
	for _, e := range z.eqs {
		for _, p := range [2][2]int32{{e.a, e.b}, {e.b, e.a}} {
			// a + b = c + k; t - c = (x - a) + (y - b) + k
			u, v := z.get(x, p[0]), z.get(y, p[1])
			if u < zInf && v < zInf {
				le(t, e.c, u+v+e.k)
			}
			u, v = z.get(p[0], x), z.get(p[1], y)
			if u < zInf && v < zInf {
				le(e.c, t, u+v-e.k)
			}
		}
	}
	if ok && x != 0 && y != 0 {
		z.eqs = append(z.eqs, zEq{x, y, t, 0})
	}
	return ok
}

func (z *zone) diff(t, x, y int32) bool { // t = x - y
	ok := true
	le := func(a, b int32, c int64) {
		if ok && c < zInf {
			ok = z.le(a, b, c)
		}
	}
	le(t, 0, z.get(x, y))
	le(0, t, z.get(y, x))
	yl, yh := z.bounds(y)
	if yl > -zInf {
		le(t, x, -yl)
	}
	if yh < zInf {
		le(x, t, yh)
	}
	for _, e := range z.eqs {
		for _, p := range [2][2]int32{{e.a, e.b}, {e.b, e.a}} {
			// a + b = c + k, so c - a = b - k; t - b = (x - c) + (a - y) - k
			u, v := z.get(x, e.c), z.get(p[0], y)
			if u < zInf && v < zInf {
				le(t, p[1], u+v-e.k)
			}
			u, v = z.get(e.c, x), z.get(y, p[0])
			if u < zInf && v < zInf {
				le(p[1], t, u+v+e.k)
			}
		}
	}
	if ok && t != 0 && y != 0 {
		z.eqs = append(z.eqs, zEq{t, y, x, 0})
	}
	return ok
}

// join is an upper bound of the two; with widen, bounds that grew go to the next threshold
func (z *zone) join(o *zone, widen func(old, new int64) int64) *zone {
	out := newZone()
	var vars []int32
	var zi, oi []int
	for i, v := range z.vars {
		if j := o.ix(v); j >= 0 {
			vars = append(vars, v)
			zi = append(zi, i)
			oi = append(oi, j)
		}
	}
	n := len(vars)
	out.vars = vars
	out.m = make([]int64, n*n)
	zn, on := len(z.vars), len(o.vars)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			x, y := z.m[zi[a]*zn+zi[b]], o.m[oi[a]*on+oi[b]]
			if y > x {
				if widen != nil {
					x = widen(x, y)
				} else {
					x = y
				}
			}
			out.m[a*n+b] = x
		}
	}
	if widen != nil {
		out.close()
	}
	for _, e := range z.eqs {
		if out.ix(e.a) < 0 || out.ix(e.b) < 0 || out.ix(e.c) < 0 {
			continue
		}
		if o.holds(e) {
			out.addEq(e)
		}
	}
	for _, e := range o.eqs {
		if out.ix(e.a) < 0 || out.ix(e.b) < 0 || out.ix(e.c) < 0 {
			continue
		}
		if widen == nil && z.holds(e) {
			out.addEq(e)
		}
	}
	for v, s := range z.sets {
		if out.ix(v) < 0 {
			continue
		}
		if t, ok := o.sets[v]; ok {
			out.sets[v] = s.or(t)
		}
	}
	for l, s := range z.locs {
		if out.ix(l.idx) < 0 {
			continue
		}
		if _, t, ok := o.look(l.content, l.idx, l.off); ok {
			out.locs[l] = s.or(t)
		}
	}
	if widen == nil {
		for l, s := range o.locs {
			if out.ix(l.idx) < 0 {
				continue
			}
			if _, ok := out.locs[l]; ok {
				continue
			}
			if _, t, ok := z.look(l.content, l.idx, l.off); ok {
				out.locs[l] = s.or(t)
			}
		}
	}
	for v, l := range z.from {
		if k, ok := o.from[v]; ok && k == l {
			if _, ok := out.locs[l]; ok {
				out.from[v] = l
			}
		}
	}
	for v, c := range z.cont {
		if o.cont[v] == c {
			out.cont[v] = c
		}
	}
	return out
}

func (z *zone) addEq(e zEq) {
	for _, f := range z.eqs {
		if f == e || f == (zEq{e.b, e.a, e.c, e.k}) {
			return
		}
	}
	z.eqs = append(z.eqs, e)
}

// holds says if an equation is known to hold
func (z *zone) holds(e zEq) bool {
	for _, f := range z.eqs {
		if f == e || f == (zEq{e.b, e.a, e.c, e.k}) {
			return true
		}
	}
	// a constant: the rest is a difference
	if k, ok := z.isConst(e.a); ok && z.get(e.b, e.c) == e.k-k && z.get(e.c, e.b) == k-e.k {
		return true
	}
	if k, ok := z.isConst(e.b); ok && z.get(e.a, e.c) == e.k-k && z.get(e.c, e.a) == k-e.k {
		return true
	}
	// equal up to other names
	eq := func(x, y int32) (int64, bool) { // x = y + d
		d := z.get(x, y)
		return d, d < zInf && d == -z.get(y, x)
	}
	for _, f := range z.eqs {
		for _, p := range [2][2]int32{{f.a, f.b}, {f.b, f.a}} {
			d1, ok1 := eq(e.a, p[0])
			d2, ok2 := eq(e.b, p[1])
			d3, ok3 := eq(e.c, f.c)
			if ok1 && ok2 && ok3 && d1+d2-d3+f.k == e.k {
				return true
			}
		}
	}
	return false
}

func (z *zone) close() bool {
	n := len(z.vars)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			a := z.m[i*n+k]
			if a >= zInf {
				continue
			}
			for j := 0; j < n; j++ {
				if b := z.m[k*n+j]; b < zInf && a+b < z.m[i*n+j] {
					z.m[i*n+j] = a + b
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if z.m[i*n+i] < 0 {
			return false
		}
	}
	return true
}

// leq: each state that z describes is one that o describes
func (z *zone) leq(o *zone) bool {
	n := len(o.vars)
	for i, v := range o.vars {
		for j, w := range o.vars {
			if c := o.m[i*n+j]; c < zInf && i != j && z.get(v, w) > c {
				return false
			}
		}
	}
	for _, e := range o.eqs {
		if !z.holds(e) {
			return false
		}
	}
	for v, s := range o.sets {
		t, ok := z.sets[v]
		if s == allBytes {
			continue
		}
		if !ok || t.and(s) != t {
			return false
		}
	}
	for l, s := range o.locs {
		if s == allBytes {
			continue
		}
		_, t, ok := z.look(l.content, l.idx, l.off)
		if !ok || t.and(s) != t {
			return false
		}
	}
	for v, l := range o.from {
		if z.from[v] != l {
			return false
		}
	}
	for v, c := range o.cont {
		if z.cont[v] != c {
			return false
		}
	}
	return true
}
