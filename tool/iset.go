package main

import (
	"fmt"
	"math"
	"strings"
)

// iset is a set of integers as sorted disjoint closed intervals that aren't adjacent.
type iset []ival
type ival struct{ lo, hi int64 }

func isOf(lo, hi int64) iset {
	if lo > hi {
		return nil
	}
	return iset{{lo, hi}}
}

func isPoint(x int64) iset { return iset{{x, x}} }

var isAll = iset{{math.MinInt64, math.MaxInt64}}

func (s iset) empty() bool { return len(s) == 0 }
func (s iset) single() (int64, bool) {
	if len(s) == 1 && s[0].lo == s[0].hi {
		return s[0].lo, true
	}
	return 0, false
}
func (s iset) has(x int64) bool {
	for _, i := range s {
		if x >= i.lo && x <= i.hi {
			return true
		}
	}
	return false
}
func (s iset) count() int64 {
	n := int64(0)
	for _, i := range s {
		n += i.hi - i.lo + 1
	}
	return n
}
func (s iset) and(t iset) iset {
	var out iset
	for i, j := 0, 0; i < len(s) && j < len(t); {
		lo, hi := max(s[i].lo, t[j].lo), min(s[i].hi, t[j].hi)
		if lo <= hi {
			out = append(out, ival{lo, hi})
		}
		if s[i].hi < t[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}
func (s iset) not() iset {
	var out iset
	lo := int64(math.MinInt64)
	for _, i := range s {
		if i.lo > lo {
			out = append(out, ival{lo, i.lo - 1})
		}
		if i.hi == math.MaxInt64 {
			return out
		}
		lo = i.hi + 1
	}
	return append(out, ival{lo, math.MaxInt64})
}
func (s iset) minus(t iset) iset { return s.and(t.not()) }
func (s iset) or(t iset) iset    { return s.not().and(t.not()).not() }
func (s iset) eq(t iset) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}
func (s iset) subset(t iset) bool { return s.minus(t).empty() }

// shift adds k to each element; the set must be far from the ends
func (s iset) shift(k int64) iset {
	var out iset
	for _, i := range s {
		lo, hi := i.lo, i.hi
		if lo != math.MinInt64 {
			lo += k
		}
		if hi != math.MaxInt64 {
			hi += k
		}
		out = append(out, ival{lo, hi})
	}
	return out
}

func (s iset) String() string {
	var p []string
	for i, x := range s {
		if i == 6 {
			p = append(p, fmt.Sprintf("… %d more", len(s)-i))
			break
		}
		if x.lo == x.hi {
			p = append(p, hex(x.lo))
		} else {
			p = append(p, hex(x.lo)+"-"+hex(x.hi))
		}
	}
	return "{" + strings.Join(p, ",") + "}"
}

func hex(x int64) string {
	switch {
	case x == math.MinInt64:
		return "-inf"
	case x == math.MaxInt64:
		return "inf"
	case x < 0:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%#x", x)
}

// fromPoints makes a set of sorted points and ranges given in any order
func isFrom(v []ival) iset {
	out := iset(nil)
	vs := append([]ival(nil), v...)
	sortIvals(vs)
	for _, x := range vs {
		if n := len(out); n > 0 && x.lo <= out[n-1].hi+1 {
			out[n-1].hi = max(out[n-1].hi, x.hi)
		} else {
			out = append(out, x)
		}
	}
	return out
}
