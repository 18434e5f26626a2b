package main

// Hash-consed SMT terms (booleans, bit-vectors up to 64 bits, IEEE float64)
// with constant folding and signed-interval based simplification.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OExtract // k = hi<<8|lo
	OConcat
	OZExt
	OSExt
	// floats
	OFFromInt // a: bv64 signed, value a*2^-k
	OFFromUint
	OFToInt // toward zero, to signed bv64
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRound // k: 0 floor,1 ceil,2 trunc
	OFMin
	OFMax
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFSign
	OFma
	OF32 // round through float32
)

const wBool = 0
const wF64 = 200

type Expr struct {
	id       int32
	op       Op
	w        uint8
	a, b, c  *Expr
	k        uint64
	lo, hi   int64 // signed range (bv only)
	vs       []int32
	emitted  int32 // solver generation
	emittedI int32
	ic, ar   uint8
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type VarInfo struct {
	name string
	e    *Expr
	lo   int64
	hi   int64
}

type Ctx struct {
	tab   map[ekey]*Expr
	n     int32
	vars  []*VarInfo
	varBy map[string]*Expr
	T, F  *Expr
	ev    evalCache
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[ekey]*Expr), varBy: make(map[string]*Expr)}
	c.F = c.mk(OConst, wBool, nil, nil, nil, 0)
	c.T = c.mk(OConst, wBool, nil, nil, nil, 1)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}
func minS(w uint8) int64 { return -(int64(1) << (w - 1)) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func id(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func mergeVs(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	// subset test
	i, j := 0, 0
	extraA, extraB := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			extraA++
			i++
		} else if i >= len(a) || b[j] < a[i] {
			extraB++
			j++
		} else {
			i++
			j++
		}
	}
	if extraB == 0 {
		return a
	}
	if extraA == 0 {
		return b
	}
	r := make([]int32, 0, len(a)+extraB)
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			r = append(r, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			r = append(r, b[j])
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (x *Ctx) mk(op Op, w uint8, a, b, c *Expr, k uint64) *Expr {
	key := ekey{op, w, id(a), id(b), id(c), k}
	if e, ok := x.tab[key]; ok {
		return e
	}
	e := &Expr{id: x.n, op: op, w: w, a: a, b: b, c: c, k: k}
	x.n++
	if a != nil {
		e.vs = a.vs
	}
	if b != nil {
		e.vs = mergeVs(e.vs, b.vs)
	}
	if c != nil {
		e.vs = mergeVs(e.vs, c.vs)
	}
	x.setRange(e)
	x.tab[key] = e
	return e
}

func (x *Ctx) setRange(e *Expr) {
	w := e.w
	if w == wBool || w == wF64 {
		return
	}
	lo, hi := minS(w), maxS(w)
	set := func(l, h int64) {
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	switch e.op {
	case OConst:
		v := sext(e.k, w)
		lo, hi = v, v
	case OZExt:
		if e.a.lo >= 0 {
			lo, hi = e.a.lo, e.a.hi
		} else {
			lo, hi = 0, int64(mask(e.a.w))
		}
	case OSExt:
		lo, hi = e.a.lo, e.a.hi
	case OExtract:
		l := uint8(e.k & 255)
		if l == 0 && e.a.lo >= lo && e.a.hi <= hi {
			lo, hi = e.a.lo, e.a.hi
		} else if l > 0 && e.a.lo >= 0 {
			h := int64(uint64(e.a.hi) >> l)
			if h <= hi {
				lo, hi = 0, h
			}
		}
	case OIte:
		if e.b.lo < e.c.lo {
			lo = e.b.lo
		} else {
			lo = e.c.lo
		}
		if e.b.hi > e.c.hi {
			hi = e.b.hi
		} else {
			hi = e.c.hi
		}
	case OAdd:
		l, o1 := addO(e.a.lo, e.b.lo)
		h, o2 := addO(e.a.hi, e.b.hi)
		if !o1 && !o2 && l >= lo && h <= hi {
			lo, hi = l, h
		}
	case OSub:
		l, o1 := subO(e.a.lo, e.b.hi)
		h, o2 := subO(e.a.hi, e.b.lo)
		if !o1 && !o2 && l >= lo && h <= hi {
			lo, hi = l, h
		}
	case OMul:
		ok := true
		var l, h int64
		first := true
		for _, p := range [2]int64{e.a.lo, e.a.hi} {
			for _, q := range [2]int64{e.b.lo, e.b.hi} {
				m, o := mulO(p, q)
				if o {
					ok = false
				}
				if first || m < l {
					l = m
				}
				if first || m > h {
					h = m
				}
				first = false
			}
		}
		if e.a == e.b && l < 0 {
			l = 0
		}
		if ok && l >= lo && h <= hi {
			lo, hi = l, h
		}
	case OBAnd:
		if e.a.lo >= 0 && e.b.lo >= 0 {
			lo = 0
			hi = e.a.hi
			if e.b.hi < hi {
				hi = e.b.hi
			}
		} else if e.a.lo >= 0 {
			lo, hi = 0, e.a.hi
		} else if e.b.lo >= 0 {
			lo, hi = 0, e.b.hi
		}
	case OBOr, OBXor:
		if e.a.lo >= 0 && e.b.lo >= 0 {
			m := e.a.hi
			if e.b.hi > m {
				m = e.b.hi
			}
			n := bits.Len64(uint64(m))
			set(0, int64(uint64(1)<<uint(n)-1))
		}
	case OLshr:
		if e.b.op == OConst && e.a.lo >= 0 && e.b.k < 64 {
			lo, hi = e.a.lo>>e.b.k, e.a.hi>>e.b.k
		} else if e.b.op == OConst && e.b.k > 0 && e.b.k < uint64(w) {
			lo, hi = 0, int64(mask(w)>>e.b.k)
		}
	case OAshr:
		if e.b.op == OConst && e.b.k < 64 {
			lo, hi = e.a.lo>>e.b.k, e.a.hi>>e.b.k
		}
	case OShl:
		if e.b.op == OConst && e.b.k < 62 {
			l, o1 := mulO(e.a.lo, int64(1)<<e.b.k)
			h, o2 := mulO(e.a.hi, int64(1)<<e.b.k)
			if !o1 && !o2 && l >= lo && h <= hi {
				lo, hi = l, h
			}
		}
	case OURem:
		if e.b.op == OConst && e.b.k > 0 && int64(e.b.k) > 0 {
			lo, hi = 0, int64(e.b.k)-1
			if e.a.lo >= 0 && e.a.hi < hi {
				hi = e.a.hi
			}
		}
	case OUDiv:
		if e.b.op == OConst && e.b.k > 0 && e.a.lo >= 0 {
			lo, hi = int64(uint64(e.a.lo)/e.b.k), int64(uint64(e.a.hi)/e.b.k)
		}
	case OSRem:
		if e.b.op == OConst {
			m := sext(e.b.k, w)
			if m < 0 {
				m = -m
			}
			if m > 0 {
				lo, hi = -(m - 1), m-1
				if e.a.lo >= 0 {
					lo = 0
					if e.a.hi < hi {
						hi = e.a.hi
					}
				}
			}
		}
	case OSDiv:
		if e.b.op == OConst {
			m := sext(e.b.k, w)
			if m > 0 {
				lo, hi = e.a.lo/m, e.a.hi/m
			} else if m < 0 && e.a.lo > minS(w) {
				lo, hi = e.a.hi/m, e.a.lo/m
			}
		} else if e.a.lo > minS(w) {
			// |result| <= |a|
			m := e.a.hi
			if -e.a.lo > m {
				m = -e.a.lo
			}
			if e.a.lo > minS(w) {
				if m < 1 {
					m = 1 // division by zero yields 1 or -1 in SMT-LIB
				}
				set(-m, m)
				if e.a.lo >= 0 && e.b.lo > 0 {
					set(0, m)
				}
			}
		}
	}
	e.lo, e.hi = lo, hi
}

func addO(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) != (b > 0) && b != 0
}
func subO(a, b int64) (int64, bool) {
	c := a - b
	return c, (c < a) != (b > 0) && b != 0
}
func mulO(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return c, true
	}
	return c, false
}

func (x *Ctx) Const(w uint8, v uint64) *Expr {
	if w == wBool {
		if v != 0 {
			return x.T
		}
		return x.F
	}
	if w != wF64 {
		v &= mask(w)
	}
	return x.mk(OConst, w, nil, nil, nil, v)
}
func (x *Ctx) Bool(b bool) *Expr {
	if b {
		return x.T
	}
	return x.F
}

// Var returns the variable called name (created on first use) with the given
// signed range.
func (x *Ctx) Var(name string, w uint8, lo, hi int64) *Expr {
	key := fmt.Sprintf("%s/%d/%d/%d", name, w, lo, hi)
	if e, ok := x.varBy[key]; ok {
		return e
	}
	vi := len(x.vars)
	e := x.mk(OVar, w, nil, nil, nil, uint64(vi))
	e.vs = []int32{int32(vi)}
	if w != wBool && w != wF64 {
		e.lo, e.hi = lo, hi
	}
	x.vars = append(x.vars, &VarInfo{name: name, e: e, lo: lo, hi: hi})
	x.varBy[key] = e
	return e
}

func (e *Expr) isC() bool { return e.op == OConst }

func (x *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return x.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return x.mk(ONot, wBool, a, nil, nil, 0)
}
func (x *Ctx) And(a, b *Expr) *Expr {
	if a == x.F || b == x.F {
		return x.F
	}
	if a == x.T {
		return b
	}
	if b == x.T || a == b {
		return a
	}
	if x.Not(a) == b {
		return x.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAnd, wBool, a, b, nil, 0)
}
func (x *Ctx) Or(a, b *Expr) *Expr {
	if a == x.T || b == x.T {
		return x.T
	}
	if a == x.F {
		return b
	}
	if b == x.F || a == b {
		return a
	}
	if x.Not(a) == b {
		return x.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OOr, wBool, a, b, nil, 0)
}

func (x *Ctx) Ite(c, a, b *Expr) *Expr {
	if c == x.T || a == b {
		return a
	}
	if c == x.F {
		return b
	}
	if c.op == ONot {
		return x.Ite(c.a, b, a)
	}
	if a.w == wBool {
		if a == x.T {
			return x.Or(c, b)
		}
		if a == x.F {
			return x.And(x.Not(c), b)
		}
		if b == x.T {
			return x.Or(x.Not(c), a)
		}
		if b == x.F {
			return x.And(c, a)
		}
	}
	for a.op == OIte {
		if v, ok := boundImplies(c, true, a.a); !ok {
			break
		} else if v {
			a = a.b
		} else {
			a = a.c
		}
	}
	for b.op == OIte {
		if v, ok := boundImplies(c, false, b.a); !ok {
			break
		} else if v {
			b = b.b
		} else {
			b = b.c
		}
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.b == a {
		return x.Ite(x.Or(c, b.a), a, b.c)
	}
	// ite of integer-valued floats stays integer-valued
	if a.w == wF64 {
		ai, ka := x.asDy(a)
		bi, kb := x.asDy(b)
		if ai != nil && bi != nil && exactRange(ai) && exactRange(bi) {
			if p, q, k := x.align(ai, ka, bi, kb); p != nil && q != nil {
				return x.FFromDy(x.Ite(c, p, q), k)
			}
		}
	}
	return x.mk(OIte, a.w, c, a, b, 0)
}

// diffRange: the range of a-b where the difference has a simpler form
func (x *Ctx) diffRange(a, b *Expr) (lo, hi int64, ok bool) {
	if a.w == wBool || a.w > 64 || a.op == OConst || b.op == OConst {
		return
	}
	if !(a.op == OAdd || a.op == OSub || b.op == OAdd || b.op == OSub || a.op == OMul && b.op == OMul) {
		return
	}
	l, o1 := subO(a.lo, b.hi)
	h, o2 := subO(a.hi, b.lo)
	if o1 || o2 || l < minS(a.w) || h > maxS(a.w) {
		return
	}
	d := x.Sub(a, b)
	return d.lo, d.hi, true
}

// boundOf reads e (or its negation) as lo <= t <= hi
func boundOf(e *Expr, v bool) (t *Expr, lo, hi int64, ok bool) {
	if e.op == ONot {
		return boundOf(e.a, !v)
	}
	lo, hi = math.MinInt64, math.MaxInt64
	switch {
	case e.op == OSlt && e.b.op == OConst:
		t = e.a
		k := sext(e.b.k, t.w)
		if v {
			hi = k - 1
		} else {
			lo = k
		}
	case e.op == OSlt && e.a.op == OConst:
		t = e.b
		k := sext(e.a.k, t.w)
		if v {
			lo = k + 1
		} else {
			hi = k
		}
	case e.op == OEq && v && e.b.op == OConst && e.a.w > vBool && e.a.w <= 64:
		t = e.a
		lo = sext(e.b.k, t.w)
		hi = lo
	default:
		return nil, 0, 0, false
	}
	return t, lo, hi, true
}

// boundImplies tells the truth of d given that c has the truth value cv, where
// both are bounds of the same term
func boundImplies(c *Expr, cv bool, d *Expr) (v, ok bool) {
	if c == d {
		return cv, true
	}
	t, lo, hi, k1 := boundOf(c, cv)
	if !k1 {
		return false, false
	}
	u, l2, h2, k2 := boundOf(d, true)
	if !k2 || t != u {
		return false, false
	}
	if l2 <= lo && hi <= h2 {
		return true, true
	}
	if hi < l2 || h2 < lo {
		return false, true
	}
	return false, false
}

// scaledBound rewrites m*t+c < v (no wrap) to a bound of t
func (x *Ctx) scaledTerm(a *Expr) (t *Expr, m, c int64, ok bool) {
	if a.w != 64 || !exactRange(a) {
		return
	}
	t, m = a, 1
	neg := false
	for i := 0; i < 8; i++ {
		switch {
		case t.op == OAdd && t.b.op == OConst && exactRange(t.a):
			k := int64(t.b.k)
			if k > maxExact>>20 || k < -(maxExact>>20) || m > 1<<20 {
				return
			}
			if neg {
				k = -k
			}
			c += k * m
			t = t.a
		case t.op == OSub && t.a.op == OConst && exactRange(t.b):
			k := int64(t.a.k)
			if k > maxExact>>20 || k < -(maxExact>>20) || m > 1<<20 {
				return
			}
			if neg {
				k = -k
			}
			c += k * m
			neg = !neg
			t = t.b
		case t.op == OMul && t.b.op == OConst && exactRange(t.a) && int64(t.b.k) > 0 && int64(t.b.k) <= 1<<20 && m == 1:
			m = int64(t.b.k)
			t = t.a
		default:
			if neg {
				return t, -m, c, true
			}
			return t, m, c, t != a
		}
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (x *Ctx) Eq(a, b *Expr) *Expr {
	if a == b && a.w != wF64 {
		return x.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return x.Bool(a.k == b.k)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == wBool {
		if b == x.T {
			return a
		}
		if b == x.F {
			return x.Not(a)
		}
		if a == x.Not(b) {
			return x.F
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return x.F
		}
		if b.op == OConst {
			switch a.op {
			case OAdd:
				if a.b.op == OConst {
					return x.Eq(a.a, x.Const(a.w, b.k-a.b.k))
				}
			case OZExt:
				if b.k > mask(a.a.w) {
					return x.F
				}
				return x.Eq(a.a, x.Const(a.a.w, b.k))
			case OSExt:
				v := x.Const(a.a.w, b.k)
				if uint64(sext(v.k, a.a.w))&mask(a.w) != b.k {
					return x.F
				}
				return x.Eq(a.a, v)
			case OIte:
				if a.b.op == OConst || a.c.op == OConst {
					l := x.Eq(a.b, b)
					r := x.Eq(a.c, b)
					return x.Ite(a.a, l, r)
				}
			case OConcat:
				lw := a.b.w
				return x.And(x.Eq(a.a, x.Const(a.a.w, b.k>>lw)), x.Eq(a.b, x.Const(lw, b.k)))
			}
		} else {
			if lo, hi, ok := x.diffRange(a, b); ok {
				if lo > 0 || hi < 0 {
					return x.F
				}
				if lo == 0 && hi == 0 {
					return x.T
				}
			}
			if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
				return x.Eq(a.a, b.a)
			}
			if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
				return x.Eq(a.a, b.a)
			}
			if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst {
				return x.Eq(a.a, x.Add(b.a, x.Const(a.w, b.b.k-a.b.k)))
			}
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, wBool, a, b, nil, 0)
}

func (x *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return x.F
	}
	if a.hi < b.lo {
		return x.T
	}
	if a.lo >= b.hi {
		return x.F
	}
	// narrowing
	if b.op == OConst {
		v := sext(b.k, b.w)
		if t, m, c, ok := x.scaledTerm(a); ok && v > -maxExact && v < maxExact {
			// m*t + c < v
			if m > 0 {
				return x.Sle(t, x.Const(64, uint64(floorDiv(v-c-1, m))))
			}
			return x.Sle(x.Const(64, uint64(-floorDiv(v-c-1, -m))), t)
		}
		switch a.op {
		case OSExt:
			if v > maxS(a.a.w) {
				return x.T
			}
			if v < minS(a.a.w) {
				return x.F
			}
			return x.Slt(a.a, x.Const(a.a.w, uint64(v)))
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				return x.Ite(a.a, x.Slt(a.b, b), x.Slt(a.c, b))
			}
		}
	} else if a.op == OConst {
		v := sext(a.k, a.w)
		if t, m, c, ok := x.scaledTerm(b); ok && v > -maxExact && v < maxExact {
			// v < m*t + c
			if m > 0 {
				return x.Sle(x.Const(64, uint64(-floorDiv(-(v+1-c), m))), t)
			}
			return x.Sle(t, x.Const(64, uint64(floorDiv(-(v+1-c), -m))))
		}
		switch b.op {
		case OSExt:
			if v >= maxS(b.a.w) {
				return x.F
			}
			if v < minS(b.a.w) {
				return x.T
			}
			return x.Slt(x.Const(b.a.w, uint64(v)), b.a)
		case OIte:
			if b.b.op == OConst && b.c.op == OConst {
				return x.Ite(b.a, x.Slt(a, b.b), x.Slt(a, b.c))
			}
		}
	} else if lo, hi, ok := x.diffRange(a, b); ok && (hi < 0 || lo >= 0) {
		return x.Bool(hi < 0)
	} else if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return x.Slt(a.a, b.a)
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return x.Ult(a.a, b.a)
	}
	return x.mk(OSlt, wBool, a, b, nil, 0)
}
func (x *Ctx) Sle(a, b *Expr) *Expr { return x.Not(x.Slt(b, a)) }
func (x *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return x.F
	}
	if a.lo >= 0 && b.lo >= 0 {
		if a.hi < b.lo {
			return x.T
		}
		if a.lo >= b.hi {
			return x.F
		}
	}
	if a.op == OConst && b.op == OConst {
		return x.Bool(a.k < b.k)
	}
	if b.op == OConst && b.k == 0 {
		return x.F
	}
	if b.op == OConst && a.op == OZExt {
		if b.k > mask(a.a.w) {
			return x.T
		}
		return x.Ult(a.a, x.Const(a.a.w, b.k))
	}
	if a.op == OConst && b.op == OZExt {
		if a.k >= mask(b.a.w) {
			return x.F
		}
		return x.Ult(x.Const(b.a.w, a.k), b.a)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return x.Ult(a.a, b.a)
	}
	return x.mk(OUlt, wBool, a, b, nil, 0)
}
func (x *Ctx) Ule(a, b *Expr) *Expr { return x.Not(x.Ult(b, a)) }

func (x *Ctx) Add(a, b *Expr) *Expr {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.k+b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return x.Add(a.a, x.Const(a.w, a.b.k+b.k))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return x.Ite(a.a, x.Add(a.b, b), x.Add(a.c, b))
		}
		return x.mk(OAdd, a.w, a, b, nil, 0)
	}
	// pull constants outward
	if a.op == OAdd && a.b.op == OConst {
		return x.Add(x.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return x.Add(x.Add(a, b.a), b.b)
	}
	if r := x.cancel(a, b, false); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OAdd, a.w, a, b, nil, 0)
}
func (x *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return x.Const(a.w, 0)
	}
	if b.op == OConst {
		return x.Add(a, x.Const(a.w, -b.k))
	}
	if b.op == OSub && b.a.op == OConst {
		return x.Add(x.Add(a, b.b), x.Const(a.w, -b.a.k))
	}
	if a.op == OAdd && a.b.op == OConst {
		return x.Add(x.Sub(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return x.Add(x.Sub(a, b.a), x.Const(a.w, -b.b.k))
	}
	if r := x.cancel(a, b, true); r != nil {
		return r
	}
	if a.op == OIte && b.op != OIte {
		if p, q := x.Sub(a.b, b), x.Sub(a.c, b); p.op == OConst || q.op == OConst {
			return x.Ite(a.a, p, q)
		}
	}
	if b.op == OIte && a.op != OIte {
		if p, q := x.Sub(a, b.b), x.Sub(a, b.c); p.op == OConst || q.op == OConst {
			return x.Ite(b.a, p, q)
		}
	}
	return x.mk(OSub, a.w, a, b, nil, 0)
}
func (x *Ctx) Neg(a *Expr) *Expr {
	if a.op == OIte && (a.b.op == OSub || a.b.op == OAdd || a.b.op == OConst) && (a.c.op == OSub || a.c.op == OAdd || a.c.op == OConst || a.c.op == OIte) {
		return x.Ite(a.a, x.Neg(a.b), x.Neg(a.c))
	}
	if a.op == OSub {
		return x.Sub(a.b, a.a)
	}
	return x.Sub(x.Const(a.w, 0), a)
}
func (x *Ctx) Mul(a, b *Expr) *Expr {
	if a == b && a.op != OConst && a.w > wBool && a.lo >= -16 && a.hi <= 16 && a.hi-a.lo <= 16 {
		// a square over a handful of values: a table keeps the query linear
		r := x.Const(a.w, uint64(a.hi*a.hi))
		for v := a.hi - 1; v >= a.lo; v-- {
			r = x.Ite(x.Eq(a, x.Const(a.w, uint64(v))), x.Const(a.w, uint64(v*v)), r)
		}
		return r
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return x.Const(a.w, a.k*b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k == mask(a.w) {
			return x.Neg(a)
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return x.Ite(a.a, x.Mul(a.b, b), x.Mul(a.c, b))
		}
		if a.op == OMul && a.b.op == OConst {
			return x.Mul(a.a, x.Const(a.w, a.b.k*b.k))
		}
		return x.mk(OMul, a.w, a, b, nil, 0)
	}
	// keep signs and constants outside
	if a.op == OSub && a.a.op == OConst && a.a.k == 0 {
		return x.Neg(x.Mul(a.b, b))
	}
	if b.op == OSub && b.a.op == OConst && b.a.k == 0 {
		return x.Neg(x.Mul(a, b.b))
	}
	if x.negLead(a) {
		if n := x.Neg(a); !x.negLead(n) && !isNeg(n) {
			return x.Neg(x.Mul(n, b))
		}
	}
	if x.negLead(b) {
		if n := x.Neg(b); !x.negLead(n) && !isNeg(n) {
			return x.Neg(x.Mul(a, n))
		}
	}
	if a.op == OMul && a.b.op == OConst {
		return x.Mul(x.Mul(a.a, b), a.b)
	}
	if b.op == OMul && b.b.op == OConst {
		return x.Mul(x.Mul(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OMul, a.w, a, b, nil, 0)
}

func foldBin(op Op, w uint8, p, q uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OUDiv:
		if q == 0 {
			return 0, false
		}
		return (p / q) & m, true
	case OURem:
		if q == 0 {
			return 0, false
		}
		return (p % q) & m, true
	case OSDiv:
		if q == 0 {
			return 0, false
		}
		sp, sq := sext(p, w), sext(q, w)
		if sq == -1 {
			return uint64(-sp) & m, true
		}
		return uint64(sp/sq) & m, true
	case OSRem:
		if q == 0 {
			return 0, false
		}
		sp, sq := sext(p, w), sext(q, w)
		if sq == -1 {
			return 0, true
		}
		return uint64(sp%sq) & m, true
	case OShl:
		if q >= uint64(w) {
			return 0, true
		}
		return (p << q) & m, true
	case OLshr:
		if q >= uint64(w) {
			return 0, true
		}
		return p >> q, true
	case OAshr:
		s := sext(p, w)
		if q >= uint64(w) {
			q = 63
		}
		return uint64(s>>q) & m, true
	case OBAnd:
		return p & q, true
	case OBOr:
		return p | q, true
	case OBXor:
		return p ^ q, true
	}
	panic("foldBin")
}

func (x *Ctx) Bin(op Op, a, b *Expr) *Expr {
	switch op {
	case OAdd:
		return x.Add(a, b)
	case OSub:
		return x.Sub(a, b)
	case OMul:
		return x.Mul(a, b)
	}
	if a.op == OConst && b.op == OConst {
		if v, ok := foldBin(op, a.w, a.k, b.k); ok {
			return x.Const(a.w, v)
		}
	}
	switch op {
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(a.w) {
				return a
			}
			// low mask
			if b.k&(b.k+1) == 0 && a.lo >= 0 && uint64(a.hi) <= b.k {
				return a
			}
			if a.op == OBAnd && a.b.op == OConst {
				return x.Bin(OBAnd, a.a, x.Const(a.w, a.b.k&b.k))
			}
			if a.op == OZExt {
				if b.k&mask(a.a.w) == mask(a.a.w) {
					return a
				}
				return x.ZExt(x.Bin(OBAnd, a.a, x.Const(a.a.w, b.k)), a.w)
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return x.Ite(a.a, x.Bin(op, a.b, b), x.Bin(op, a.c, b))
			}
			// distribute over or with constants: (y|c1)&c2
			if a.op == OBOr && a.b.op == OConst && a.b.k&b.k == 0 {
				return x.Bin(OBAnd, a.a, b)
			}
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(a.w) {
				return b
			}
			if a.op == OBOr && a.b.op == OConst {
				return x.Bin(OBOr, a.a, x.Const(a.w, a.b.k|b.k))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return x.Ite(a.a, x.Bin(op, a.b, b), x.Bin(op, a.c, b))
			}
		} else if r := x.join(a, b); r != nil {
			return r
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return x.Const(a.w, 0)
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(a.w) && op != OAshr {
				return x.Const(a.w, 0)
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return x.Ite(a.a, x.Bin(op, a.b, b), x.Bin(op, a.c, b))
			}
			if op == OLshr && a.op == OZExt && b.k >= uint64(a.a.w) {
				return x.Const(a.w, 0)
			}
			if (op == OAshr || op == OLshr && a.lo >= 0) && b.k < 64 && a.lo>>b.k == a.hi>>b.k {
				return x.Const(a.w, uint64(a.lo>>b.k))
			}
			if (op == OAshr || op == OLshr && a.lo >= 0) && a.w == 64 && b.k < 64 && (a.op == OAdd || a.op == OSub || a.op == OMul) {
				if r := x.shrSum(a, uint(b.k)); r != nil {
					return r
				}
			}
			if op == OShl && a.op == OZExt && a.a.op == OExtract && a.a.k&255 == b.k && b.k+uint64(a.a.w) <= uint64(a.w) {
				// upper bits of a term whose lower bits are zero
				if low := x.Extract(a.a.a, uint8(b.k)-1, 0); low.op == OConst && low.k == 0 {
					return x.ZExt(x.Extract(a.a.a, uint8(a.a.k>>8), 0), a.w)
				}
			}
		}
		if a.op == OConst && a.k == 0 {
			return a
		}
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
	case OSDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if a.w == 64 && b.op != OConst && (b.lo > 0 || b.hi < 0) && exactRange(a) {
			if q := x.exactDiv(a, b); q != nil && exactRange(q) {
				return q
			}
		}
	case OURem:
		if b.op == OConst && b.k > 0 && a.lo >= 0 && b.lo > 0 && uint64(a.hi) < b.k {
			return a
		}
	case OSRem:
		if b.op == OConst && a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
			return a
		}
	}
	if op == OBAnd || op == OBOr || op == OBXor {
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(op, a.w, a, b, nil, 0)
}

// piece reads e as p placed at bit s
func piece(e *Expr) (p *Expr, s uint64, ok bool) {
	if e.op == OShl && e.b.op == OConst {
		s = e.b.k
		e = e.a
	}
	if e.op != OZExt || s+uint64(e.a.w) > uint64(e.w) {
		return nil, 0, false
	}
	return e.a, s, true
}

// join puts neighbouring parts of a term together again: byte order conversions
func (x *Ctx) join(a, b *Expr) *Expr {
	p, s, ok := piece(a)
	if !ok {
		return nil
	}
	q, t, ok := piece(b)
	if !ok {
		return nil
	}
	if s > t {
		p, q, s, t = q, p, t, s
	}
	if s+uint64(p.w) != t || q.op != OExtract {
		return nil
	}
	l := uint8(q.k & 255)
	if l < p.w || x.Extract(q.a, l-1, l-p.w) != p {
		return nil
	}
	return x.Bin(OShl, x.ZExt(x.Extract(q.a, uint8(q.k>>8), l-p.w), a.w), x.Const(a.w, s))
}

func (x *Ctx) Extract(a *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return x.Const(w, a.k>>lo)
	case OZExt, OSExt:
		if lo == 0 {
			if w == a.a.w {
				return a.a
			}
			if w < a.a.w {
				return x.Extract(a.a, hi, 0)
			}
			if a.op == OZExt {
				return x.ZExt(a.a, w)
			}
			return x.SExt(a.a, w)
		}
		if hi < a.a.w {
			return x.Extract(a.a, hi, lo)
		}
		if a.op == OZExt && lo >= a.a.w {
			return x.Const(w, 0)
		}
	case OExtract:
		l := uint8(a.k & 255)
		return x.Extract(a.a, hi+l, lo+l)
	case OConcat:
		if hi < a.b.w {
			return x.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return x.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return x.Ite(a.a, x.Extract(a.b, hi, lo), x.Extract(a.c, hi, lo))
		}
	case OBOr, OBAnd, OBXor:
		return x.Bin(a.op, x.Extract(a.a, hi, lo), x.Extract(a.b, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && (a.b.op == OConst || a.op != OMul) {
			return x.Bin(a.op, x.Extract(a.a, hi, 0), x.Extract(a.b, hi, 0))
		}
	case OShl:
		if a.b.op == OConst && a.b.k < 64 {
			s := uint8(a.b.k)
			if lo >= s {
				return x.Extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return x.Const(w, 0)
			}
		}
	case OLshr:
		if a.b.op == OConst && a.b.k < 64 {
			s := uint8(a.b.k)
			if hi+s < a.w {
				return x.Extract(a.a, hi+s, lo+s)
			}
			if lo+s >= a.w {
				return x.Const(w, 0)
			}
		}
	}
	return x.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (x *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return x.Const(w, a.k)
	case OZExt:
		return x.ZExt(a.a, w)
	case OExtract:
		if a.k&255 == 0 && a.a.lo >= 0 && uint64(a.a.hi) <= mask(a.w) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w < w {
				return x.ZExt(a.a, w)
			}
			return x.Extract(a.a, w-1, 0)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return x.Ite(a.a, x.ZExt(a.b, w), x.ZExt(a.c, w))
		}
	case OSExt:
		if a.lo >= 0 {
			return x.ZExt(a.a, w)
		}
	case OAdd, OSub, OMul:
		if a.lo >= 0 && noWrap(a) {
			return x.SExt(a, w)
		}
	}
	return x.mk(OZExt, w, a, nil, nil, 0)
}

// noWrap: the sum or difference does not wrap around as a signed value
func noWrap(e *Expr) bool {
	if e.op == OMul {
		if e.b.op != OConst && e.a.op != OConst {
			return false
		}
		for _, p := range [4][2]int64{{e.a.lo, e.b.lo}, {e.a.lo, e.b.hi}, {e.a.hi, e.b.lo}, {e.a.hi, e.b.hi}} {
			if v, o := mulO(p[0], p[1]); o || v < minS(e.w) || v > maxS(e.w) {
				return false
			}
		}
		return true
	}
	if e.op == OAdd {
		l, o1 := addO(e.a.lo, e.b.lo)
		h, o2 := addO(e.a.hi, e.b.hi)
		return !o1 && !o2 && l >= minS(e.w) && h <= maxS(e.w)
	}
	l, o1 := subO(e.a.lo, e.b.hi)
	h, o2 := subO(e.a.hi, e.b.lo)
	return !o1 && !o2 && l >= minS(e.w) && h <= maxS(e.w)
}

type linTerm struct {
	e *Expr
	k uint64
}

// linear form of a sum, up to 12 terms (modulo 2^w)
func linear(e *Expr, k uint64, ts *[]linTerm, c *uint64) bool {
	switch e.op {
	case OConst:
		*c += e.k * k
		return true
	case OAdd:
		return linear(e.a, k, ts, c) && linear(e.b, k, ts, c)
	case OSub:
		return linear(e.a, k, ts, c) && linear(e.b, -k, ts, c)
	}
	for i := range *ts {
		if (*ts)[i].e == e {
			(*ts)[i].k += k
			return true
		}
	}
	if len(*ts) >= 12 {
		return false
	}
	*ts = append(*ts, linTerm{e, k})
	return true
}

func isNeg(e *Expr) bool { return e.op == OSub && e.a.op == OConst && e.a.k == 0 }

// negLead tells a sum whose leading term is negative
func (x *Ctx) negLead(e *Expr) bool {
	if e.op != OAdd && e.op != OSub {
		return false
	}
	var ts []linTerm
	var c uint64
	if !linear(e, 1, &ts, &c) {
		return false
	}
	lead := -1
	for i, t := range ts {
		if t.k&mask(e.w) != 0 && (lead < 0 || t.e.id < ts[lead].e.id) {
			lead = i
		}
	}
	return lead >= 0 && sext(ts[lead].k&mask(e.w), e.w) < 0
}

// factor joins two products that share a factor: p*q +- p*r = p*(q +- r)
func (x *Ctx) factor(ts *[]linTerm) bool {
	t := *ts
	for i := range t {
		p := t[i].e
		if p.op != OMul || t[i].k == 0 {
			continue
		}
		for j := i + 1; j < len(t); j++ {
			q := t[j].e
			if q.op != OMul || t[j].k == 0 {
				continue
			}
			var f, u, v *Expr
			switch {
			case p.a == q.a:
				f, u, v = p.a, p.b, q.b
			case p.a == q.b:
				f, u, v = p.a, p.b, q.a
			case p.b == q.a:
				f, u, v = p.b, p.a, q.b
			case p.b == q.b:
				f, u, v = p.b, p.a, q.a
			default:
				continue
			}
			var sum *Expr
			if t[i].k == t[j].k {
				sum = x.Add(u, v)
			} else {
				sum = x.Sub(u, v)
			}
			if f.op == OConst && (sum.op == OAdd || sum.op == OSub) && sum.b.op != OConst {
				// c*p +- c*q: only when it gets simpler
				var ts []linTerm
				var c uint64
				if linear(u, 1, &ts, &c) {
					n := len(ts)
					if linear(v, 1, &ts, &c) && len(ts) >= n+1 && n > 0 {
						var tv []linTerm
						linear(v, 1, &tv, &c)
						if len(ts) == n+len(tv) {
							continue
						}
					}
				}
			}
			t[i].e = x.Mul(f, sum)
			t[j].k = 0
			return true
		}
	}
	return false
}

// cancel rebuilds a+b (or a-b) when terms cancel out; nil if nothing does
func (x *Ctx) cancel(a, b *Expr, neg bool) *Expr {
	if a.op != OAdd && a.op != OSub && b.op != OAdd && b.op != OSub && (a.op != OMul || b.op != OMul) {
		return nil
	}
	kb := uint64(1)
	if neg {
		kb = ^uint64(0)
	}
	var ts []linTerm
	var c uint64
	if !linear(a, 1, &ts, &c) {
		return nil
	}
	na := len(ts)
	if !linear(b, kb, &ts, &c) {
		return nil
	}
	zero := false
	for i := range ts {
		ts[i].k &= mask(a.w)
		if ts[i].k == 0 {
			zero = true
		} else if ts[i].k != 1 && ts[i].k != mask(a.w) {
			return nil
		}
	}
	_ = na
	if x.factor(&ts) {
		// the factors may cancel out further
		r := x.Const(a.w, c&mask(a.w))
		for _, t := range ts {
			if t.k == 1 {
				r = x.Add(r, t.e)
			} else if t.k != 0 {
				r = x.Sub(r, t.e)
			}
		}
		return r
	}
	if !zero {
		return nil
	}
	var r *Expr
	for _, t := range ts {
		if t.k == 1 {
			if r == nil {
				r = t.e
			} else {
				r = x.Add(r, t.e)
			}
		}
	}
	for _, t := range ts {
		if t.k == mask(a.w) && t.k != 1 {
			if r == nil {
				r = x.mkNeg(t.e)
			} else {
				r = x.Sub(r, t.e)
			}
		}
	}
	cc := x.Const(a.w, c&mask(a.w))
	if r == nil {
		return cc
	}
	return x.Add(r, cc)
}

func (x *Ctx) mkNeg(e *Expr) *Expr { return x.mk(OSub, e.w, x.Const(e.w, 0), e, nil, 0) }

func (x *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return x.Const(w, uint64(sext(a.k, a.w)))
	case OSExt:
		return x.SExt(a.a, w)
	case OZExt:
		return x.ZExt(a.a, w)
	case OExtract:
		if a.k&255 == 0 && a.a.lo >= minS(a.w) && a.a.hi <= maxS(a.w) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w < w {
				return x.SExt(a.a, w)
			}
			return x.Extract(a.a, w-1, 0)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return x.Ite(a.a, x.SExt(a.b, w), x.SExt(a.c, w))
		}
	case OAdd:
		if noWrap(a) {
			return x.Add(x.SExt(a.a, w), x.SExt(a.b, w))
		}
	case OSub:
		if noWrap(a) {
			return x.Sub(x.SExt(a.a, w), x.SExt(a.b, w))
		}
	case OMul:
		if noWrap(a) {
			return x.Mul(x.SExt(a.a, w), x.SExt(a.b, w))
		}
	}
	if a.lo >= 0 {
		return x.ZExt(a, w)
	}
	return x.mk(OSExt, w, a, nil, nil, 0)
}
func (x *Ctx) Concat(a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return x.Const(a.w+b.w, a.k<<b.w|b.k)
	}
	if a.op == OConst && a.k == 0 {
		return x.ZExt(b, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && uint8(a.k&255) == uint8(b.k>>8)+1 {
		return x.Extract(a.a, uint8(a.k>>8), uint8(b.k&255))
	}
	return x.mk(OConcat, a.w+b.w, a, b, nil, 0)
}

// ---- floats ----

const maxExact = int64(1) << 53

func (x *Ctx) FConst(f float64) *Expr { return x.mk(OConst, wF64, nil, nil, nil, math.Float64bits(f)) }

// A float term OFFromInt with k stands for the exact value a * 2^-k (a: bv64
// signed, within +-2^53): integers and dyadic fractions stay out of the theory
// of floating point.

// asInt returns the bv64 value of an integer-valued float term, or nil
func (x *Ctx) asInt(a *Expr) *Expr {
	if e, k := x.asDy(a); e != nil && k == 0 {
		return e
	}
	return nil
}

const maxShift = 40

// asDy returns e, k with a = e * 2^-k exactly, or nil
func (x *Ctx) asDy(a *Expr) (*Expr, uint) {
	if a.op == OFFromInt {
		return a.a, uint(a.k)
	}
	if a.op == OConst {
		f := math.Float64frombits(a.k)
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && math.Signbit(f) {
			return nil, 0
		}
		for k := uint(0); k <= maxShift && math.Abs(f) <= float64(maxExact); k++ {
			if f == math.Trunc(f) {
				return x.Const(64, uint64(int64(f))), k
			}
			f *= 2
		}
	}
	return nil, 0
}

// dyOp: the operand of a comparison, sum...: -0.0 counts as 0
func (x *Ctx) dyOp(a *Expr) (*Expr, uint) {
	if a.op == OConst && a.k == 1<<63 {
		return x.Const(64, 0), 0
	}
	e, k := x.asDy(a)
	if e != nil && !exactRange(e) {
		return nil, 0
	}
	return e, k
}

// align brings two dyadic numbers to the same shift; nil if out of exact range
func (x *Ctx) align(a *Expr, ka uint, b *Expr, kb uint) (*Expr, *Expr, uint) {
	up := func(e *Expr, n uint) *Expr {
		if n == 0 {
			return e
		}
		r := x.Mul(e, x.Const(64, 1<<n))
		l, o1 := mulO(e.lo, 1<<n)
		h, o2 := mulO(e.hi, 1<<n)
		if o1 || o2 || l < -maxExact || h > maxExact {
			return nil
		}
		return r
	}
	if ka < kb {
		return up(a, kb-ka), b, kb
	}
	return a, up(b, ka-kb), ka
}

func mulFits(a, b *Expr) bool {
	for _, p := range [2]int64{a.lo, a.hi} {
		for _, q := range [2]int64{b.lo, b.hi} {
			if m, o := mulO(p, q); o || m < -maxExact || m > maxExact {
				return false
			}
		}
	}
	return true
}

func exactRange(e *Expr) bool { return e.lo >= -maxExact && e.hi <= maxExact }

func (x *Ctx) FFromInt(a *Expr) *Expr { return x.FFromDy(a, 0) }

// half returns e/2 when e is even by construction
func (x *Ctx) half(e *Expr) *Expr {
	switch e.op {
	case OConst:
		if e.k&1 == 0 {
			return x.Const(64, uint64(int64(e.k)>>1))
		}
	case OMul:
		if e.b.op == OConst && e.b.k&1 == 0 && exactRange(e) {
			return x.Mul(e.a, x.Const(64, uint64(int64(e.b.k)>>1)))
		}
	case OAdd, OSub:
		if !exactRange(e) || !exactRange(e.a) || !exactRange(e.b) {
			return nil
		}
		p := x.half(e.a)
		if p == nil {
			return nil
		}
		q := x.half(e.b)
		if q == nil {
			return nil
		}
		return x.Bin(e.op, p, q)
	case OIte:
		p := x.half(e.b)
		if p == nil {
			return nil
		}
		q := x.half(e.c)
		if q == nil {
			return nil
		}
		return x.Ite(e.a, p, q)
	}
	return nil
}

func (x *Ctx) FFromDy(a *Expr, k uint) *Expr {
	if a.w != 64 {
		panic("FFromInt width")
	}
	for k > 0 {
		h := x.half(a)
		if h == nil {
			break
		}
		a = h
		k--
	}
	if a.op == OConst {
		return x.FConst(math.Ldexp(float64(int64(a.k)), -int(k)))
	}
	return x.mk(OFFromInt, wF64, a, nil, nil, uint64(k))
}

func (x *Ctx) FBin(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		p, q := math.Float64frombits(a.k), math.Float64frombits(b.k)
		switch op {
		case OFAdd:
			return x.FConst(p + q)
		case OFSub:
			return x.FConst(p - q)
		case OFMul:
			return x.FConst(p * q)
		case OFDiv:
			return x.FConst(p / q)
		}
	}
	if op == OFDiv && b.op == OConst {
		// by a power of two
		q := math.Float64frombits(b.k)
		if fr, ex := math.Frexp(q); (fr == 0.5 || fr == -0.5) && ex > -maxShift && ex < maxShift {
			if e, _ := x.dyOp(a); e != nil {
				return x.FBin(OFMul, a, x.FConst(1/q))
			}
		}
		if q == math.Trunc(q) && q != 0 && math.Abs(q) < 1<<52 && a.op != OConst {
			if e, k := x.dyOp(a); e != nil && exactRange(e) {
				if r := x.exactDiv(e, x.Const(64, uint64(int64(q)))); r != nil && exactRange(r) {
					return x.FFromDy(r, k)
				}
			}
		}
	}
	if op == OFAdd || op == OFSub || op == OFMul {
		ai, ka := x.dyOp(a)
		bi, kb := x.dyOp(b)
		if ai != nil && bi != nil {
			var r *Expr
			k := ka + kb
			if op != OFMul {
				ai, bi, k = x.align(ai, ka, bi, kb)
			}
			if op == OFMul && !mulFits(ai, bi) {
				return x.mk(op, wF64, a, b, nil, 0)
			}
			if ai != nil && bi != nil && k <= maxShift {
				switch op {
				case OFAdd:
					r = x.Add(ai, bi)
				case OFSub:
					r = x.Sub(ai, bi)
				default:
					// note: 0 * negative is -0 in IEEE; it compares equal to 0
					// (OFSign and OFDiv on such terms are not trusted, see below)
					r = x.Mul(ai, bi)
				}
				if exactRange(r) {
					return x.FFromDy(r, k)
				}
			}
		}
	}
	if op == OFAdd || op == OFSub {
		if r := x.nearInt(op, a, b); r != nil {
			return r
		}
	}
	return x.mk(op, wF64, a, b, nil, 0)
}

// nearInt: the sum of an integer and a constant that is so close to an integer
// that the sum rounds to one
func (x *Ctx) nearInt(op Op, a, b *Expr) *Expr {
	ai, bi := x.asInt(a), x.asInt(b)
	if a.op == OConst && bi != nil && op == OFAdd {
		a, b = b, a
		ai, bi = bi, ai
	}
	if b.op != OConst || ai == nil || a.op == OConst || !exactRange(ai) {
		return nil
	}
	c := math.Float64frombits(b.k)
	if op == OFSub {
		c = -c
	}
	return x.nearIntC(ai, c, math.Abs(c-math.Round(c)))
}

// nearIntC: the rounded sum of ai and a number close to c, off round(c) by at
// most delta
func (x *Ctx) nearIntC(ai *Expr, c, delta float64) *Expr {
	if math.IsNaN(c) || math.Abs(c) > 1<<40 {
		return nil
	}
	n := math.Round(c)
	s := x.Add(ai, x.Const(64, uint64(int64(n))))
	if !exactRange(s) || s.lo <= 0 && s.hi >= 0 {
		return nil
	}
	m := float64(max(s.lo, -s.hi))
	u := (math.Nextafter(m, math.Inf(1)) - m) / 2
	if fr, _ := math.Frexp(m); fr == 0.5 {
		u /= 2 // numbers below m are closer
	}
	if delta < u {
		return x.FFromInt(s)
	}
	return nil
}

// lin reads a float term as e + c with e an integer term (nil: 0), up to an
// error of err
func (x *Ctx) lin(a *Expr, depth int) (e *Expr, c, err float64, ok bool) {
	const big = 1 << 44
	switch a.op {
	case OConst:
		c = math.Float64frombits(a.k)
		return nil, c, 0, !math.IsNaN(c) && math.Abs(c) < big
	case OFFromInt:
		if a.k == 0 && a.a.lo > -big && a.a.hi < big {
			return a.a, 0, 0, true
		}
		return
	case OFNeg:
		if e, c, err, ok = x.lin(a.a, depth); ok {
			if e != nil {
				e = x.Neg(e)
			}
			c = -c
		}
		return
	case OFAdd, OFSub:
		if depth == 0 {
			return
		}
		e1, c1, r1, ok1 := x.lin(a.a, depth-1)
		if !ok1 {
			return
		}
		e2, c2, r2, ok2 := x.lin(a.b, depth-1)
		if !ok2 {
			return
		}
		if a.op == OFSub {
			c2 = -c2
			if e2 != nil {
				e2 = x.Neg(e2)
			}
		}
		switch {
		case e1 == nil:
			e = e2
		case e2 == nil:
			e = e1
		default:
			e = x.Add(e1, e2)
		}
		c, err = c1+c2, r1+r2
	case OFma:
		if depth == 0 || a.a.op != OConst || a.b.op != OConst {
			return
		}
		e, c, err, ok = x.lin(a.c, depth-1)
		if !ok {
			return
		}
		c += math.Float64frombits(a.a.k) * math.Float64frombits(a.b.k)
		if math.IsNaN(c) {
			return nil, 0, 0, false
		}
	case OFMul:
		if depth == 0 || a.b.op != OConst && a.a.op != OConst {
			return
		}
		p, q := a.a, a.b
		if p.op == OConst {
			p, q = q, p
		}
		f := math.Float64frombits(q.k)
		if math.IsNaN(f) || f != math.Trunc(f) || math.Abs(f) > 1<<20 {
			return
		}
		var e1 *Expr
		e1, c, err, ok = x.lin(p, depth-1)
		if !ok {
			return
		}
		if e1 != nil {
			if e1.lo < -1<<24 || e1.hi > 1<<24 {
				return nil, 0, 0, false
			}
			e = x.Mul(e1, x.Const(64, uint64(int64(f))))
		}
		c, err = c*f, err*math.Abs(f)
	default:
		return nil, 0, 0, false
	}
	m := math.Abs(c)
	if e != nil {
		if e.lo < -big || e.hi > big {
			return nil, 0, 0, false
		}
		m += math.Max(math.Abs(float64(e.lo)), math.Abs(float64(e.hi)))
	}
	// rounding of this operation and of c
	err += (m + 1) * 0x1p-50
	return e, c, err, m < big
}

// linInt returns the integer n with e+c in (n, n+1), away from both by more
// than the error
func linInt(c, err float64) (int64, bool) {
	f := math.Floor(c)
	return int64(f), c-f > err && f+1-c > err
}

func (x *Ctx) linFloor(a *Expr) *Expr {
	if e, c, err, ok := x.lin(a, 6); ok && e != nil {
		if n, ok := linInt(c, err); ok {
			return x.Add(e, x.Const(64, uint64(n)))
		}
	}
	return nil
}

func (x *Ctx) FNeg(a *Expr) *Expr {
	if a.op == OConst {
		return x.FConst(-math.Float64frombits(a.k))
	}
	if ai, k := x.asDy(a); ai != nil && (ai.lo > 0 || ai.hi < 0) {
		return x.FFromDy(x.Neg(ai), k)
	}
	return x.mk(OFNeg, wF64, a, nil, nil, 0)
}
func (x *Ctx) absInt(ai *Expr) *Expr {
	if ai.lo >= 0 {
		return ai
	}
	return x.Ite(x.Slt(ai, x.Const(64, 0)), x.Neg(ai), ai)
}
func (x *Ctx) FAbs(a *Expr) *Expr {
	if a.op == OConst {
		return x.FConst(math.Abs(math.Float64frombits(a.k)))
	}
	if ai, k := x.asDy(a); ai != nil && ai.lo > math.MinInt64 {
		return x.FFromDy(x.absInt(ai), k)
	}
	if f := x.linFloor(a); f != nil {
		if f.lo >= 0 {
			return a
		}
		if f.hi < 0 {
			return x.FNeg(a)
		}
	}
	return x.mk(OFAbs, wF64, a, nil, nil, 0)
}
func (x *Ctx) FCmp(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		p, q := math.Float64frombits(a.k), math.Float64frombits(b.k)
		switch op {
		case OFLt:
			return x.Bool(p < q)
		case OFLe:
			return x.Bool(p <= q)
		case OFEq:
			return x.Bool(p == q)
		}
	}
	ai, ka := x.dyOp(a)
	bi, kb := x.dyOp(b)
	if ai != nil && bi != nil {
		if p, q, _ := x.align(ai, ka, bi, kb); p != nil && q != nil {
			switch op {
			case OFLt:
				return x.Slt(p, q)
			case OFLe:
				return x.Sle(p, q)
			case OFEq:
				return x.Eq(p, q)
			}
		}
	}
	// quotients
	if n, d := x.quot(a); n != nil {
		if b.op == OConst {
			q := math.Float64frombits(b.k)
			lt := x.below(n, d, q, func(v float64) bool { return v < q })
			le := x.below(n, d, q, func(v float64) bool { return v <= q })
			if lt != nil && le != nil {
				switch op {
				case OFLt:
					return lt
				case OFLe:
					return le
				case OFEq:
					return x.And(le, x.Not(lt))
				}
			}
		}
		if n2, d2 := x.quot(b); n2 != nil && mulFits(n, d2) && mulFits(n2, d) && mulFits(d, d2) {
			// distinct quotients are further apart than the rounding
			m := max(-n.lo, n.hi, -n2.lo, n2.hi, 1)
			if m < 1<<20 && d.hi < 1<<15 && d2.hi < 1<<15 {
				p, q := x.Mul(n, d2), x.Mul(n2, d)
				switch op {
				case OFLt:
					return x.Slt(p, q)
				case OFLe:
					return x.Sle(p, q)
				case OFEq:
					return x.Eq(p, q)
				}
			}
		}
	}
	if n, _ := x.quot(b); n != nil && a.op == OConst {
		switch op {
		case OFLt:
			if e := x.FCmp(OFLe, b, a); e.op < OFFromInt {
				return x.Not(e)
			}
		case OFLe:
			if e := x.FCmp(OFLt, b, a); e.op < OFFromInt {
				return x.Not(e)
			}
		case OFEq:
			return x.FCmp(OFEq, b, a)
		}
	}
	// compare with a constant that is no such number
	scaled := func(e *Expr, c uint64, k uint) (float64, bool) {
		if e == nil {
			return 0, false
		}
		q := math.Ldexp(math.Float64frombits(c), int(k))
		return q, !math.IsNaN(q) && math.Abs(q) < float64(maxExact)/4
	}
	if b.op == OConst {
		if q, ok := scaled(ai, b.k, ka); ok {
			switch op {
			case OFLt: // a<q
				return x.Slt(ai, x.Const(64, uint64(int64(math.Ceil(q)))))
			case OFLe:
				return x.Sle(ai, x.Const(64, uint64(int64(math.Floor(q)))))
			case OFEq:
				if q != math.Floor(q) {
					return x.F
				}
			}
		}
	}
	if a.op == OConst {
		if q, ok := scaled(bi, a.k, kb); ok {
			switch op {
			case OFLt: // q < b
				return x.Slt(x.Const(64, uint64(int64(math.Floor(q)))), bi)
			case OFLe:
				return x.Sle(x.Const(64, uint64(int64(math.Ceil(q)))), bi)
			case OFEq:
				if q != math.Floor(q) {
					return x.F
				}
			}
		}
	}
	// differences known up to rounding
	if e1, c1, r1, ok := x.lin(a, 6); ok {
		if e2, c2, r2, ok := x.lin(b, 6); ok {
			d := x.Const(64, 0)
			if e1 != nil {
				d = e1
			}
			if e2 != nil {
				d = x.Sub(d, e2)
			}
			c := c1 - c2
			err := r1 + r2 + (math.Abs(c1)+math.Abs(c2))*0x1p-50
			if d.lo > -1<<50 && d.hi < 1<<50 {
				if float64(d.lo)+c > err+1e-3 {
					return x.F
				}
				if float64(d.hi)+c < -err-1e-3 {
					return x.Bool(op != OFEq)
				}
			}
			if n, ok := linInt(-c, err); ok {
				if op == OFEq {
					return x.F
				}
				return x.Sle(d, x.Const(64, uint64(n)))
			}
		}
	}
	return x.mk(op, wBool, a, b, nil, 0)
}

// reduce cancels common factors of n/d (d is not zero)
func (x *Ctx) reduce(n, d *Expr) (*Expr, *Expr) {
	if !exactRange(n) || !exactRange(d) {
		return n, d
	}
	var fs []*Expr
	var col func(e *Expr)
	col = func(e *Expr) {
		e, _ = x.signOf(e)
		if e.op == OMul && exactRange(e.a) && exactRange(e.b) {
			col(e.a)
			col(e.b)
			return
		}
		if e.op != OConst {
			fs = append(fs, e)
		}
	}
	col(d)
	for _, f := range fs {
		if p := x.exactDiv(n, f); p != nil && exactRange(p) {
			if q := x.exactDiv(d, f); q != nil && exactRange(q) {
				n, d = p, q
			}
		}
	}
	if d.hi < 0 {
		n, d = x.Neg(n), x.Neg(d)
	}
	return n, d
}

// quot reads a rounded quotient of integers with a positive divisor
func (x *Ctx) quot(a *Expr) (n, d *Expr) {
	if a.op != OFDiv {
		return
	}
	n, d = x.asInt(a.a), x.asInt(a.b)
	if n == nil || d == nil || d.lo <= 0 || !exactRange(n) || !exactRange(d) {
		return nil, nil
	}
	return
}

// below returns the condition for: the rounded quotient n/d satisfies ok, where
// ok holds for the numbers below some bound near c
func (x *Ctx) below(n, d *Expr, c float64, ok func(float64) bool) *Expr {
	if d.hi > 1<<24 || math.Abs(c) > 1<<24 {
		return nil
	}
	k := math.Floor(c) - 1
	for ok(k + 1) {
		k++
	}
	// the last fraction with a denominator up to d.hi that is below
	p, q, r, s := int64(k), int64(1), int64(k)+1, int64(1)
	for i := 0; q+s <= d.hi; i++ {
		if i > 1<<21 {
			return nil
		}
		if ok(float64(p+r) / float64(q+s)) {
			p, q = p+r, q+s
		} else {
			r, s = p+r, q+s
		}
	}
	pc, qc := x.Const(64, uint64(p)), x.Const(64, uint64(q))
	if !mulFits(n, qc) || !mulFits(d, pc) {
		return nil
	}
	return x.Sle(x.Mul(n, qc), x.Mul(d, pc))
}

// sqrtOf returns |r| for a term r*r
func (x *Ctx) sqrtOf(e *Expr) *Expr {
	if e.op == OMul && e.a == e.b && exactRange(e) {
		return x.absInt(e.a)
	}
	if e.op == OMul && e.b.op == OConst && exactRange(e) {
		r := uint64(math.Sqrt(float64(e.b.k)))
		if r*r == e.b.k {
			if s := x.sqrtOf(e.a); s != nil {
				return x.Mul(s, x.Const(64, r))
			}
		}
	}
	return nil
}

// shr is floor(e / 2^k)
func (x *Ctx) shr(e *Expr, k uint) *Expr {
	if k == 0 {
		return e
	}
	if e.op == OConst {
		return x.Const(64, uint64(int64(e.k)>>k))
	}
	m := int64(1) << k
	// n*2^k + c
	b, c := e, int64(0)
	if e.op == OAdd && e.b.op == OConst {
		b, c = e.a, int64(e.b.k)
	} else if e.op == OSub && e.a.op == OConst {
		b, c = x.Neg(e.b), int64(e.a.k)
	}
	if exactRange(b) && c > -maxExact && c < maxExact {
		h := b
		for i := uint(0); i < k && h != nil; i++ {
			h = x.half(h)
		}
		if h != nil {
			q := c >> k
			return x.Add(h, x.Const(64, uint64(q)))
		}
	}
	if e.lo >= 0 && e.hi < m {
		return x.Const(64, 0)
	}
	return x.Bin(OAshr, e, x.Const(64, uint64(k)))
}

// shrSum: (sum of multiples of 2^j + c) >> k is (sum + (c >> j)) >> (k-j),
// unless something wraps
func (x *Ctx) shrSum(a *Expr, k uint) *Expr {
	var ts []linTerm
	var c uint64
	if !linear(a, 1, &ts, &c) || len(ts) == 0 {
		return nil
	}
	j := k
	lo, hi := int64(c), int64(c)
	for i := range ts {
		t := &ts[i]
		if t.e.op == OMul && t.e.b.op == OConst {
			_, o1 := mulO(t.e.a.lo, int64(t.e.b.k))
			_, o2 := mulO(t.e.a.hi, int64(t.e.b.k))
			_, o3 := mulO(int64(t.k), int64(t.e.b.k))
			if o1 || o2 || o3 {
				return nil
			}
			t.k *= t.e.b.k
			t.e = t.e.a
		}
		if t.k == 0 {
			continue
		}
		if z := uint(bits.TrailingZeros64(t.k)); z < j {
			j = z
		}
		p, o1 := mulO(t.e.lo, int64(t.k))
		q, o2 := mulO(t.e.hi, int64(t.k))
		if p > q {
			p, q = q, p
		}
		var o3, o4 bool
		lo, o3 = addO(lo, p)
		hi, o4 = addO(hi, q)
		if o1 || o2 || o3 || o4 {
			return nil
		}
	}
	if j == 0 {
		return nil
	}
	r := x.Const(64, uint64(int64(c)>>j))
	for _, t := range ts {
		if t.k != 0 {
			r = x.Add(r, x.Mul(t.e, x.Const(64, uint64(int64(t.k)>>j))))
		}
	}
	if k == j {
		return r
	}
	if r.lo >= 0 && k-j < 63 && r.hi < int64(1)<<(k-j) {
		return x.Const(64, 0)
	}
	return x.Bin(OAshr, r, x.Const(64, uint64(k-j)))
}

// roundDy rounds e*2^-k: 0 floor 1 ceil 2 trunc 3 half away from zero
func (x *Ctx) roundDy(e *Expr, k uint, how uint64) *Expr {
	if k == 0 {
		return e
	}
	neg := func(f func(*Expr) *Expr) *Expr { // by sign
		if e.lo >= 0 {
			return f(e)
		}
		n := x.Neg(f(x.Neg(e)))
		if e.hi <= 0 {
			return n
		}
		return x.Ite(x.Slt(e, x.Const(64, 0)), n, f(e))
	}
	switch how {
	case 0:
		return x.shr(e, k)
	case 1:
		return x.Neg(x.shr(x.Neg(e), k))
	case 2:
		return neg(func(e *Expr) *Expr { return x.shr(e, k) })
	}
	return neg(func(e *Expr) *Expr { return x.shr(x.Add(e, x.Const(64, 1<<(k-1))), k) })
}

func (x *Ctx) FUn(op Op, a *Expr, k uint64) *Expr {
	if a.op == OConst {
		p := math.Float64frombits(a.k)
		switch op {
		case OFSqrt:
			return x.FConst(math.Sqrt(p))
		case OFRound:
			switch k {
			case 0:
				return x.FConst(math.Floor(p))
			case 1:
				return x.FConst(math.Ceil(p))
			case 2:
				return x.FConst(math.Trunc(p))
			case 3:
				return x.FConst(math.Round(p))
			}
		}
	}
	if e, sh := x.dyOp(a); e != nil {
		if op == OFRound {
			return x.FFromInt(x.roundDy(e, sh, k))
		}
		if op == OFSqrt && sh%2 == 0 {
			if r := x.sqrtOf(e); r != nil {
				return x.FFromDy(r, sh/2)
			}
		}
	}
	if op == OFRound && k <= 1 {
		if f := x.linFloor(a); f != nil {
			if k == 1 {
				f = x.Add(f, x.Const(64, 1))
			}
			return x.FFromInt(f)
		}
	}
	return x.mk(op, wF64, a, nil, nil, k)
}
func (x *Ctx) FToInt(a *Expr) *Expr {
	if a.op == OConst {
		return x.Const(64, uint64(int64(math.Float64frombits(a.k))))
	}
	if ai, k := x.dyOp(a); ai != nil {
		return x.roundDy(ai, k, 2)
	}
	if f := x.linFloor(a); f != nil && f.lo > -1<<50 && f.hi < 1<<50 {
		if f.lo >= 0 {
			return f
		}
		one := x.Add(f, x.Const(64, 1))
		if f.hi < 0 {
			return one
		}
		return x.Ite(x.Slt(f, x.Const(64, 0)), one, f)
	}
	return x.mk(OFToInt, 64, a, nil, nil, 0)
}

// signOf strips the sign of a product: e = +-r
func (x *Ctx) signOf(e *Expr) (*Expr, bool) {
	if e.op == OSub && e.a.op == OConst && e.a.k == 0 {
		r, n := x.signOf(e.b)
		return r, !n
	}
	if e.op == OMul && e.b.op == OConst && e.b.k == mask(64) {
		r, n := x.signOf(e.a)
		return r, !n
	}
	return e, false
}

// exactDiv returns q with q*d == n exactly for every nonzero d, or nil
func (x *Ctx) exactDiv(n, d *Expr) *Expr {
	if n.op == OConst && n.k == 0 {
		return n
	}
	if !exactRange(n) || !exactRange(d) {
		return nil
	}
	n, sn := x.signOf(n)
	d, sd := x.signOf(d)
	fix := func(q *Expr) *Expr {
		if sn != sd {
			return x.Neg(q)
		}
		return q
	}
	same := func(p, q *Expr) int {
		if p == q {
			return 1
		}
		if s := x.Sub(p, q); s.op == OConst && s.k == 0 {
			return 1
		}
		if s := x.Add(p, q); s.op == OConst && s.k == 0 {
			return -1
		}
		return 0
	}
	if s := same(n, d); s != 0 {
		return fix(x.Const(64, uint64(int64(s))))
	}
	if d.op == OMul {
		if q := x.exactDiv(n, d.a); q != nil {
			if r := x.exactDiv(q, d.b); r != nil {
				return fix(r)
			}
		}
		if q := x.exactDiv(n, d.b); q != nil {
			if r := x.exactDiv(q, d.a); r != nil {
				return fix(r)
			}
		}
	}
	if n.op == OMul {
		if s := same(n.a, d); s != 0 {
			if s < 0 {
				return fix(x.Neg(n.b))
			}
			return fix(n.b)
		}
		if s := same(n.b, d); s != 0 {
			if s < 0 {
				return fix(x.Neg(n.a))
			}
			return fix(n.a)
		}
		if q := x.exactDiv(n.a, d); q != nil {
			return fix(x.Mul(q, n.b))
		}
		if q := x.exactDiv(n.b, d); q != nil {
			return fix(x.Mul(n.a, q))
		}
	}
	return nil
}

func (x *Ctx) FSign(a *Expr) *Expr {
	if a.op == OConst {
		return x.Bool(math.Signbit(math.Float64frombits(a.k)))
	}
	return x.mk(OFSign, wBool, a, nil, nil, 0)
}

// ---- evaluation under a model ----

type Model struct {
	vals []uint64
}

func (m *Model) get(v uint64) uint64 {
	if m == nil || v >= uint64(len(m.vals)) {
		return 0
	}
	return m.vals[v]
}

type evalCache struct {
	gen  int32
	mark []int32
	val  []uint64
}

func (x *Ctx) varVal(m *Model, vi uint64) uint64 {
	v := x.vars[vi]
	if m != nil && vi < uint64(len(m.vals)) {
		return m.vals[vi]
	}
	// default: a value within the declared range
	if v.e.w == wBool || v.e.w == wF64 {
		return 0
	}
	if v.lo <= 0 && v.hi >= 0 {
		return 0
	}
	return uint64(v.lo) & mask(v.e.w)
}

func (x *Ctx) EvalStart() {
	x.ev.gen++
	n := int(x.n) + 1024
	if len(x.ev.mark) < n {
		x.ev.mark = append(x.ev.mark, make([]int32, n*2-len(x.ev.mark))...)
		x.ev.val = append(x.ev.val, make([]uint64, n*2-len(x.ev.val))...)
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (x *Ctx) Eval(e *Expr, m *Model) uint64 {
	x.EvalStart()
	return x.eval(e, m)
}

func (x *Ctx) eval(e *Expr, m *Model) uint64 {
	if e.op == OConst {
		return e.k
	}
	if x.ev.mark[e.id] == x.ev.gen {
		return x.ev.val[e.id]
	}
	var r uint64
	f := math.Float64frombits
	switch e.op {
	case OVar:
		r = x.varVal(m, e.k)
	case ONot:
		r = 1 - x.eval(e.a, m)
	case OAnd:
		r = x.eval(e.a, m)
		if r != 0 {
			r = x.eval(e.b, m)
		}
	case OOr:
		r = x.eval(e.a, m)
		if r == 0 {
			r = x.eval(e.b, m)
		}
	case OEq:
		r = b2u(x.eval(e.a, m) == x.eval(e.b, m))
	case OUlt:
		r = b2u(x.eval(e.a, m) < x.eval(e.b, m))
	case OSlt:
		r = b2u(sext(x.eval(e.a, m), e.a.w) < sext(x.eval(e.b, m), e.b.w))
	case OIte:
		if x.eval(e.a, m) != 0 {
			r = x.eval(e.b, m)
		} else {
			r = x.eval(e.c, m)
		}
	case OAdd:
		r = (x.eval(e.a, m) + x.eval(e.b, m)) & mask(e.w)
	case OSub:
		r = (x.eval(e.a, m) - x.eval(e.b, m)) & mask(e.w)
	case OMul:
		r = (x.eval(e.a, m) * x.eval(e.b, m)) & mask(e.w)
	case OUDiv, OURem, OSDiv, OSRem, OShl, OLshr, OAshr, OBAnd, OBOr, OBXor:
		p, q := x.eval(e.a, m), x.eval(e.b, m)
		v, ok := foldBin(e.op, e.w, p, q)
		if !ok {
			// SMT-LIB semantics
			switch e.op {
			case OUDiv:
				v = mask(e.w)
			case OURem, OSRem:
				v = p
			case OSDiv:
				if sext(p, e.w) < 0 {
					v = 1
				} else {
					v = mask(e.w)
				}
			}
		}
		r = v
	case OExtract:
		r = (x.eval(e.a, m) >> (e.k & 255)) & mask(e.w)
	case OConcat:
		r = x.eval(e.a, m)<<e.b.w | x.eval(e.b, m)
	case OZExt:
		r = x.eval(e.a, m)
	case OSExt:
		r = uint64(sext(x.eval(e.a, m), e.a.w)) & mask(e.w)
	case OFFromInt:
		r = math.Float64bits(math.Ldexp(float64(int64(x.eval(e.a, m))), -int(e.k)))
	case OFFromUint:
		r = math.Float64bits(float64(x.eval(e.a, m)))
	case OFToInt:
		r = uint64(int64(f(x.eval(e.a, m))))
	case OFAdd:
		r = math.Float64bits(f(x.eval(e.a, m)) + f(x.eval(e.b, m)))
	case OFSub:
		r = math.Float64bits(f(x.eval(e.a, m)) - f(x.eval(e.b, m)))
	case OFMul:
		r = math.Float64bits(f(x.eval(e.a, m)) * f(x.eval(e.b, m)))
	case OFDiv:
		r = math.Float64bits(f(x.eval(e.a, m)) / f(x.eval(e.b, m)))
	case OFNeg:
		r = math.Float64bits(-f(x.eval(e.a, m)))
	case OFAbs:
		r = math.Float64bits(math.Abs(f(x.eval(e.a, m))))
	case OFSqrt:
		r = math.Float64bits(math.Sqrt(f(x.eval(e.a, m))))
	case OFRound:
		v := f(x.eval(e.a, m))
		switch e.k {
		case 0:
			v = math.Floor(v)
		case 1:
			v = math.Ceil(v)
		case 3:
			v = math.Round(v)
		default:
			v = math.Trunc(v)
		}
		r = math.Float64bits(v)
	case OFLt:
		r = b2u(f(x.eval(e.a, m)) < f(x.eval(e.b, m)))
	case OFLe:
		r = b2u(f(x.eval(e.a, m)) <= f(x.eval(e.b, m)))
	case OFEq:
		r = b2u(f(x.eval(e.a, m)) == f(x.eval(e.b, m)))
	case OFSign:
		r = b2u(math.Signbit(f(x.eval(e.a, m))))
	case OFma:
		r = math.Float64bits(math.FMA(f(x.eval(e.a, m)), f(x.eval(e.b, m)), f(x.eval(e.c, m))))
	default:
		panic(fmt.Sprintf("eval op %d", e.op))
	}
	x.ev.mark[e.id] = x.ev.gen
	x.ev.val[e.id] = r
	return r
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	switch w {
	case wBool:
		return "Bool"
	case wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constName(e *Expr) string {
	switch e.w {
	case wBool:
		if e.k != 0 {
			return "true"
		}
		return "false"
	case wF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", e.k)
	}
	if e.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(e.w/4), e.k)
	}
	return fmt.Sprintf("#b%0*b", int(e.w), e.k)
}

func (x *Ctx) ref(e *Expr) string {
	if e.op == OConst {
		return constName(e)
	}
	if e.op == OVar {
		return fmt.Sprintf("v%d", e.k)
	}
	return fmt.Sprintf("e%d", e.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFSqrt: "fp.sqrt RNE", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFSign: "fp.isNegative", OFma: "fp.fma RNE"}

func (x *Ctx) body(e *Expr) string {
	switch e.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", e.k>>8, e.k&255, x.ref(e.a))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, x.ref(e.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, x.ref(e.a))
	case OFFromInt:
		if e.k != 0 {
			return fmt.Sprintf("(fp.div RNE ((_ to_fp 11 53) RNE %s) ((_ to_fp 11 53) RNE %d.0))", x.ref(e.a), uint64(1)<<e.k)
		}
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", x.ref(e.a))
	case OFFromUint:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", x.ref(e.a))
	case OFToInt:
		return fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", x.ref(e.a))
	case OFRound:
		rm := []string{"RTN", "RTP", "RTZ", "RNA"}[e.k]
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", rm, x.ref(e.a))
	}
	n, ok := opNames[e.op]
	if !ok {
		panic(fmt.Sprintf("print op %d", e.op))
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(n)
	for _, s := range []*Expr{e.a, e.b, e.c} {
		if s != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref(s))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Emit writes the definitions needed for e, using mark generation gen.
func (x *Ctx) Emit(sb *strings.Builder, e *Expr, gen int32) {
	if e.emitted == gen || e.op == OConst {
		return
	}
	// iterative DFS
	stack := []*Expr{e}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if t.emitted == gen || t.op == OConst {
			stack = stack[:len(stack)-1]
			continue
		}
		pushed := false
		for _, s := range []*Expr{t.a, t.b, t.c} {
			if s != nil && s.op != OConst && s.emitted != gen {
				stack = append(stack, s)
				pushed = true
			}
		}
		if pushed {
			continue
		}
		t.emitted = gen
		stack = stack[:len(stack)-1]
		if t.op == OVar {
			vi := x.vars[t.k]
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.k, sortName(t.w))
			if t.w != wBool && t.w != wF64 {
				if vi.lo > minS(t.w) {
					fmt.Fprintf(sb, "(assert (bvsle %s v%d))\n", constName(x.Const(t.w, uint64(vi.lo))), t.k)
				}
				if vi.hi < maxS(t.w) {
					fmt.Fprintf(sb, "(assert (bvsle v%d %s))\n", t.k, constName(x.Const(t.w, uint64(vi.hi))))
				}
			}
			continue
		}
		fmt.Fprintf(sb, "(define-fun e%d () %s %s)\n", t.id, sortName(t.w), x.body(t))
	}
}
