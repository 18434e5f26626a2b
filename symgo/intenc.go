package main

// Integer encoding of queries.  Every bit-vector term carries a signed
// interval that holds for all values of the inputs; where those intervals
// show that no operation wraps around, the term equals the corresponding
// integer term, and linear queries are decided much faster as integer
// arithmetic than by bit-blasting.

import (
	"fmt"
	"math/bits"
	"os"
	"strings"
)

// icLin: convertible and linear; icNon: convertible, nonlinear; icNo: not
const (
	icUnset = iota
	icLin
	icNon
	icNo
)

func maxU8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}

func pow2of(v uint64) (int, bool) {
	if v != 0 && v&(v-1) == 0 {
		return bits.TrailingZeros64(v), true
	}
	return 0, false
}

func (x *Ctx) intClass(e *Expr) uint8 {
	if e.ic != icUnset {
		return e.ic
	}
	c := uint8(icLin)
	for _, s := range [3]*Expr{e.a, e.b, e.c} {
		if s != nil {
			c = maxU8(c, x.intClass(s))
		}
	}
	if c == icNo {
		e.ic = icNo
		return icNo
	}
	if e.w == wF64 || (e.a != nil && e.a.w == wF64) {
		e.ic = icNo
		return icNo
	}
	fits := func(l, h int64, o1, o2 bool) bool {
		return !o1 && !o2 && l >= minS(e.w) && h <= maxS(e.w)
	}
	switch e.op {
	case OConst, OVar, ONot, OAnd, OOr, OEq, OUlt, OSlt, OIte, OSExt:
	case OZExt:
		if e.a.lo < 0 && e.a.w >= 62 {
			c = icNo
		}
	case OAdd:
		l, o1 := addO(e.a.lo, e.b.lo)
		h, o2 := addO(e.a.hi, e.b.hi)
		if !fits(l, h, o1, o2) {
			c = icNo
		}
	case OSub:
		l, o1 := subO(e.a.lo, e.b.hi)
		h, o2 := subO(e.a.hi, e.b.lo)
		if !fits(l, h, o1, o2) {
			c = icNo
		}
	case OMul:
		for _, p := range [2]int64{e.a.lo, e.a.hi} {
			for _, q := range [2]int64{e.b.lo, e.b.hi} {
				m, o := mulO(p, q)
				if o || m < minS(e.w) || m > maxS(e.w) {
					c = icNo
				}
			}
		}
		if c != icNo && !e.a.isC() && !e.b.isC() {
			c = icNon
		}
	case OSDiv, OSRem:
		if e.b.isC() {
			if e.b.k == 0 || sext(e.b.k, e.b.w) == -1 && e.a.lo == minS(e.w) {
				c = icNo
			}
		} else if e.a.lo > minS(e.w) && (e.b.lo > 0 || e.b.hi < 0) {
			c = icNon
		} else {
			c = icNo
		}
	case OUDiv, OURem:
		if !(e.b.isC() && sext(e.b.k, e.b.w) > 0 && e.a.lo >= 0) {
			c = icNo
		}
	case OShl:
		if !e.b.isC() || e.b.k >= 62 {
			c = icNo
			break
		}
		l, o1 := mulO(e.a.lo, 1<<e.b.k)
		h, o2 := mulO(e.a.hi, 1<<e.b.k)
		if !fits(l, h, o1, o2) {
			c = icNo
		}
	case OLshr:
		if !e.b.isC() || e.b.k >= 62 || e.a.lo < 0 {
			c = icNo
		}
	case OAshr:
		if !e.b.isC() || e.b.k >= 62 {
			c = icNo
		}
	case OBAnd:
		if !e.b.isC() {
			c = icNo
			break
		}
		k := sext(e.b.k, e.w)
		if k >= 0 {
			if _, ok := pow2of(uint64(k) + 1); !ok || k >= 1<<61 {
				c = icNo
			}
		} else if _, ok := pow2of(uint64(-k)); !ok || -k >= 1<<61 {
			c = icNo
		}
	case OExtract:
		hi := e.k >> 8
		if hi >= 62 {
			l := uint8(e.k & 255)
			if l == 0 {
				c = icNo
			}
		}
	default:
		c = icNo
	}
	if c == icNo && os.Getenv("SYMGO_ICNO") != "" {
		fmt.Fprintf(os.Stderr, "icno op=%d w=%d [%d,%d] a=", e.op, e.w, e.lo, e.hi)
		for _, s := range [3]*Expr{e.a, e.b, e.c} {
			if s != nil {
				fmt.Fprintf(os.Stderr, " (op=%d w=%d k=%d [%d,%d])", s.op, s.w, s.k, s.lo, s.hi)
			}
		}
		fmt.Fprintln(os.Stderr)
	}
	e.ic = c
	return c
}

func (x *Ctx) refI(e *Expr) string {
	if e.op == OConst {
		if e.w == wBool {
			if e.k != 0 {
				return "true"
			}
			return "false"
		}
		return intLit(sext(e.k, e.w))
	}
	if e.op == OVar {
		return fmt.Sprintf("v%d", e.k)
	}
	return fmt.Sprintf("e%d", e.id)
}

func intLit(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %d)", uint64(-v))
	}
	return fmt.Sprintf("%d", v)
}

func (x *Ctx) bodyI(e *Expr) string {
	a := ""
	if e.a != nil {
		a = x.refI(e.a)
	}
	b := ""
	if e.b != nil {
		b = x.refI(e.b)
	}
	switch e.op {
	case ONot:
		return "(not " + a + ")"
	case OAnd:
		return "(and " + a + " " + b + ")"
	case OOr:
		return "(or " + a + " " + b + ")"
	case OEq:
		return "(= " + a + " " + b + ")"
	case OSlt:
		return "(< " + a + " " + b + ")"
	case OUlt:
		if e.a.lo >= 0 && e.b.lo >= 0 {
			return "(< " + a + " " + b + ")"
		}
		return fmt.Sprintf("(ite (= (< %s 0) (< %s 0)) (< %s %s) (< %s 0))", a, b, a, b, b)
	case OIte:
		return "(ite " + a + " " + b + " " + x.refI(e.c) + ")"
	case OSExt:
		return a
	case OZExt:
		if e.a.lo >= 0 {
			return a
		}
		return fmt.Sprintf("(ite (< %s 0) (+ %s %d) %s)", a, a, uint64(1)<<e.a.w, a)
	case OAdd:
		return "(+ " + a + " " + b + ")"
	case OSub:
		return "(- " + a + " " + b + ")"
	case OMul:
		return "(* " + a + " " + b + ")"
	case OSDiv, OSRem:
		var q string
		if e.b.isC() {
			k := sext(e.b.k, e.b.w)
			if k < 0 {
				q = fmt.Sprintf("(ite (>= %s 0) (- (div %s %d)) (div (- %s) %d))", a, a, uint64(-k), a, uint64(-k))
			} else {
				q = fmt.Sprintf("(ite (>= %s 0) (div %s %d) (- (div (- %s) %d)))", a, a, k, a, k)
			}
		} else {
			q = fmt.Sprintf("(ite (= (>= %s 0) (> %s 0)) (div (abs %s) (abs %s)) (- (div (abs %s) (abs %s))))", a, b, a, b, a, b)
		}
		if e.op == OSDiv {
			return q
		}
		return fmt.Sprintf("(- %s (* %s %s))", a, b, q)
	case OUDiv:
		return "(div " + a + " " + b + ")"
	case OURem:
		return "(mod " + a + " " + b + ")"
	case OShl:
		return fmt.Sprintf("(* %s %d)", a, uint64(1)<<e.b.k)
	case OLshr, OAshr:
		return fmt.Sprintf("(div %s %d)", a, uint64(1)<<e.b.k)
	case OBAnd:
		k := sext(e.b.k, e.w)
		if k >= 0 {
			return fmt.Sprintf("(mod %s %d)", a, uint64(k)+1)
		}
		return fmt.Sprintf("(- %s (mod %s %d))", a, a, uint64(-k))
	case OExtract:
		l := e.k & 255
		src := a
		lo, hi := e.a.lo, e.a.hi
		if l > 0 {
			src = fmt.Sprintf("(div %s %d)", a, uint64(1)<<l)
			lo, hi = lo>>l, hi>>l
		}
		if lo >= minS(e.w) && hi <= maxS(e.w) {
			return src
		}
		h := uint64(1) << (e.w - 1)
		return fmt.Sprintf("(- (mod (+ %s %d) %d) %d)", src, h, h*2, h)
	}
	panic(fmt.Sprintf("bodyI op %d", e.op))
}

func (x *Ctx) EmitI(sb *strings.Builder, e *Expr, gen int32) {
	if e.emittedI == gen || e.op == OConst {
		return
	}
	stack := []*Expr{e}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if t.emittedI == gen || t.op == OConst {
			stack = stack[:len(stack)-1]
			continue
		}
		pushed := false
		for _, s := range []*Expr{t.a, t.b, t.c} {
			if s != nil && s.op != OConst && s.emittedI != gen {
				stack = append(stack, s)
				pushed = true
			}
		}
		if pushed {
			continue
		}
		t.emittedI = gen
		stack = stack[:len(stack)-1]
		srt := "Int"
		if t.w == wBool {
			srt = "Bool"
		}
		if t.op == OVar {
			vi := x.vars[t.k]
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.k, srt)
			if t.w != wBool {
				fmt.Fprintf(sb, "(assert (<= %s v%d))\n(assert (<= v%d %s))\n", intLit(vi.lo), t.k, t.k, intLit(vi.hi))
			}
			continue
		}
		fmt.Fprintf(sb, "(define-fun e%d () %s %s)\n", t.id, srt, x.bodyI(t))
	}
}

// parseIntVal reads "5" or "( - 5 )"
func parseIntVal(t []string) uint64 {
	if len(t) == 1 {
		switch t[0] {
		case "true":
			return 1
		case "false":
			return 0
		}
		var v uint64
		fmt.Sscanf(t[0], "%d", &v)
		return v
	}
	if len(t) >= 3 && t[1] == "-" {
		var v uint64
		fmt.Sscanf(t[2], "%d", &v)
		return -v
	}
	return 0
}
