package main

// Narrow encoding of queries.  Like the integer encoding it rests on the signed
// interval of every term: where nothing wraps around, all terms can be computed
// in bit-vectors that are just wide enough for the largest of them, which makes
// products cheap.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

func bitsFor(lo, hi int64) int {
	n := 1
	for n < 64 && (lo < -(1<<(n-1)) || hi > 1<<(n-1)-1) {
		n++
	}
	return n
}

// narrowWidth: the width that suits all terms, 64 if there is none below
func narrowWidth(cs []*Expr) int {
	w := 2
	seen := map[*Expr]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || seen[e] {
			return
		}
		seen[e] = true
		if e.w != wBool {
			lo, hi := e.lo, e.hi
			if e.op == OConst {
				lo = sext(e.k, e.w)
				hi = lo
			}
			if n := bitsFor(lo, hi); n > w {
				w = n
			}
		}
		switch e.op {
		case OShl, OLshr, OAshr:
			rec(e.a)
			if e.op == OShl {
				if n := int(e.b.k) + 2; n > w {
					w = n
				}
			}
			return
		}
		rec(e.a)
		rec(e.b)
		rec(e.c)
	}
	for _, c := range cs {
		rec(c)
	}
	return w
}

func litN(v int64, w int) string {
	u := uint64(v)
	if w < 64 {
		u &= 1<<uint(w) - 1
	}
	return fmt.Sprintf("(_ bv%d %d)", u, w)
}

func (x *Ctx) refN(e *Expr, w int) string {
	if e.op == OConst {
		if e.w == wBool {
			if e.k != 0 {
				return "true"
			}
			return "false"
		}
		return litN(sext(e.k, e.w), w)
	}
	if e.op == OVar {
		return fmt.Sprintf("v%d", e.k)
	}
	return fmt.Sprintf("e%d", e.id)
}

func (x *Ctx) bodyN(e *Expr, w int) string {
	a := ""
	if e.a != nil {
		a = x.refN(e.a, w)
	}
	b := ""
	if e.b != nil && e.op != OShl && e.op != OLshr && e.op != OAshr {
		b = x.refN(e.b, w)
	}
	bin := func(op string) string { return "(" + op + " " + a + " " + b + ")" }
	zero := litN(0, w)
	shr := func(k uint64) string {
		if int(k) >= w {
			k = uint64(w - 1)
		}
		return fmt.Sprintf("(bvashr %s %s)", a, litN(int64(k), w))
	}
	switch e.op {
	case ONot:
		return "(not " + a + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OSlt:
		return bin("bvslt")
	case OUlt:
		return bin("bvult")
	case OIte:
		return "(ite " + a + " " + b + " " + x.refN(e.c, w) + ")"
	case OSExt:
		return a
	case OZExt:
		if e.a.lo >= 0 {
			return a
		}
		return fmt.Sprintf("(ite (bvslt %s %s) (bvadd %s %s) %s)", a, zero, a, litN(int64(1)<<e.a.w, w), a)
	case OAdd:
		return bin("bvadd")
	case OSub:
		return bin("bvsub")
	case OMul:
		return bin("bvmul")
	case OSDiv:
		return bin("bvsdiv")
	case OSRem:
		return bin("bvsrem")
	case OUDiv:
		return bin("bvudiv")
	case OURem:
		return bin("bvurem")
	case OShl:
		return fmt.Sprintf("(bvshl %s %s)", a, litN(int64(e.b.k), w))
	case OLshr, OAshr:
		return shr(e.b.k)
	case OBAnd:
		return bin("bvand")
	case OExtract:
		l := e.k & 255
		src := a
		lo, hi := e.a.lo, e.a.hi
		if l > 0 {
			src = shr(l)
			lo, hi = lo>>l, hi>>l
		}
		if lo >= minS(e.w) && hi <= maxS(e.w) || int(e.w) >= w {
			return src
		}
		return fmt.Sprintf("((_ sign_extend %d) ((_ extract %d 0) %s))", w-int(e.w), e.w-1, src)
	}
	panic(fmt.Sprintf("bodyN op %d", e.op))
}

func (s *Solver) narrowScript(cs []*Expr, w int) string {
	x := s.x
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	done := map[*Expr]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || done[e] || e.op == OConst {
			return
		}
		done[e] = true
		rec(e.a)
		rec(e.b)
		rec(e.c)
		if e.op == OVar {
			vi := x.vars[e.k]
			if e.w == wBool {
				fmt.Fprintf(&sb, "(declare-const v%d Bool)\n", e.k)
			} else {
				fmt.Fprintf(&sb, "(declare-const v%d (_ BitVec %d))\n(assert (bvsle %s v%d))\n(assert (bvsle v%d %s))\n",
					e.k, w, litN(vi.lo, w), e.k, e.k, litN(vi.hi, w))
			}
			return
		}
		srt := "Bool"
		if e.w != wBool {
			srt = fmt.Sprintf("(_ BitVec %d)", w)
		}
		fmt.Fprintf(&sb, "(define-fun e%d () %s %s)\n", e.id, srt, x.bodyN(e, w))
	}
	for _, c := range cs {
		rec(c)
		fmt.Fprintf(&sb, "(assert %s)\n", x.refN(c, w))
	}
	sb.WriteString("(check-sat)\n")
	if vs := s.varsOf(cs); len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (s *Solver) rawNarrow(cs []*Expr, ms int) (SatRes, map[uint64]uint64) {
	w := narrowWidth(cs)
	if w > 48 {
		return UNKNOWN, nil
	}
	if !s.deadline.IsZero() {
		left := int(time.Until(s.deadline) / time.Millisecond)
		if left < 500 {
			return UNKNOWN, nil
		}
		if left < ms {
			ms = left
		}
	}
	s.NarQ++
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3", "-in", "-smt2")
	script := s.narrowScript(cs, w)
	if d := os.Getenv("SYMGO_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/n%d.smt2", d, s.NarQ), []byte(script), 0644)
	}
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	txt := string(out)
	first, rest, _ := strings.Cut(txt, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		return UNSAT, nil
	case "sat":
		m := map[uint64]uint64{}
		if len(s.varsOf(cs)) > 0 {
			var err error
			m, err = parseModel(strings.TrimSpace(rest), s.x)
			if err != nil {
				s.Errors++
				s.lastErr = err.Error()
				return UNKNOWN, nil
			}
		}
		for k, v := range m {
			vw := s.x.vars[k].e.w
			if vw != wBool {
				m[k] = uint64(sext(v, uint8(w))) & mask(vw)
			}
		}
		return SAT, m
	}
	return UNKNOWN, nil
}
