package main

import (
	"regexp"
	"regexp/syntax"
)

// symRegex decides whether re matches somewhere in a string of symbolic bytes,
// as one formula (positions reachable under which condition).  ok is false if
// the pattern uses something outside the supported subset (ASCII literals,
// classes, anchors, groups, repetition, alternation).
func (it *Interp) symRegex(re *regexp.Regexp, bs []Val) (r Val, ok bool) {
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return Val{}, false
	}
	x := it.x
	n := len(bs)
	type set []*Expr
	none := func() set {
		s := make(set, n+1)
		for i := range s {
			s[i] = x.F
		}
		return s
	}
	or := func(a, b set) set {
		s := make(set, n+1)
		for i := range s {
			s[i] = x.Or(a[i], b[i])
		}
		return s
	}
	empty := func(s set) bool {
		for _, e := range s {
			if e != x.F {
				return false
			}
		}
		return true
	}
	ok = true
	inClass := func(b Val, rs []rune) *Expr {
		e := it.expr(b, 8)
		r := x.F
		for i := 0; i+1 < len(rs); i += 2 {
			if rs[i+1] >= 0x80 {
				ok = false
				return x.F
			}
			lo, hi := x.Const(8, uint64(rs[i])), x.Const(8, uint64(rs[i+1]))
			if rs[i] == rs[i+1] {
				r = x.Or(r, x.Eq(e, lo))
			} else {
				r = x.Or(r, x.And(x.Ule(lo, e), x.Ule(e, hi)))
			}
		}
		return r
	}
	var run func(p *syntax.Regexp, s set) set
	run = func(p *syntax.Regexp, s set) set {
		switch p.Op {
		case syntax.OpEmptyMatch:
			return s
		case syntax.OpLiteral:
			if p.Flags&syntax.FoldCase != 0 {
				for _, c := range p.Rune {
					if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
						ok = false
					}
				}
			}
			for _, c := range p.Rune {
				t := none()
				for i := 0; i < n; i++ {
					if s[i] != x.F {
						t[i+1] = x.And(s[i], inClass(bs[i], []rune{c, c}))
					}
				}
				s = t
			}
			return s
		case syntax.OpCharClass:
			t := none()
			for i := 0; i < n; i++ {
				if s[i] != x.F {
					t[i+1] = x.And(s[i], inClass(bs[i], p.Rune))
				}
			}
			return t
		case syntax.OpBeginText:
			t := none()
			t[0] = s[0]
			return t
		case syntax.OpEndText:
			t := none()
			t[n] = s[n]
			return t
		case syntax.OpCapture:
			return run(p.Sub[0], s)
		case syntax.OpConcat:
			for _, q := range p.Sub {
				s = run(q, s)
			}
			return s
		case syntax.OpAlternate:
			t := none()
			for _, q := range p.Sub {
				t = or(t, run(q, s))
			}
			return t
		case syntax.OpQuest:
			return or(s, run(p.Sub[0], s))
		case syntax.OpStar, syntax.OpPlus:
			acc := s
			if p.Op == syntax.OpPlus {
				s = run(p.Sub[0], s)
				acc = s
			}
			for i := 0; i < n && !empty(s); i++ {
				s = run(p.Sub[0], s)
				acc = or(acc, s)
			}
			return acc
		}
		ok = false
		return none()
	}
	st := none()
	for i := range st {
		st[i] = x.T
	}
	e := run(p, st)
	if !ok {
		return Val{}, false
	}
	m := x.F
	for _, c := range e {
		m = x.Or(m, c)
	}
	return sv(m), true
}

// symMatch is Match for arguments with symbolic bytes
func (it *Interp) symMatch(re *regexp.Regexp, bs []Val) Val {
	for _, b := range bs {
		if b.sym() != nil {
			if v, ok := it.symRegex(re, bs); ok {
				return v
			}
			break
		}
	}
	return cbool(re.MatchString(it.goStr(mkStr(bs))))
}
