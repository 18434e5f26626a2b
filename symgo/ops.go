package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- pointers ----------

func (it *Interp) nilDeref() {
	panic(targetPanic{msg: "invalid memory address or nil pointer dereference", v: it.rtErr("invalid memory address or nil pointer dereference")})
}

func (it *Interp) ptrAdd(p Val, off int) Val {
	switch o := p.r.(type) {
	case *Obj:
		return Val{r: o, u: p.u + uint64(off)}
	case *PtrUnion:
		o = it.noNil(o)
		n := make([]PtrAlt, 0, len(o.alts))
		for _, a := range o.alts {
			n = append(n, PtrAlt{a.g, a.obj, a.off + off})
		}
		if len(n) == 1 {
			return Val{r: n[0].obj, u: uint64(n[0].off)}
		}
		return Val{r: &PtrUnion{n}}
	case nil:
		it.nilDeref()
	}
	panic(unsupported("pointer arithmetic on %T", p.r))
}

// noNil drops the nil alternative after checking it cannot be taken, and
// alternatives excluded by the path condition syntactically.
func (it *Interp) noNil(u *PtrUnion) *PtrUnion {
	n := u.alts[:0:0]
	changed := false
	for _, a := range u.alts {
		if v, ok := it.implied(a.g); ok && !v {
			changed = true
			continue
		}
		if a.obj == nil {
			it.rtCheck(it.x.Not(a.g), "invalid memory address or nil pointer dereference")
			changed = true
			continue
		}
		n = append(n, a)
	}
	if !changed {
		return u
	}
	if len(n) == 0 {
		panic(deadArm{})
	}
	return &PtrUnion{n}
}

// pickPtr resolves a guarded pointer to a concrete one by branching.
func (it *Interp) pickPtr(p Val) Val {
	u, ok := p.r.(*PtrUnion)
	if !ok {
		return p
	}
	for i, a := range u.alts {
		if i == len(u.alts)-1 || it.branch(a.g) {
			if a.obj == nil {
				return Val{}
			}
			return Val{r: a.obj, u: uint64(a.off)}
		}
	}
	panic("unreachable")
}

func (it *Interp) load(p Val, t types.Type, n int) Val {
	switch o := p.r.(type) {
	case *Obj:
		if !isAgg(t) {
			return o.get(int(p.u))
		}
		s := make(Agg, n)
		for i := 0; i < n; i++ {
			s[i] = o.get(int(p.u) + i)
		}
		return Val{r: s}
	case *PtrUnion:
		u := it.noNil(o)
		get := func(a PtrAlt) Val { return it.load(Val{r: a.obj, u: uint64(a.off)}, t, n) }
		r := get(u.alts[len(u.alts)-1])
		if w, _ := widthOf(t); w != 0 && !isAgg(t) {
			// scalar: group equal values
			for i := len(u.alts) - 2; i >= 0; i-- {
				v := get(u.alts[i])
				m, ok := it.mergeVal(u.alts[i].g, v, r)
				if !ok {
					panic(unsupported("scalar merge"))
				}
				if m.r == nil && m.w == 0 {
					m = Val{w: w, u: m.u}
				}
				r = m
			}
			return r
		}
		ok := true
		for i := len(u.alts) - 2; i >= 0 && ok; i-- {
			r, ok = it.mergeVal(u.alts[i].g, get(u.alts[i]), r)
		}
		if ok {
			return r
		}
		return it.load(it.pickPtr(Val{r: u}), t, n)
	case nil:
		it.nilDeref()
	}
	panic(unsupported("load through %T", p.r))
}

func (it *Interp) store(p, v Val, t types.Type, n int) {
	switch o := p.r.(type) {
	case *Obj:
		if !isAgg(t) {
			it.set(o, int(p.u), v)
			return
		}
		if v.r == nil {
			for i := 0; i < n; i++ {
				it.set(o, int(p.u)+i, Val{})
			}
			return
		}
		for i, e := range v.r.(Agg) {
			it.set(o, int(p.u)+i, e)
		}
		return
	case *PtrUnion:
		u := it.noNil(o)
		vs := it.flat(v, t)
		// check mergeability first
		type wr struct {
			o *Obj
			i int
			v Val
		}
		var ws []wr
		for _, a := range u.alts {
			for i, e := range vs {
				m, ok := it.mergeVal(a.g, e, a.obj.get(a.off+i))
				if !ok {
					it.store(it.pickPtr(Val{r: u}), v, t, n)
					return
				}
				ws = append(ws, wr{a.obj, a.off + i, m})
			}
		}
		for _, w := range ws {
			it.set(w.o, w.i, w.v)
		}
		return
	case nil:
		it.nilDeref()
	}
	panic(unsupported("store through %T", p.r))
}

func (it *Interp) idx64(v Val, w uint8, sgn bool) *Expr {
	e := it.expr(v, w)
	if w == 64 {
		return e
	}
	if sgn {
		return it.x.SExt(e, 64)
	}
	return it.x.ZExt(e, 64)
}

const maxUnion = 1024

func (it *Interp) indexAddr(in *ssa.IndexAddr, ii *insInfo, x, idx Val) Val {
	n, es, off := ii.aux2, ii.aux, 0
	var obj *Obj
	if n >= 0 { // pointer to array
		x = it.pickPtr(x)
		o, ok := x.r.(*Obj)
		if !ok {
			it.nilDeref()
		}
		obj, off = o, int(x.u)
	} else {
		s, ok := x.r.(*SliceV)
		if !ok {
			if x.r != nil {
				panic(unsupported("index of %T", x.r))
			}
			n = 0
		} else {
			n, es, obj, off = s.len, s.es, s.obj, s.off
		}
	}
	e := idx.sym()
	if e == nil {
		i := int64(idx.u)
		if ii.sgn {
			i = sext(idx.u, ii.w)
		}
		if i < 0 || i >= int64(n) {
			if n == 0 || true {
				msg := "index out of range"
				panic(targetPanic{msg: msg, v: it.rtErr(msg)})
			}
		}
		return Val{r: obj, u: uint64(off + int(i)*es)}
	}
	e = it.idx64(idx, ii.w, ii.sgn)
	ok := it.x.Ult(e, it.x.Const(64, uint64(n)))
	it.rtCheck(ok, "index out of range")
	lo, hi := e.lo, e.hi
	if lo < 0 {
		lo = 0
	}
	if hi > int64(n)-1 {
		hi = int64(n) - 1
	}
	if lo > hi {
		panic(pathEnd{"dead index"})
	}
	if lo == hi {
		return Val{r: obj, u: uint64(off + int(lo)*es)}
	}
	if hi-lo+1 > maxUnion {
		k := it.concretize(Val{r: e, w: 64}, 64, true, "index")
		return Val{r: obj, u: uint64(off + int(int64(k))*es)}
	}
	alts := make([]PtrAlt, 0, hi-lo+1)
	for k := lo; k <= hi; k++ {
		g := it.x.Eq(e, it.x.Const(64, uint64(k)))
		if g == it.x.F {
			continue
		}
		if g == it.x.T {
			return Val{r: obj, u: uint64(off + int(k)*es)}
		}
		alts = append(alts, PtrAlt{g, obj, off + int(k)*es})
	}
	return Val{r: &PtrUnion{alts}}
}

func (it *Interp) indexOp(in *ssa.Index, ii *insInfo, x, idx Val) Val {
	w, sgn := widthOf(in.Index.Type())
	var elems []Val
	es := 1
	var et types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Array:
		elems = it.flat(x, in.X.Type())
		et = u.Elem()
		es = it.slots(et)
	default: // string
		elems = strBytes(x)
		et = types.Typ[types.Uint8]
	}
	return it.pickElem(elems, et, es, idx, w, sgn)
}

func (it *Interp) pickElem(elems []Val, et types.Type, es int, idx Val, w uint8, sgn bool) Val {
	n := len(elems) / max(es, 1)
	if idx.sym() == nil {
		i := int64(idx.u)
		if sgn {
			i = sext(idx.u, w)
		}
		if i < 0 || i >= int64(n) {
			panic(targetPanic{msg: "index out of range", v: it.rtErr("index out of range")})
		}
		return it.unflat(elems[int(i)*es:(int(i)+1)*es], et)
	}
	e := it.idx64(idx, w, sgn)
	it.rtCheck(it.x.Ult(e, it.x.Const(64, uint64(n))), "index out of range")
	var r Val
	first := true
	for k := n - 1; k >= 0; k-- {
		g := it.x.Eq(e, it.x.Const(64, uint64(k)))
		if g == it.x.F {
			continue
		}
		v := it.unflat(elems[k*es:(k+1)*es], et)
		if first {
			r, first = v, false
			continue
		}
		m, ok := it.mergeVal(g, v, r)
		if !ok {
			c := it.concretize(Val{r: e, w: 64}, 64, true, "index")
			return it.unflat(elems[int(c)*es:(int(c)+1)*es], et)
		}
		r = m
	}
	return r
}

// ---------- arithmetic ----------

func (it *Interp) binop(in *ssa.BinOp, ii *insInfo, a, b Val) Val {
	switch in.Op {
	case token.EQL, token.NEQ:
		var e *Expr
		if ii.w != 0 && ii.w != wF64 && a.r == nil && b.r == nil {
			eq := a.u == b.u
			return cbool(eq == (in.Op == token.EQL))
		}
		t := in.X.Type()
		if _, ok := in.X.(*ssa.Const); ok && !types.IsInterface(t) {
			t = in.Y.Type()
		}
		// comparison of interface with concrete value
		xi, yi := types.IsInterface(in.X.Type()), types.IsInterface(in.Y.Type())
		if xi && !yi && b.r != nil {
			b = Val{r: &Iface{t: in.Y.Type(), v: b}}
			t = in.X.Type()
		} else if yi && !xi && a.r != nil {
			a = Val{r: &Iface{t: in.X.Type(), v: a}}
			t = in.Y.Type()
		}
		e = it.eqVal(a, b, t)
		if in.Op == token.NEQ {
			e = it.x.Not(e)
		}
		return sv(e)
	}
	w := ii.w
	if w == 0 {
		// strings
		switch in.Op {
		case token.ADD:
			sa, oka := a.r.(string)
			sb, okb := b.r.(string)
			if (oka || a.r == nil) && (okb || b.r == nil) {
				return cstr(sa + sb)
			}
			return mkStr(append(append([]Val(nil), strBytes(a)...), strBytes(b)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			p, q := it.goStr(a), it.goStr(b)
			var r bool
			switch in.Op {
			case token.LSS:
				r = p < q
			case token.LEQ:
				r = p <= q
			case token.GTR:
				r = p > q
			case token.GEQ:
				r = p >= q
			}
			return cbool(r)
		}
		panic(unsupported("binop %s on %s", in.Op, in.X.Type()))
	}
	if w == wF64 {
		return it.floatOp(in.Op, a, b, in.X.Type())
	}
	x := it.x
	sgn := ii.sgn
	if w == vBool {
		p, q := it.bexpr(a), it.bexpr(b)
		switch in.Op {
		case token.AND, token.LAND:
			return sv(x.And(p, q))
		case token.OR, token.LOR:
			return sv(x.Or(p, q))
		}
		panic(unsupported("bool op %s", in.Op))
	}
	if in.Op == token.SHL || in.Op == token.SHR {
		return it.shift(in, ii, a, b)
	}
	if a.r == nil && b.r == nil {
		return it.concBin(in.Op, w, sgn, a.u, b.u)
	}
	p, q := it.expr(a, w), it.expr(b, w)
	switch in.Op {
	case token.ADD:
		return sv(x.Add(p, q))
	case token.SUB:
		return sv(x.Sub(p, q))
	case token.MUL:
		return sv(x.Mul(p, q))
	case token.QUO, token.REM:
		it.rtCheck(x.Not(x.Eq(q, x.Const(w, 0))), "integer divide by zero")
		switch {
		case in.Op == token.QUO && sgn:
			return sv(x.Bin(OSDiv, p, q))
		case in.Op == token.QUO:
			return sv(x.Bin(OUDiv, p, q))
		case sgn:
			return sv(x.Bin(OSRem, p, q))
		default:
			return sv(x.Bin(OURem, p, q))
		}
	case token.AND:
		return sv(x.Bin(OBAnd, p, q))
	case token.OR:
		return sv(x.Bin(OBOr, p, q))
	case token.XOR:
		return sv(x.Bin(OBXor, p, q))
	case token.AND_NOT:
		return sv(x.Bin(OBAnd, p, x.Bin(OBXor, q, x.Const(w, mask(w)))))
	case token.LSS:
		if sgn {
			return sv(x.Slt(p, q))
		}
		return sv(x.Ult(p, q))
	case token.LEQ:
		if sgn {
			return sv(x.Sle(p, q))
		}
		return sv(x.Ule(p, q))
	case token.GTR:
		if sgn {
			return sv(x.Slt(q, p))
		}
		return sv(x.Ult(q, p))
	case token.GEQ:
		if sgn {
			return sv(x.Sle(q, p))
		}
		return sv(x.Ule(q, p))
	}
	panic(unsupported("binop %s", in.Op))
}

func (it *Interp) concBin(op token.Token, w uint8, sgn bool, p, q uint64) Val {
	sp, sq := sext(p, w), sext(q, w)
	switch op {
	case token.ADD:
		return ci(w, p+q)
	case token.SUB:
		return ci(w, p-q)
	case token.MUL:
		return ci(w, p*q)
	case token.QUO, token.REM:
		if q == 0 {
			panic(targetPanic{msg: "integer divide by zero", v: it.rtErr("integer divide by zero")})
		}
		if sgn {
			if sq == -1 {
				if op == token.QUO {
					return ci(w, uint64(-sp))
				}
				return ci(w, 0)
			}
			if op == token.QUO {
				return ci(w, uint64(sp/sq))
			}
			return ci(w, uint64(sp%sq))
		}
		if op == token.QUO {
			return ci(w, p/q)
		}
		return ci(w, p%q)
	case token.AND:
		return ci(w, p&q)
	case token.OR:
		return ci(w, p|q)
	case token.XOR:
		return ci(w, p^q)
	case token.AND_NOT:
		return ci(w, p&^q)
	case token.LSS:
		if sgn {
			return cbool(sp < sq)
		}
		return cbool(p < q)
	case token.LEQ:
		if sgn {
			return cbool(sp <= sq)
		}
		return cbool(p <= q)
	case token.GTR:
		if sgn {
			return cbool(sp > sq)
		}
		return cbool(p > q)
	case token.GEQ:
		if sgn {
			return cbool(sp >= sq)
		}
		return cbool(p >= q)
	}
	panic(unsupported("binop %s", op))
}

func (it *Interp) shift(in *ssa.BinOp, ii *insInfo, a, b Val) Val {
	w, sgn := ii.w, ii.sgn
	cw, csgn := widthOf(in.Y.Type())
	x := it.x
	if a.r == nil && b.r == nil {
		if csgn && sext(b.u, cw) < 0 {
			panic(targetPanic{msg: "negative shift amount", v: it.rtErr("negative shift amount")})
		}
		n := b.u
		if in.Op == token.SHL {
			if n >= uint64(w) {
				return ci(w, 0)
			}
			return ci(w, a.u<<n)
		}
		if sgn {
			if n >= uint64(w) {
				n = uint64(w) - 1
			}
			return ci(w, uint64(sext(a.u, w)>>n))
		}
		if n >= uint64(w) {
			return ci(w, 0)
		}
		return ci(w, a.u>>n)
	}
	c := it.expr(b, cw)
	if csgn {
		it.rtCheck(x.Not(x.Slt(c, x.Const(cw, 0))), "negative shift amount")
	}
	p := it.expr(a, w)
	var cnt *Expr
	if cw <= w {
		cnt = x.ZExt(c, w)
	} else {
		big := x.Not(x.Ult(c, x.Const(cw, uint64(w))))
		cnt = x.Ite(big, x.Const(w, uint64(w)), x.Extract(c, w-1, 0))
	}
	switch {
	case in.Op == token.SHL:
		return sv(x.Bin(OShl, p, cnt))
	case sgn:
		return sv(x.Bin(OAshr, p, cnt))
	}
	return sv(x.Bin(OLshr, p, cnt))
}

func (it *Interp) floatOp(op token.Token, a, b Val, t types.Type) Val {
	x := it.x
	if b32 := t.Underlying().(*types.Basic); b32.Kind() == types.Float32 && (a.r != nil || b.r != nil) {
		panic(unsupported("symbolic float32"))
	}
	if a.r == nil && b.r == nil {
		p, q := a.f(), b.f()
		switch op {
		case token.ADD:
			return cfloat(p + q)
		case token.SUB:
			return cfloat(p - q)
		case token.MUL:
			return cfloat(p * q)
		case token.QUO:
			return cfloat(p / q)
		case token.LSS:
			return cbool(p < q)
		case token.LEQ:
			return cbool(p <= q)
		case token.GTR:
			return cbool(p > q)
		case token.GEQ:
			return cbool(p >= q)
		}
	}
	p, q := it.expr(a, wF64), it.expr(b, wF64)
	switch op {
	case token.ADD:
		return sv(x.FBin(OFAdd, p, q))
	case token.SUB:
		return sv(x.FBin(OFSub, p, q))
	case token.MUL:
		return sv(x.FBin(OFMul, p, q))
	case token.QUO:
		return sv(it.floatDiv(p, q))
	case token.LSS:
		return sv(x.FCmp(OFLt, p, q))
	case token.LEQ:
		return sv(x.FCmp(OFLe, p, q))
	case token.GTR:
		return sv(x.FCmp(OFLt, q, p))
	case token.GEQ:
		return sv(x.FCmp(OFLe, q, p))
	}
	panic(unsupported("float op %s", op))
}

// floatDiv divides exact numbers exactly where the quotient is known by its
// shape: x/x, x*y/x and the like.  Divisors are split into their cases.
func (it *Interp) floatDiv(p, q *Expr) *Expr {
	x := it.x
	if q.op == OConst {
		return x.FBin(OFDiv, p, q)
	}
	for {
		qi, kq := x.dyOp(q)
		pi, kp := x.dyOp(p)
		if qi == nil || pi == nil {
			break
		}
		if qi.op == OIte {
			if it.branch(qi.a) {
				q = x.FFromDy(qi.b, kq)
			} else {
				q = x.FFromDy(qi.c, kq)
			}
			if q.op == OConst {
				return x.FBin(OFDiv, p, q)
			}
			continue
		}
		if pi.op == OIte {
			if it.branch(pi.a) {
				p = x.FFromDy(pi.b, kp)
			} else {
				p = x.FFromDy(pi.c, kp)
			}
			continue
		}
		if qi.lo <= 0 && qi.hi >= 0 && it.branch(x.Eq(qi, x.Const(64, 0))) {
			break
		}
		if r := x.exactDiv(pi, qi); r != nil && exactRange(r) && kq <= maxShift {
			// (r * 2^-kp) * 2^kq
			if kq <= kp {
				return x.FFromDy(r, kp-kq)
			}
			if m := x.Const(64, 1<<(kq-kp)); mulFits(r, m) {
				m = x.Mul(r, m)
				return x.FFromInt(m)
			}
		}
		if kp == 0 && kq == 0 {
			pi, qi = x.reduce(pi, qi)
			return x.mk(OFDiv, wF64, x.FFromInt(pi), x.FFromInt(qi), nil, 0)
		}
		break
	}
	return x.FBin(OFDiv, p, q)
}

func (it *Interp) unop(fr *Frame, in *ssa.UnOp, ii *insInfo) Val {
	v := it.get(fr, ii.ops[0])
	switch in.Op {
	case token.MUL:
		return it.load(v, ii.t, ii.aux)
	case token.NOT:
		return sv(it.x.Not(it.bexpr(v)))
	case token.SUB:
		if ii.w == wF64 {
			if v.r == nil {
				return cfloat(-v.f())
			}
			return sv(it.x.FNeg(it.expr(v, wF64)))
		}
		if v.r == nil {
			return ci(ii.w, -v.u)
		}
		return sv(it.x.Neg(it.expr(v, ii.w)))
	case token.XOR:
		if v.r == nil {
			return ci(ii.w, ^v.u)
		}
		return sv(it.x.Bin(OBXor, it.expr(v, ii.w), it.x.Const(ii.w, mask(ii.w))))
	case token.ARROW:
		r, ok := it.chanRecv(v, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Val{r: Tuple{r, cbool(ok)}}
		}
		return r
	}
	panic(unsupported("unop %s", in.Op))
}

func (it *Interp) convert(from, to types.Type, v Val) Val {
	fw, fs := widthOf(from)
	tw, ts := widthOf(to)
	x := it.x
	if fw == vBool || tw == vBool {
		return v
	}
	switch {
	case fw != 0 && tw != 0 && fw != wF64 && tw != wF64:
		if v.r == nil {
			if fs {
				return ci(tw, uint64(sext(v.u, fw)))
			}
			return ci(tw, v.u)
		}
		e := it.expr(v, fw)
		switch {
		case tw < fw:
			return sv(x.Extract(e, tw-1, 0))
		case tw == fw:
			return sv(e)
		case fs:
			return sv(x.SExt(e, tw))
		default:
			return sv(x.ZExt(e, tw))
		}
	case fw == wF64 && tw == wF64:
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			if v.r != nil {
				panic(unsupported("symbolic float32"))
			}
			return cfloat(float64(float32(v.f())))
		}
		return v
	case fw == wF64 && tw != 0:
		if v.r == nil {
			f := v.f()
			if ts {
				return ci(tw, uint64(int64(f)))
			}
			return ci(tw, uint64(f))
		}
		e := x.FToInt(it.expr(v, wF64))
		if tw < 64 {
			e = x.Extract(e, tw-1, 0)
		}
		return sv(e)
	case tw == wF64 && fw != 0:
		if v.r == nil {
			if fs {
				return cfloat(float64(sext(v.u, fw)))
			}
			return cfloat(float64(v.u))
		}
		e := it.idx64(v, fw, fs)
		if !fs && fw == 64 {
			if e.lo < 0 {
				return sv(x.mk(OFFromUint, wF64, e, nil, nil, 0))
			}
		}
		return sv(x.FFromInt(e))
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if isStr(to) {
		if isStr(from) {
			return v
		}
		if fw != 0 {
			k := it.concretize(v, fw, fs, "string(rune)")
			return cstr(string(rune(sext(k, fw))))
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ew, _ := widthOf(sl.Elem())
			el := it.sliceElems(v)
			if ew == 8 {
				return mkStr(append([]Val(nil), el...))
			}
			rs := make([]rune, len(el))
			for i, e := range el {
				rs[i] = rune(it.concretize(e, 32, true, "rune"))
			}
			return cstr(string(rs))
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(from) {
		ew, _ := widthOf(sl.Elem())
		if ew == 8 {
			b := strBytes(v)
			r := it.newSlice(sl.Elem(), len(b), len(b))
			o := r.r.(*SliceV).obj
			for i, c := range b {
				o.set(i, c)
			}
			return r
		}
		rs := []rune(it.goStr(v))
		r := it.newSlice(sl.Elem(), len(rs), len(rs))
		o := r.r.(*SliceV).obj
		for i, c := range rs {
			o.set(i, ci(32, uint64(c)))
		}
		return r
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer && tw == 64 {
		return it.addrOf(v)
	}
	if isPtrish(from) && isPtrish(to) {
		return v
	}
	panic(unsupported("convert %s to %s", from, to))
}

func isPtrish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (it *Interp) typeAssert(in *ssa.TypeAssert, v Val) Val {
	ifc, _ := v.r.(*Iface)
	if ifc == nil && v.r != nil {
		panic(unsupported("type assertion on %T", v.r))
	}
	ok := false
	var r Val
	if ifc != nil {
		if types.IsInterface(in.AssertedType) {
			ok = types.Implements(ifc.t, in.AssertedType.Underlying().(*types.Interface))
			r = v
		} else {
			ok = types.Identical(ifc.t, in.AssertedType)
			r = ifc.v
		}
	}
	if in.CommaOk {
		if !ok {
			r = Val{}
		}
		return Val{r: Tuple{r, cbool(ok)}}
	}
	if !ok {
		panic(targetPanic{msg: "interface conversion", v: it.rtErr("interface conversion")})
	}
	return r
}

func (it *Interp) cIdx(v Val, t types.Type, why string) int {
	w, s := widthOf(t)
	k := it.concretize(v, w, s, why)
	if s {
		return int(sext(k, w))
	}
	return int(k)
}

func (it *Interp) sliceOp(fr *Frame, in *ssa.Slice, ii *insInfo) Val {
	x := it.get(fr, ii.ops[0])
	bound := func(k int, t ssa.Value, def int) int {
		if t == nil {
			return def
		}
		v := it.get(fr, ii.ops[k])
		return it.cIdx(v, t.Type(), "slice bound")
	}
	opi := func(v ssa.Value) int {
		// operand order: X, Low, High, Max
		switch v {
		case in.Low:
			return 1
		case in.High:
			return 2
		}
		return 3
	}
	_ = opi
	oob := func() {
		panic(targetPanic{msg: "slice bounds out of range", v: it.rtErr("slice bounds out of range")})
	}
	// symbolic bounds: check before forking
	symCheck := func(limit int) {
		for k, t := range []ssa.Value{nil, in.Low, in.High, in.Max} {
			if t == nil {
				continue
			}
			v := it.get(fr, ii.ops[k])
			if v.sym() != nil {
				w, s := widthOf(t.Type())
				e := it.idx64(v, w, s)
				it.rtCheck(it.x.Not(it.x.Ult(it.x.Const(64, uint64(limit)), e)), "slice bounds out of range")
			}
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := strLen(x)
		symCheck(n)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, n)
		if lo < 0 || hi < lo || hi > n {
			oob()
		}
		if s, ok := x.r.(string); ok {
			return cstr(s[lo:hi])
		}
		return mkStr(strBytes(x)[lo:hi])
	case *types.Slice:
		var s SliceV
		if x.r == nil {
			s.es = it.slots(u.Elem())
		} else {
			s = *x.r.(*SliceV)
		}
		symCheck(s.cap)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, s.len)
		mx := bound(3, in.Max, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			oob()
		}
		if x.r == nil {
			return Val{}
		}
		return Val{r: &SliceV{obj: s.obj, off: s.off + lo*s.es, len: hi - lo, cap: mx - lo, es: s.es}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x = it.pickPtr(x)
		o, ok := x.r.(*Obj)
		if !ok {
			it.nilDeref()
		}
		n := int(at.Len())
		symCheck(n)
		lo := bound(1, in.Low, 0)
		hi := bound(2, in.High, n)
		mx := bound(3, in.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			oob()
		}
		es := it.slots(at.Elem())
		return Val{r: &SliceV{obj: o, off: int(x.u) + lo*es, len: hi - lo, cap: mx - lo, es: es}}
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

// ---------- maps ----------

func (it *Interp) keyStr(v Val) (string, bool) {
	var sb strings.Builder
	var rec func(v Val) bool
	rec = func(v Val) bool {
		switch r := v.r.(type) {
		case nil:
			fmt.Fprintf(&sb, "%d;", v.u)
		case *Expr:
			return false
		case string:
			fmt.Fprintf(&sb, "%q;", r)
		case *SymStr, *PtrUnion:
			return false
		case Agg:
			for _, e := range r {
				if !rec(e) {
					return false
				}
			}
		case *Iface:
			sb.WriteString(r.t.String())
			return rec(r.v)
		case *Obj:
			fmt.Fprintf(&sb, "o%p+%d;", r, v.u)
		default:
			fmt.Fprintf(&sb, "%p;", r)
		}
		return true
	}
	ok := rec(v)
	return sb.String(), ok
}

// normalize zero aggregates so that key strings are canonical
func (it *Interp) normKey(k Val, t types.Type) Val {
	if isAgg(t) && k.r == nil {
		return Val{r: Agg(make([]Val, it.slots(t)))}
	}
	return k
}

func (it *Interp) mapFind(m *MapObj, k Val) int {
	k = it.normKey(k, m.kt)
	ks, conc := it.keyStr(k)
	if conc && !m.sym {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		return -1
	}
	for i := range m.ents {
		if m.ents[i].g == it.x.F {
			continue
		}
		if it.branch(it.eqVal(m.ents[i].k, k, m.kt)) {
			return i
		}
	}
	return -1
}

func (it *Interp) lookup(in *ssa.Lookup, x, k Val) Val {
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		w, s := widthOf(in.Index.Type())
		return it.pickElem(strBytes(x), types.Typ[types.Uint8], 1, k, w, s)
	}
	m, _ := x.r.(*MapObj)
	var r Val
	found := it.x.F
	if m != nil {
		k = it.normKey(k, m.kt)
		_, conc := it.keyStr(k)
		if conc && !m.sym {
			if i := it.mapFind(m, k); i >= 0 {
				r, found = m.ents[i].v, it.x.T
			}
		} else {
			// try a merged lookup
			ok := true
			for i := range m.ents {
				if m.ents[i].g == it.x.F {
					continue
				}
				g := it.eqVal(m.ents[i].k, k, m.kt)
				r, ok = it.mergeVal(g, m.ents[i].v, r)
				if !ok {
					break
				}
				found = it.x.Or(found, g)
			}
			if !ok {
				r, found = Val{}, it.x.F
				if i := it.mapFind(m, k); i >= 0 {
					r, found = m.ents[i].v, it.x.T
				}
			}
		}
	}
	if in.CommaOk {
		return Val{r: Tuple{r, sv(found)}}
	}
	return r
}

func (it *Interp) mapMut(m *MapObj) {
	if it.spec > 0 {
		it.abort("map write in merged region")
	}
}

func (it *Interp) mapUpdate(x, k, v Val) {
	m, _ := x.r.(*MapObj)
	if m == nil {
		panic(targetPanic{msg: "assignment to entry in nil map", v: it.rtErr("assignment to entry in nil map")})
	}
	it.mapMut(m)
	k = it.normKey(k, m.kt)
	i := it.mapFind(m, k)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = v
		it.onUndo(func() { m.ents[i].v = old })
		return
	}
	ks, conc := it.keyStr(k)
	osym := m.sym
	n := len(m.ents)
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	if conc {
		m.idx[ks] = n
	} else {
		m.sym = true
	}
	it.onUndo(func() {
		m.ents = m.ents[:n]
		m.sym = osym
		if conc {
			delete(m.idx, ks)
		}
	})
}

func (it *Interp) mapDelete(x, k Val) {
	m, _ := x.r.(*MapObj)
	if m == nil {
		return
	}
	it.mapMut(m)
	i := it.mapFind(m, k)
	if i < 0 {
		return
	}
	oldE, oldI := m.ents, m.idx
	m.ents = append(append([]mapEnt(nil), oldE[:i]...), oldE[i+1:]...)
	m.idx = map[string]int{}
	for j, e := range m.ents {
		if ks, ok := it.keyStr(e.k); ok {
			m.idx[ks] = j
		}
	}
	it.onUndo(func() { m.ents, m.idx = oldE, oldI })
}

type iterState struct {
	m    *MapObj
	ents []mapEnt
	str  []Val
	pos  int
	spec int
}

func (it *Interp) rangeOp(in *ssa.Range, x Val) Val {
	st := &iterState{spec: it.spec}
	if _, ok := in.X.Type().Underlying().(*types.Map); ok {
		if m, _ := x.r.(*MapObj); m != nil {
			st.m = m
			st.ents = append([]mapEnt(nil), m.ents...)
		}
	} else {
		st.str = strBytes(x)
	}
	return Val{r: &Native{st}}
}

func (it *Interp) nextOp(in *ssa.Next, x Val) Val {
	st := x.r.(*Native).x.(*iterState)
	if it.spec > st.spec {
		it.abort("range step in merged region")
	}
	if in.IsString {
		if st.pos >= len(st.str) {
			return Val{r: Tuple{cbool(false), ci(64, 0), ci(32, 0)}}
		}
		c := it.concretize(st.str[st.pos], 8, false, "range string")
		p := st.pos
		if c < 0x80 {
			st.pos++
			return Val{r: Tuple{cbool(true), cint(p), ci(32, c)}}
		}
		var bs []byte
		for j := p; j < len(st.str) && j < p+4; j++ {
			bs = append(bs, byte(it.concretize(st.str[j], 8, false, "range string")))
		}
		for i, r := range string(bs) {
			_ = i
			n := len(string(r))
			if r == 0xfffd && !(len(bs) >= 3 && bs[0] == 0xef) {
				n = 1
			}
			st.pos += n
			return Val{r: Tuple{cbool(true), cint(p), ci(32, uint64(uint32(r)))}}
		}
	}
	for len(st.ents) > 0 {
		i := 0
		if it.mapOrder && len(st.ents) > 1 {
			i = it.choice(len(st.ents))
		}
		e := st.ents[i]
		st.ents = append(append([]mapEnt(nil), st.ents[:i]...), st.ents[i+1:]...)
		// entry may have been deleted or changed meanwhile
		j := -1
		for q := range st.m.ents {
			if sameVal(st.m.ents[q].k, e.k) {
				j = q
				break
			}
		}
		if j < 0 {
			continue
		}
		return Val{r: Tuple{cbool(true), st.m.ents[j].k, st.m.ents[j].v}}
	}
	return Val{r: Tuple{cbool(false), Val{}, Val{}}}
}

// ---------- builtins ----------

func (it *Interp) builtin(fr *Frame, b *ssa.Builtin, args []Val, cc *ssa.CallCommon) Val {
	switch b.Name() {
	case "len":
		switch o := args[0].r.(type) {
		case nil:
			if at, ok := deref(cc.Args[0].Type()).Underlying().(*types.Array); ok {
				return cint(int(at.Len()))
			}
			return cint(0)
		case *SliceV:
			return cint(o.len)
		case string:
			return cint(len(o))
		case *SymStr:
			return cint(len(o.b))
		case *MapObj:
			return cint(len(o.ents))
		case *ChanObj:
			return cint(len(o.buf))
		case Agg, *Obj:
			return cint(int(deref(cc.Args[0].Type()).Underlying().(*types.Array).Len()))
		}
		panic(unsupported("len of %T", args[0].r))
	case "cap":
		switch o := args[0].r.(type) {
		case nil:
			return cint(0)
		case *SliceV:
			return cint(o.cap)
		case *ChanObj:
			return cint(o.cap)
		}
		panic(unsupported("cap of %T", args[0].r))
	case "append":
		return it.appendOp(args, cc)
	case "copy":
		d, _ := args[0].r.(*SliceV)
		if d == nil {
			return cint(0)
		}
		var src []Val
		if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok {
			src = strBytes(args[1])
		} else {
			src = it.sliceElems(args[1])
		}
		n := d.len * d.es
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			it.set(d.obj, d.off+i, src[i])
		}
		return cint(n / max(d.es, 1))
	case "delete":
		it.mapDelete(args[0], args[1])
		return Val{}
	case "panic":
		panic(targetPanic{v: args[0], msg: it.panicMsg(args[0])})
	case "recover":
		for f := fr; f != nil; f = f.caller {
			if f.deferOf != nil {
				if f.deferOf.panicked != nil {
					v := f.deferOf.panicked.v
					f.deferOf.panicked = nil
					return v
				}
				return Val{}
			}
			break
		}
		return Val{}
	case "print", "println":
		if os.Getenv("SYMGO_PRINT") != "" {
			o := ""
			for i, a := range args {
				if b, ok := cc.Args[i].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					o += " " + it.goStr(a)
				} else if a.sym() != nil {
					o += " ?"
				} else {
					o += fmt.Sprintf(" %d", int64(a.u))
				}
			}
			fmt.Fprintln(os.Stderr, "println:"+o)
		}
		return Val{}
	case "close":
		it.chanClose(args[0])
		return Val{}
	case "min", "max":
		r := args[0]
		w, s := widthOf(cc.Args[0].Type())
		for _, a := range args[1:] {
			if w == 0 || w == wF64 {
				if r.r != nil || a.r != nil {
					panic(unsupported("min/max"))
				}
				if b.Name() == "min" {
					r = cfloat(math.Min(r.f(), a.f()))
				} else {
					r = cfloat(math.Max(r.f(), a.f()))
				}
				continue
			}
			p, q := it.expr(r, w), it.expr(a, w)
			var lt *Expr
			if s {
				lt = it.x.Slt(p, q)
			} else {
				lt = it.x.Ult(p, q)
			}
			if b.Name() == "min" {
				r = sv(it.x.Ite(lt, p, q))
			} else {
				r = sv(it.x.Ite(lt, q, p))
			}
		}
		return r
	case "clear":
		if m, ok := args[0].r.(*MapObj); ok {
			it.mapMut(m)
			oe, oi, os := m.ents, m.idx, m.sym
			m.ents, m.idx, m.sym = nil, map[string]int{}, false
			it.onUndo(func() { m.ents, m.idx, m.sym = oe, oi, os })
		} else if s, ok := args[0].r.(*SliceV); ok {
			for i := 0; i < s.len*s.es; i++ {
				it.set(s.obj, s.off+i, Val{})
			}
		}
		return Val{}
	case "SliceData", "StringData":
		if b.Name() == "StringData" {
			return Val{r: it.mkBytes(strBytes(args[0])).r.(*SliceV).obj}
		}
		s, _ := args[0].r.(*SliceV)
		if s == nil || s.cap == 0 {
			return Val{}
		}
		return Val{r: s.obj, u: uint64(s.off)}
	case "String":
		n := int(it.cIdx(args[1], cc.Args[1].Type(), "unsafe.String"))
		o, _ := args[0].r.(*Obj)
		if n == 0 || o == nil {
			return Val{}
		}
		bs := make([]Val, n)
		for i := range bs {
			bs[i] = o.get(int(args[0].u) + i)
		}
		return mkStr(bs)
	case "Slice":
		n := int(it.cIdx(args[1], cc.Args[1].Type(), "unsafe.Slice"))
		o, _ := args[0].r.(*Obj)
		if n == 0 || o == nil {
			return Val{}
		}
		return Val{r: &SliceV{obj: o, off: int(args[0].u), len: n, cap: n, es: it.slots(deref(cc.Args[0].Type()))}}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			it.nilDeref()
		}
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, esz int64) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return nc
	}
	bytes := int64(nc) * esz
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if int64(c) >= bytes {
				bytes = int64(c)
				break
			}
		}
	} else {
		bytes = (bytes + 8191) / 8192 * 8192
	}
	return int(bytes / esz)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (it *Interp) appendOp(args []Val, cc *ssa.CallCommon) Val {
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := it.slots(elem)
	var add []Val
	if len(args) > 1 {
		if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok {
			add = strBytes(args[1])
		} else {
			add = it.sliceElems(args[1])
		}
	}
	var s SliceV
	if args[0].r != nil {
		s = *args[0].r.(*SliceV)
	} else {
		s.es = es
		if len(add) == 0 {
			return Val{}
		}
	}
	k := len(add) / max(es, 1)
	nl := s.len + k
	if nl <= s.cap {
		for i, v := range add {
			it.set(s.obj, s.off+s.len*es+i, v)
		}
		return Val{r: &SliceV{obj: s.obj, off: s.off, len: nl, cap: s.cap, es: es}}
	}
	nc := growCap(s.cap, nl, stdSizes.Sizeof(elem))
	if nc < nl {
		nc = nl
	}
	if nc > 1<<24 {
		panic(pathEnd{"huge append"})
	}
	o := it.newObj(nc*es, "append")
	for i := 0; i < s.len*es; i++ {
		o.set(i, s.obj.get(s.off+i))
	}
	for i, v := range add {
		o.set(s.len*es+i, v)
	}
	return Val{r: &SliceV{obj: o, len: nl, cap: nc, es: es}}
}

// addrOf gives every object a distinct numeric address (only good for equality)
func (it *Interp) addrOf(v Val) Val {
	one := func(o *Obj, off int) uint64 {
		if o == nil {
			return 0
		}
		if o.addr == 0 {
			it.naddr++
			o.addr = it.naddr << 32
		}
		return o.addr + uint64(off)
	}
	switch p := v.r.(type) {
	case nil:
		return ci(64, 0)
	case *Obj:
		return ci(64, one(p, int(v.u)))
	case *PtrUnion:
		r := it.x.Const(64, 0)
		for _, a := range p.alts {
			r = it.x.Ite(a.g, it.x.Const(64, one(a.obj, a.off)), r)
		}
		return sv(r)
	}
	panic(unsupported("address of %T", v.r))
}
