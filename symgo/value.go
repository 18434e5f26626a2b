package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Val is one scalar slot or an aggregate.  The zero Val is the zero value of
// every type (0, false, nil, "", zeroed struct).
//
//	w == 1 bool, 8/16/32/64 integer, 200 float64: scalar; symbolic when r is *Expr,
//	otherwise concrete with bits u.
//	w == 0: reference kinds, r is one of
//	  *Obj (pointer; u is slot offset), *PtrUnion, *SliceV, string, *SymStr, *Iface,
//	  *Func, *MapObj, *ChanObj, *Native, Agg (struct/array), Tuple
type Val struct {
	r any
	u uint64
	w uint8
}

const vBool = 1

type Obj struct {
	id    int64
	v     []Val
	m     map[int]Val
	n     int
	label string
	addr  uint64
}

func (o *Obj) get(i int) Val {
	if o.m != nil {
		return o.m[i]
	}
	return o.v[i]
}
func (o *Obj) set(i int, v Val) {
	if o.m != nil {
		o.m[i] = v
		return
	}
	o.v[i] = v
}

type PtrAlt struct {
	g   *Expr
	obj *Obj // nil: nil pointer
	off int
}
type PtrUnion struct{ alts []PtrAlt }

type SliceV struct {
	obj           *Obj
	off, len, cap int // off in slots, len/cap in elements
	es            int
}

type SymStr struct{ b []Val }

type Iface struct {
	t types.Type
	v Val
}

type Func struct {
	fn   *ssa.Function
	bind []Val
	nat  func(it *Interp, args []Val) []Val
}

type mapEnt struct {
	k, v Val
	g    *Expr // presence guard, nil = true
}
type MapObj struct {
	id   int64
	ents []mapEnt
	idx  map[string]int // concrete keys -> index in ents
	sym  bool           // some key is symbolic or guarded
	kt   types.Type
	vt   types.Type
}

type ChanObj struct {
	id     int64
	buf    []Val
	cap    int
	closed bool
	recvW  int
	sendq  []*waiter
}

type Native struct{ x any }

type Agg []Val
type Tuple []Val

func ci(w uint8, u uint64) Val {
	if w < 64 {
		if w == vBool {
			u &= 1
		} else {
			u &= mask(w)
		}
	}
	return Val{u: u, w: w}
}
func cint(i int) Val { return Val{u: uint64(int64(i)), w: 64} }
func cbool(b bool) Val {
	if b {
		return Val{u: 1, w: vBool}
	}
	return Val{w: vBool}
}
func cfloat(f float64) Val { return Val{u: math.Float64bits(f), w: wF64} }
func cstr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{r: s}
}

func sv(e *Expr) Val {
	w := e.w
	if w == wBool {
		w = vBool
	}
	if e.op == OConst {
		return Val{u: e.k, w: w}
	}
	return Val{r: e, w: w}
}
func (v Val) sym() *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	return nil
}
func (v Val) f() float64 { return math.Float64frombits(v.u) }

// expr returns the term for a scalar; w is its width (1 bool, 200 float).
func (it *Interp) expr(v Val, w uint8) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	if w == vBool {
		return it.x.Bool(v.u != 0)
	}
	return it.x.Const(w, v.u)
}

func (it *Interp) bexpr(v Val) *Expr { return it.expr(v, vBool) }

// scalar width of a type; 0 if not scalar
func widthOf(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return vBool, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Float64, types.UntypedFloat, types.Float32:
		return wF64, true
	}
	return 0, false
}

func (it *Interp) slots(t types.Type) int {
	if n, ok := it.slotC[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += it.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * it.slots(u.Elem())
	}
	it.slotC[t] = n
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (it *Interp) fieldOff(t types.Type, i int) (off, n int) {
	st := t.Underlying().(*types.Struct)
	for j := 0; j < i; j++ {
		off += it.slots(st.Field(j).Type())
	}
	return off, it.slots(st.Field(i).Type())
}

// flat returns the slots of v seen as a value of type t.
func (it *Interp) flat(v Val, t types.Type) []Val {
	if !isAgg(t) {
		return []Val{v}
	}
	if v.r == nil {
		return make([]Val, it.slots(t))
	}
	return []Val(v.r.(Agg))
}
func (it *Interp) unflat(s []Val, t types.Type) Val {
	if !isAgg(t) {
		return s[0]
	}
	return Val{r: Agg(s)}
}

func (it *Interp) newObj(n int, label string) *Obj {
	it.nobj++
	o := &Obj{id: it.nobj, n: n, label: label}
	if n > 8192 {
		o.m = make(map[int]Val)
	} else {
		o.v = make([]Val, n)
	}
	return o
}

func (it *Interp) newSlice(elem types.Type, n, c int) Val {
	es := it.slots(elem)
	o := it.newObj(es*c, "[]"+elem.String())
	return Val{r: &SliceV{obj: o, len: n, cap: c, es: es}}
}

func (it *Interp) bytesVal(b []byte) Val {
	v := it.newSlice(types.Typ[types.Uint8], len(b), len(b))
	o := v.r.(*SliceV).obj
	for i, c := range b {
		o.set(i, ci(8, uint64(c)))
	}
	return v
}

// elems returns the element slots of a byte-like (one-slot) slice
func (it *Interp) sliceElems(v Val) []Val {
	if v.r == nil {
		return nil
	}
	s := v.r.(*SliceV)
	r := make([]Val, s.len*s.es)
	for i := range r {
		r[i] = s.obj.get(s.off + i)
	}
	return r
}

func strBytes(v Val) []Val {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		r := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = ci(8, uint64(s[i]))
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v.r))
}

func mkStr(b []Val) Val {
	for _, c := range b {
		if c.sym() != nil {
			return Val{r: &SymStr{b: append([]Val(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i, c := range b {
		bs[i] = byte(c.u)
	}
	return cstr(string(bs))
}

func strLen(v Val) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.r))
}

// goStr returns a concrete Go string
func (it *Interp) goStr(v Val) string {
	switch s := v.r.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		// concretise byte by byte
		b := make([]byte, len(s.b))
		for i, c := range s.b {
			b[i] = byte(it.concretize(c, 8, false, "string byte"))
		}
		return string(b)
	}
	panic(fmt.Sprintf("goStr %T", v.r))
}

// ---- merging ----

func (it *Interp) mergeVal(c *Expr, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a.w != 0 || b.w != 0 {
		w := a.w
		if w == 0 {
			w = b.w
		}
		if a.w != 0 && b.w != 0 && a.w != b.w {
			return Val{}, false
		}
		if (a.w == 0 && a.r != nil) || (b.w == 0 && b.r != nil) {
			return Val{}, false
		}
		return sv(it.x.Ite(c, it.expr(a, w), it.expr(b, w))), true
	}
	switch p := a.r.(type) {
	case Agg:
		var q Agg
		if b.r == nil {
			q = make(Agg, len(p))
		} else {
			var ok bool
			q, ok = b.r.(Agg)
			if !ok || len(q) != len(p) {
				return Val{}, false
			}
		}
		r := make(Agg, len(p))
		for i := range p {
			v, ok := it.mergeVal(c, p[i], q[i])
			if !ok {
				return Val{}, false
			}
			r[i] = v
		}
		return Val{r: r}, true
	case Tuple:
		q, ok := b.r.(Tuple)
		if !ok || len(p) != len(q) {
			return Val{}, false
		}
		r := make(Tuple, len(p))
		for i := range p {
			v, ok := it.mergeVal(c, p[i], q[i])
			if !ok {
				return Val{}, false
			}
			r[i] = v
		}
		return Val{r: r}, true
	case *Iface:
		q, ok := b.r.(*Iface)
		if !ok || !types.Identical(p.t, q.t) {
			return Val{}, false
		}
		v, ok := it.mergeVal(c, p.v, q.v)
		if !ok {
			return Val{}, false
		}
		return Val{r: &Iface{t: p.t, v: v}}, true
	case *SliceV:
		if q, ok := b.r.(*SliceV); ok && *p == *q {
			return a, true
		}
		return Val{}, false
	case string, *SymStr:
		if strLen(a) == strLen(b) {
			x, y := strBytes(a), strBytes(b)
			r := make([]Val, len(x))
			for i := range x {
				v, ok := it.mergeVal(c, x[i], y[i])
				if !ok {
					return Val{}, false
				}
				r[i] = v
			}
			return mkStr(r), true
		}
		return Val{}, false
	}
	if b.r != nil && a.r == nil {
		if g, ok := b.r.(Agg); ok {
			return it.mergeVal(c, Val{r: make(Agg, len(g))}, b)
		}
	}
	// pointers
	pa, ok1 := ptrAlts(it, a)
	pb, ok2 := ptrAlts(it, b)
	if !ok1 || !ok2 {
		return Val{}, false
	}
	if a.r == nil && b.r == nil {
		return a, true
	}
	var alts []PtrAlt
	add := func(g *Expr, l []PtrAlt) {
	next:
		for _, t := range l {
			ng := it.x.And(g, t.g)
			if ng == it.x.F {
				continue
			}
			for i := range alts {
				if alts[i].obj == t.obj && alts[i].off == t.off {
					alts[i].g = it.x.Or(alts[i].g, ng)
					continue next
				}
			}
			alts = append(alts, PtrAlt{ng, t.obj, t.off})
		}
	}
	add(c, pa)
	add(it.x.Not(c), pb)
	if len(alts) == 1 {
		if alts[0].obj == nil {
			return Val{}, true
		}
		return Val{r: alts[0].obj, u: uint64(alts[0].off)}, true
	}
	if len(alts) > 64 {
		return Val{}, false
	}
	return Val{r: &PtrUnion{alts}}, true
}

func ptrAlts(it *Interp, v Val) ([]PtrAlt, bool) {
	switch p := v.r.(type) {
	case nil:
		return []PtrAlt{{it.x.T, nil, 0}}, true
	case *Obj:
		return []PtrAlt{{it.x.T, p, int(v.u)}}, true
	case *PtrUnion:
		return p.alts, true
	}
	return nil, false
}

func sameVal(a, b Val) bool {
	if a.w != b.w {
		return false
	}
	if a.w != 0 {
		ea, oka := a.r.(*Expr)
		eb, okb := b.r.(*Expr)
		if oka != okb {
			return false
		}
		if oka {
			return ea == eb
		}
		return a.u == b.u
	}
	switch p := a.r.(type) {
	case nil:
		return b.r == nil
	case *Obj:
		q, ok := b.r.(*Obj)
		return ok && p == q && a.u == b.u
	case string:
		q, ok := b.r.(string)
		return ok && p == q
	case *SliceV:
		q, ok := b.r.(*SliceV)
		return ok && (p == q || *p == *q)
	case *Iface:
		q, ok := b.r.(*Iface)
		return ok && p == q
	case *Func:
		q, ok := b.r.(*Func)
		return ok && (p == q || (p.fn != nil && p.fn == q.fn && len(p.bind) == 0 && len(q.bind) == 0))
	case *MapObj:
		q, ok := b.r.(*MapObj)
		return ok && p == q
	case *ChanObj:
		q, ok := b.r.(*ChanObj)
		return ok && p == q
	case *Native:
		q, ok := b.r.(*Native)
		return ok && p == q
	case *SymStr:
		q, ok := b.r.(*SymStr)
		return ok && p == q
	case *PtrUnion:
		q, ok := b.r.(*PtrUnion)
		return ok && p == q
	case Agg:
		q, ok := b.r.(Agg)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case Tuple:
		q, ok := b.r.(Tuple)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// eqVal builds the equality of two values of static type t.
func (it *Interp) eqVal(a, b Val, t types.Type) *Expr {
	x := it.x
	switch u := t.Underlying().(type) {
	case *types.Struct:
		p, q := it.flat(a, t), it.flat(b, t)
		r := x.T
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := it.slots(ft)
			if u.Field(i).Name() != "_" {
				r = x.And(r, it.eqVal(it.unflat(p[off:off+n], ft), it.unflat(q[off:off+n], ft), ft))
			}
			off += n
			if r == x.F {
				return r
			}
		}
		return r
	case *types.Array:
		p, q := it.flat(a, t), it.flat(b, t)
		n := it.slots(u.Elem())
		r := x.T
		for i := 0; i < int(u.Len()); i++ {
			r = x.And(r, it.eqVal(it.unflat(p[i*n:(i+1)*n], u.Elem()), it.unflat(q[i*n:(i+1)*n], u.Elem()), u.Elem()))
			if r == x.F {
				return r
			}
		}
		return r
	case *types.Interface:
		p, _ := a.r.(*Iface)
		q, _ := b.r.(*Iface)
		if p == nil || q == nil {
			return x.Bool(p == nil && q == nil)
		}
		if !types.Identical(p.t, q.t) {
			return x.F
		}
		return it.eqVal(p.v, q.v, p.t)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if strLen(a) != strLen(b) {
				return x.F
			}
			p, q := strBytes(a), strBytes(b)
			r := x.T
			for i := range p {
				r = x.And(r, x.Eq(it.expr(p[i], 8), it.expr(q[i], 8)))
				if r == x.F {
					break
				}
			}
			return r
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			break
		}
		w, _ := widthOf(t)
		if a.sym() == nil && b.sym() == nil {
			if w == wF64 {
				return x.Bool(a.f() == b.f())
			}
			return x.Bool(a.u == b.u)
		}
		if w == wF64 {
			return x.FCmp(OFEq, it.expr(a, w), it.expr(b, w))
		}
		return x.Eq(it.expr(a, w), it.expr(b, w))
	}
	// reference kinds
	if _, ok := a.r.(*PtrUnion); !ok {
		if _, ok := b.r.(*PtrUnion); !ok {
			switch p := a.r.(type) {
			case nil:
				return x.Bool(b.r == nil)
			case *Obj:
				q, ok := b.r.(*Obj)
				return x.Bool(ok && p == q && a.u == b.u)
			case *SliceV, *Func: // only comparable to nil
				return x.Bool(b.r == a.r)
			default:
				return x.Bool(a.r == b.r)
			}
		}
	}
	pa, ok1 := ptrAlts(it, a)
	pb, ok2 := ptrAlts(it, b)
	if !ok1 || !ok2 {
		panic(unsupported("pointer comparison"))
	}
	r := x.F
	for _, s := range pa {
		for _, t := range pb {
			if s.obj == t.obj && s.off == t.off {
				r = x.Or(r, x.And(s.g, t.g))
			}
		}
	}
	return r
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }
