package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- harness intrinsics ----------

func (it *Interp) mkVar(name string, w uint8, lo, hi int64) *Expr {
	n := len(it.x.vars)
	e := it.x.Var(name, w, lo, hi)
	if len(it.x.vars) > n && it.modelInit != nil && it.model != nil {
		// give the new variable the value the prefix model has for it
		it.extendModel()
	}
	return e
}

func (it *Interp) extendModel() {
	m := it.model
	n := len(it.x.vars)
	vals := make([]uint64, n)
	for i := range vals {
		if i < len(m.vals) {
			vals[i] = m.vals[i]
		} else if u, ok := it.modelInit[it.x.vars[i].key()]; ok {
			vals[i] = u
		} else {
			vals[i] = it.x.varVal(nil, uint64(i))
		}
	}
	it.model = &Model{vals}
}

func (it *Interp) nondetName(s string) string {
	if it.spec > 0 {
		it.abort("nondet in merged region")
	}
	k := it.inCount[s]
	it.inCount[s] = k + 1
	if k > 0 || strings.HasSuffix(s, "#") {
		return fmt.Sprintf("%s#%d", s, k)
	}
	return s
}

func (it *Interp) nondet(name string, lo, hi int64, w uint8) Val {
	nm := it.nondetName(name)
	if it.concrete != nil {
		if it.concPos >= len(it.concrete) {
			panic(pathEnd{"concrete inputs exhausted"})
		}
		v := it.concrete[it.concPos]
		it.concPos++
		r := ci(w, uint64(v.Val))
		it.inputs = append(it.inputs, inputRec{nm, r, w})
		return r
	}
	if lo > hi {
		panic(pathEnd{"empty range"})
	}
	var r Val
	switch {
	case lo == hi:
		r = ci(w, uint64(lo))
	case w == vBool:
		r = sv(it.mkVar(nm, wBool, 0, 1))
	default:
		d := uint64(hi - lo)
		vw := uint8(1)
		for vw < 64 && (uint64(1)<<vw)-1 < d {
			vw++
		}
		if vw >= w && lo == minS(w) {
			r = sv(it.mkVar(nm, w, lo, hi))
		} else if vw >= 63 {
			r = sv(it.mkVar(nm, 64, lo, hi))
			if w < 64 {
				r = sv(it.x.Extract(r.sym(), w-1, 0))
			}
		} else {
			// one extra bit so that the variable is non-negative as signed
			e := it.mkVar(nm, vw+1, 0, int64(d))
			var x *Expr
			if vw+1 >= w {
				x = e
				if vw+1 > w {
					x = it.x.Extract(e, w-1, 0)
				}
			} else {
				x = it.x.ZExt(e, w)
			}
			r = sv(it.x.Add(x, it.x.Const(w, uint64(lo))))
		}
	}
	it.inputs = append(it.inputs, inputRec{nm, r, w})
	return r
}

func (it *Interp) assume(c Val) {
	e := it.bexpr(c)
	if e == it.x.T {
		return
	}
	if e == it.x.F {
		panic(pathEnd{"assume false"})
	}
	if v, ok := it.implied(e); ok {
		if v {
			return
		}
		panic(pathEnd{"assume false"})
	}
	if it.spec > 0 {
		it.abort("assume in merged region")
	}
	if it.replaying() {
		it.addPC(e)
		return
	}
	if !it.evalB(e) {
		r, m := it.query(e)
		if r == UNSAT {
			panic(pathEnd{"assume infeasible"})
		}
		if r == UNKNOWN {
			it.unknownAt("assume")
			panic(pathEnd{"assume unknown"})
		}
		it.model = m
	}
	it.addPC(e)
}

var errNone = Val{}

func intr(name string) intercept {
	arg := func(a Val, w uint8) int64 { return sext(a.u, w) }
	rng := func(w uint8, lo, hi int64) intercept {
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.nondet(it.goStr(a[0]), lo, hi, w)
		}
	}
	switch name {
	case "vInt":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if it.concrete == nil && (a[1].sym() != nil || a[2].sym() != nil) {
				lo, hi := it.expr(a[1], 64), it.expr(a[2], 64)
				r := it.nondet(it.goStr(a[0]), lo.lo, hi.hi, 64)
				re := it.expr(r, 64)
				it.assume(sv(it.x.And(it.x.Sle(lo, re), it.x.Sle(re, hi))))
				return r
			}
			return it.nondet(it.goStr(a[0]), arg(a[1], 64), arg(a[2], 64), 64)
		}
	case "vBool":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.nondet(it.goStr(a[0]), 0, 1, vBool)
		}
	case "vU8":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.nondetFull(it.goStr(a[0]), 8, false)
		}
	case "vU16":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.nondetFull(it.goStr(a[0]), 16, false)
		}
	case "vI16":
		return rng(16, -32768, 32767)
	case "vU32":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.nondetFull(it.goStr(a[0]), 32, false)
		}
	case "vI32":
		return rng(32, math.MinInt32, math.MaxInt32)
	case "vU64", "vI64":
		return rng(64, math.MinInt64, math.MaxInt64)
	case "vPick":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			nm := it.nondetName(it.goStr(a[0]))
			var r Val
			if it.concrete != nil {
				if it.concPos >= len(it.concrete) {
					panic(pathEnd{"concrete inputs exhausted"})
				}
				r = ci(64, uint64(it.concrete[it.concPos].Val))
				it.concPos++
			} else {
				r = cint(it.choice(int(a[1].u)))
			}
			it.inputs = append(it.inputs, inputRec{nm, r, 64})
			return r
		}
	case "vConcrete":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return ci(64, it.concretize(a[0], 64, true, "vConcrete"))
		}
	case "vAssume":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if it.concrete != nil {
				if a[0].u == 0 {
					panic(pathEnd{"assume false"})
				}
				return Val{}
			}
			it.assume(a[0])
			return Val{}
		}
	case "vAssert":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			id := it.goStr(a[1])
			it.res.reached[id] = true
			it.check(it.bexpr(a[0]), id, "assertion "+id, false)
			return Val{}
		}
	case "vReach":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.res.reached[it.goStr(a[0])] = true
			return Val{}
		}
	case "vFails":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) (ret Val) {
			if it.spec > 0 {
				it.abort("vFails in merged region")
			}
			d, cur, fm := it.depth, it.cur, it.failMode
			it.failMode++
			defer func() {
				it.failMode = fm
				if r := recover(); r != nil {
					switch r.(type) {
					case targetPanic:
						it.depth, it.cur = d, cur
						ret = cbool(true)
					default:
						panic(r)
					}
				}
			}()
			f := a[0].r.(*Func)
			it.callFn(f.fn, nil, f.bind)
			return cbool(false)
		}
	case "vEncoding":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cbool(true) }
	case "vMapOrder":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.mapOrder = a[0].u != 0
			return Val{}
		}
	case "vSchedules":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.sched.explore = true
			it.sched.preempts = int(a[0].u)
			return Val{}
		}
	case "vSettle":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return cint(it.sched.settle())
		}
	case "vIte":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return sv(it.x.Ite(it.bexpr(a[0]), it.expr(a[1], 64), it.expr(a[2], 64)))
		}
	case "vAnd", "vOr", "vImp":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			p, q := it.bexpr(a[0]), it.bexpr(a[1])
			switch name {
			case "vAnd":
				return sv(it.x.And(p, q))
			case "vOr":
				return sv(it.x.Or(p, q))
			}
			return sv(it.x.Or(it.x.Not(p), q))
		}
	case "vTempDir":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cstr("/vtmp") }
	case "vSteps":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.maxSteps = int64(a[0].u)
			return Val{}
		}
	}
	return nil
}

func (it *Interp) nondetFull(name string, w uint8, signed bool) Val {
	nm := it.nondetName(name)
	if it.concrete != nil {
		if it.concPos >= len(it.concrete) {
			panic(pathEnd{"concrete inputs exhausted"})
		}
		v := it.concrete[it.concPos]
		it.concPos++
		r := ci(w, uint64(v.Val))
		it.inputs = append(it.inputs, inputRec{nm, r, w})
		return r
	}
	r := sv(it.mkVar(nm, w, minS(w), maxS(w)))
	it.inputs = append(it.inputs, inputRec{nm, r, w})
	return r
}

// ---------- intercept table ----------

func nop(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return Val{} }

func findIntercept(it *Interp, fn *ssa.Function) intercept {
	if fn.Pkg == it.main {
		if strings.HasPrefix(fn.Name(), "v") && fn.Signature.Recv() == nil {
			if h := intr(fn.Name()); h != nil {
				return h
			}
		}
		n := shortName(fn)
		if strings.HasPrefix(n, "(*MyLogger).") || strings.HasPrefix(n, "(*MiniLogger).") {
			switch fn.Name() {
			case "Panic":
				return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
					msg := it.sprintf(a[1], a[2])
					panic(targetPanic{msg: "Log.Panic: " + it.fmtStr(a[1]), v: Val{r: &Iface{t: types.Typ[types.String], v: cstr(msg)}}})
				}
			case "GetDumpedSegs":
				return nop
			case "Printf":
				if n == "(*MyLogger).Printf" {
					return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
						if f := it.main.Func("vos_logged"); f != nil {
							it.callFn(f, []Val{a[1]}, nil)
						}
						return Val{}
					}
				}
			}
			return nop
		}
		if n == "CreateMiniLogger" || n == "CreateLogger" {
			return nil
		}
		return nil
	}
	return stdIntercept(fn)
}

func (it *Interp) fmtStr(v Val) string {
	if _, ok := v.r.(*SymStr); ok {
		return "?"
	}
	return it.goStr(v)
}

// goVal converts a concrete interface value to a Go value for formatting
func (it *Interp) goVal(v Val, t types.Type) any {
	if i, ok := v.r.(*Iface); ok {
		if m := it.findErrMethod(i.t); m != nil {
			r := it.callFn(m, []Val{i.v}, nil)
			return it.fmtStr(r)
		}
		return it.goVal(i.v, i.t)
	}
	if types.IsInterface(t) {
		return nil
	}
	w, s := widthOf(t)
	if w != 0 {
		if v.sym() != nil {
			return "?"
		}
		switch {
		case w == vBool:
			return v.u != 0
		case w == wF64:
			return v.f()
		case s:
			return sext(v.u, w)
		default:
			return v.u
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return it.fmtStr(v)
		}
	case *types.Slice:
		el := it.sliceElems(v)
		if ew, _ := widthOf(u.Elem()); ew == 8 {
			b := make([]byte, len(el))
			for i, c := range el {
				if c.sym() != nil {
					return "?"
				}
				b[i] = byte(c.u)
			}
			return b
		}
		var r []any
		if it.slots(u.Elem()) == 1 {
			for _, c := range el {
				r = append(r, it.goVal(c, u.Elem()))
			}
		}
		return r
	}
	return "?"
}

func (it *Interp) findErrMethod(t types.Type) *ssa.Function {
	ms := it.prog.MethodSets.MethodSet(t)
	for _, n := range []string{"Error", "String"} {
		if sel := ms.Lookup(nil, n); sel != nil {
			f := it.prog.MethodValue(sel)
			if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && f.Blocks != nil {
				return f
			}
		}
	}
	return nil
}

func (it *Interp) sprintf(f, args Val) string {
	var gs []any
	ifaceT := types.NewInterfaceType(nil, nil)
	for _, a := range it.sliceElems(args) {
		gs = append(gs, it.goVal(a, ifaceT))
	}
	return fmt.Sprintf(it.fmtStr(f), gs...)
}

func (it *Interp) mkError(msg string) Val {
	p := it.prog.ImportedPackage("errors")
	return it.callFn(p.Func("New"), []Val{cstr(msg)}, nil)
}

func (it *Interp) pkgVar(pkg, name string) Val {
	p := it.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package %s", pkg))
	}
	g := p.Var(name)
	o := it.globalObj(g)
	return o.get(0)
}

// invoke calls a method on an interface value
func (it *Interp) invoke(recv Val, name string, args ...Val) Val {
	ifc, _ := recv.r.(*Iface)
	if ifc == nil {
		it.nilDeref()
	}
	if nv, ok := ifc.v.r.(*Native); ok {
		if h := nativeMethod(it, nv, name); h != nil {
			r := h(it, append([]Val{ifc.v}, args...))
			if len(r) == 1 {
				return r[0]
			}
			return Val{r: Tuple(r)}
		}
	}
	ms := it.prog.MethodSets.MethodSet(ifc.t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn = it.prog.MethodValue(ms.At(i))
		}
	}
	if fn == nil {
		panic(unsupported("invoke %s on %s", name, ifc.t))
	}
	return it.callFnN(fn, append([]Val{ifc.v}, args...))
}

func (it *Interp) callFnN(fn *ssa.Function, args []Val) Val {
	fi := it.info(fn)
	if fi.nat != nil {
		return fi.nat(it, it.cur, args, nil)
	}
	return it.callFn(fn, args, nil)
}

// leBytes encodes a value in little-endian layout
func (it *Interp) leBytes(v Val, t types.Type) []Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := it.pickPtr(v)
		return it.leBytes(it.load(p, u.Elem(), it.slots(u.Elem())), u.Elem())
	case *types.Slice:
		var r []Val
		es := it.slots(u.Elem())
		el := it.sliceElems(v)
		for i := 0; i+es <= len(el); i += es {
			r = append(r, it.leBytes(it.unflat(el[i:i+es], u.Elem()), u.Elem())...)
		}
		return r
	case *types.Struct:
		var r []Val
		f := it.flat(v, t)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := it.slots(ft)
			r = append(r, it.leBytes(it.unflat(f[off:off+n], ft), ft)...)
			off += n
		}
		return r
	case *types.Array:
		var r []Val
		f := it.flat(v, t)
		n := it.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = append(r, it.leBytes(it.unflat(f[i*n:(i+1)*n], u.Elem()), u.Elem())...)
		}
		return r
	case *types.Interface:
		i := v.r.(*Iface)
		return it.leBytes(i.v, i.t)
	}
	w, _ := widthOf(t)
	if w == vBool || w == 0 {
		panic(unsupported("binary encoding of %s", t))
	}
	n := int(w) / 8
	if w == wF64 {
		n = 8
		if v.sym() != nil {
			panic(unsupported("binary encoding of symbolic float"))
		}
	}
	r := make([]Val, n)
	for i := range r {
		if e := v.sym(); e != nil {
			r[i] = sv(it.x.Extract(e, uint8(i*8+7), uint8(i*8)))
		} else {
			r[i] = ci(8, v.u>>(8*i))
		}
	}
	return r
}

func (it *Interp) leSize(t types.Type, v Val) int {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return it.leSize(u.Elem(), Val{})
	case *types.Slice:
		s, _ := v.r.(*SliceV)
		if s == nil {
			return 0
		}
		return s.len * it.leSize(u.Elem(), Val{})
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := it.leSize(u.Field(i).Type(), Val{})
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Array:
		return int(u.Len()) * it.leSize(u.Elem(), Val{})
	case *types.Interface:
		i := v.r.(*Iface)
		return it.leSize(i.t, i.v)
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String:
			return -1
		case types.Bool:
			return 1
		}
	}
	w, _ := widthOf(t)
	if w == wF64 {
		return 8
	}
	return int(w) / 8
}

func (it *Interp) fromLE(b []Val, t types.Type) (Val, []Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var f []Val
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, b = it.fromLE(b, u.Field(i).Type())
			f = append(f, it.flat(v, u.Field(i).Type())...)
		}
		return Val{r: Agg(f)}, b
	case *types.Array:
		var f []Val
		for i := 0; i < int(u.Len()); i++ {
			var v Val
			v, b = it.fromLE(b, u.Elem())
			f = append(f, it.flat(v, u.Elem())...)
		}
		return Val{r: Agg(f)}, b
	}
	w, _ := widthOf(t)
	if w < 8 || w == wF64 {
		panic(unsupported("binary decoding of %s", t))
	}
	n := int(w) / 8
	var e *Expr
	conc := true
	var u uint64
	for i := 0; i < n; i++ {
		if b[i].sym() != nil {
			conc = false
		}
		u |= b[i].u << (8 * i)
	}
	if conc {
		return ci(w, u), b[n:]
	}
	e = it.expr(b[0], 8)
	for i := 1; i < n; i++ {
		e = it.x.Concat(it.expr(b[i], 8), e)
	}
	return sv(e), b[n:]
}

func (it *Interp) mkBytes(b []Val) Val {
	r := it.newSlice(types.Typ[types.Uint8], len(b), len(b))
	copy(r.r.(*SliceV).obj.v, b)
	if m := r.r.(*SliceV).obj.m; m != nil {
		for i, c := range b {
			m[i] = c
		}
	}
	return r
}

func (it *Interp) readFull(r Val, n int) ([]Val, Val) {
	buf := it.newSlice(types.Typ[types.Uint8], n, n)
	s := buf.r.(*SliceV)
	got := 0
	for got < n {
		part := Val{r: &SliceV{obj: s.obj, off: got, len: n - got, cap: n - got, es: 1}}
		res := it.invoke(r, "Read", part).r.(Tuple)
		got += int(res[0].u)
		if res[1].r != nil {
			if got >= n {
				break
			}
			eof := it.pkgVar("io", "EOF")
			if sameVal(res[1], eof) && got > 0 {
				return nil, it.pkgVar("io", "ErrUnexpectedEOF")
			}
			return nil, res[1]
		}
	}
	return it.sliceElems(buf), Val{}
}

func fOp(it *Interp, v Val) *Expr { return it.expr(v, wF64) }

func stdIntercept(fn *ssa.Function) intercept {
	name := fn.String()
	if h, ok := stdTable[name]; ok {
		return h
	}
	if fn.Pkg == nil {
		return nil
	}
	switch fn.Pkg.Pkg.Path() {
	case "fmt":
		switch fn.Name() {
		case "Sprintf":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cstr(it.sprintf(a[0], a[1])) }
		case "Sprint", "Sprintln":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cstr("?") }
		case "Errorf":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
				return it.mkError(it.sprintf(a[0], a[1]))
			}
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
				return Val{r: Tuple{cint(0), Val{}}}
			}
		}
	case "log":
		switch {
		case strings.HasPrefix(fn.Name(), "Panic"):
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
				panic(targetPanic{msg: "log.Panic", v: it.rtErr("log.Panic")})
			}
		case strings.HasPrefix(fn.Name(), "Fatal"):
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { panic(targetExit{1}) }
		case fn.Name() == "New":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
				return Val{r: it.newObj(8, "logger")}
			}
		case fn.Name() == "init":
			return nil
		}
		return nop
	case "time":
		switch fn.Name() {
		case "Now", "Since", "Sleep", "Seconds":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return Val{} }
		}
	case "runtime":
		switch fn.Name() {
		case "NumCPU", "GOMAXPROCS":
			return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cint(2) }
		case "Gosched", "GC", "KeepAlive":
			return nop
		}
	case "math":
		return mathIntercept(fn.Name())
	case "sync/atomic":
		return atomicIntercept(fn)
	}
	return nil
}

func mathIntercept(n string) intercept {
	c1 := func(conc func(float64) float64, symf func(it *Interp, e *Expr) *Expr) intercept {
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil {
				return cfloat(conc(a[0].f()))
			}
			if symf == nil {
				panic(unsupported("symbolic math.%s", n))
			}
			return sv(symf(it, a[0].sym()))
		}
	}
	switch n {
	case "Sqrt":
		return c1(math.Sqrt, func(it *Interp, e *Expr) *Expr { return it.x.FUn(OFSqrt, e, 0) })
	case "Abs":
		return c1(math.Abs, func(it *Interp, e *Expr) *Expr { return it.x.FAbs(e) })
	case "Floor":
		return c1(math.Floor, func(it *Interp, e *Expr) *Expr { return it.x.FUn(OFRound, e, 0) })
	case "Ceil":
		return c1(math.Ceil, func(it *Interp, e *Expr) *Expr { return it.x.FUn(OFRound, e, 1) })
	case "Trunc":
		return c1(math.Trunc, func(it *Interp, e *Expr) *Expr { return it.x.FUn(OFRound, e, 2) })
	case "Round":
		return c1(math.Round, func(it *Interp, e *Expr) *Expr {
			if it.x.asInt(e) != nil {
				return e
			}
			return it.x.FUn(OFRound, e, 3)
		})
	case "Atan2":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil && a[1].sym() == nil {
				return cfloat(math.Atan2(a[0].f(), a[1].f()))
			}
			// along an axis only the sign counts
			x := it.x
			axis := func(v Val, con Val, f func(float64) float64) (Val, bool) {
				e, _ := x.dyOp(fOp(it, v))
				if e == nil || con.sym() != nil || con.f() != 0 {
					return Val{}, false
				}
				z := x.Const(64, 0)
				switch {
				case e.lo > 0 || e.hi >= 0 && it.branch(x.Slt(z, e)):
					return cfloat(f(1)), true
				case e.hi < 0 || e.lo < 0 && it.branch(x.Slt(e, z)):
					return cfloat(f(-1)), true
				}
				return cfloat(f(0)), true
			}
			if v, ok := axis(a[0], a[1], func(t float64) float64 { return math.Atan2(t, a[1].f()) }); ok {
				return v
			}
			if v, ok := axis(a[1], a[0], func(t float64) float64 { return math.Atan2(a[0].f(), t) }); ok {
				return v
			}
			panic(unsupported("symbolic math.Atan2"))
		}
	case "Acos":
		return c1(math.Acos, nil)
	case "Signbit":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil {
				return cbool(math.Signbit(a[0].f()))
			}
			if e, _ := it.x.dyOp(a[0].sym()); e != nil {
				z := it.x.Const(64, 0)
				if e.lo <= 0 && e.hi >= 0 && it.branch(it.x.Eq(e, z)) {
					// the sign of zero is not tracked: either
					it.tmp++
					return sv(it.x.Var(fmt.Sprintf("zerosign%d", it.tmp), wBool, 0, 1))
				}
				return sv(it.x.Slt(e, z))
			}
			return sv(it.x.FSign(a[0].sym()))
		}
	case "IsNaN":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil {
				return cbool(math.IsNaN(a[0].f()))
			}
			if e, _ := it.x.asDy(a[0].sym()); e != nil {
				return cbool(false)
			}
			return sv(it.x.Not(it.x.FCmp(OFEq, a[0].sym(), a[0].sym())))
		}
	case "FMA":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil && a[1].sym() == nil && a[2].sym() == nil {
				return cfloat(math.FMA(a[0].f(), a[1].f(), a[2].f()))
			}
			x := it.x
			p, q, r := x.asInt(fOp(it, a[0])), x.asInt(fOp(it, a[1])), x.asInt(fOp(it, a[2]))
			if p != nil && q != nil && r != nil && mulFits(p, q) && exactRange(r) {
				m := x.Mul(p, q)
				s := x.Add(m, r)
				if exactRange(m) && exactRange(s) {
					return sv(x.FFromInt(s))
				}
			}
			// p = n/d rounded: n/d*q+r has one rounding of the quotient and one
			// of the sum; the sum is exact when it outweighs the former
			if f := fOp(it, a[0]); f.op == OFDiv && q != nil && r != nil {
				n, d := x.asInt(f.a), x.asInt(f.b)
				if n != nil && d != nil && (d.lo > 0 || d.hi < 0) && mulFits(n, q) {
					if e := x.exactDiv(x.Mul(n, q), d); e != nil && exactRange(e) && exactRange(r) {
						s := x.Add(e, r)
						m := max(-e.lo, e.hi)
						if e.op == OConst && e.k == 0 && r.op != OConst {
							return sv(x.FFromInt(r))
						}
						if exactRange(s) && (s.lo > 0 && m < s.lo/2 || s.hi < 0 && m < -s.hi/2) {
							return sv(x.FFromInt(s))
						}
					}
				}
			}
			if f, g := fOp(it, a[0]), fOp(it, a[1]); f.op == OConst && g.op == OConst {
				u, v := math.Float64frombits(f.k), math.Float64frombits(g.k)
				if m := u * v; math.FMA(u, v, -m) == 0 && math.Abs(m) < 1<<50 {
					return sv(x.FBin(OFAdd, x.FConst(m), fOp(it, a[2])))
				} else if r != nil && exactRange(r) && !math.IsInf(m, 0) {
					if s := x.nearIntC(r, m, math.Abs(math.FMA(u, v, -math.Round(m)))*(1+0x1p-40)); s != nil {
						return sv(s)
					}
				}
			}
			return sv(x.mk(OFma, wF64, fOp(it, a[0]), fOp(it, a[1]), fOp(it, a[2]), 0))
		}
	case "Float64bits":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil {
				return ci(64, a[0].u)
			}
			panic(unsupported("symbolic Float64bits"))
		}
	case "Float64frombits":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil {
				return Val{u: a[0].u, w: wF64}
			}
			panic(unsupported("symbolic Float64frombits"))
		}
	case "Max", "Min":
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if a[0].sym() == nil && a[1].sym() == nil {
				if n == "Max" {
					return cfloat(math.Max(a[0].f(), a[1].f()))
				}
				return cfloat(math.Min(a[0].f(), a[1].f()))
			}
			panic(unsupported("symbolic math.%s", n))
		}
	}
	return nil
}

func atomicIntercept(fn *ssa.Function) intercept {
	n := fn.Name()
	sig := fn.Signature
	if sig.Recv() != nil {
		return nil
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		t := sig.Results().At(0).Type()
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.load(a[0], t, 1)
		}
	case strings.HasPrefix(n, "Store"):
		t := sig.Params().At(1).Type()
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.store(a[0], a[1], t, 1)
			return Val{}
		}
	case strings.HasPrefix(n, "Add"):
		t := sig.Params().At(1).Type()
		w, _ := widthOf(t)
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			v := sv(it.x.Add(it.expr(it.load(a[0], t, 1), w), it.expr(a[1], w)))
			it.store(a[0], v, t, 1)
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		t := sig.Params().At(1).Type()
		return func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if it.branch(it.eqVal(it.load(a[0], t, 1), a[1], t)) {
				it.store(a[0], a[2], t, 1)
				return cbool(true)
			}
			return cbool(false)
		}
	}
	return nil
}

var stdTable map[string]intercept

func ok1(v Val) Val { return v }

func init() {
	stdTable = map[string]intercept{
		"os.Exit":               func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { panic(targetExit{int(a[0].u)}) },
		"internal/abi.NoEscape": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return a[0] },
		"internal/abi.Escape":   func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return a[0] },
		"internal/bytealg.MakeNoZero": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			n := int(it.concretize(a[0], 64, true, "MakeNoZero"))
			return it.newSlice(types.Typ[types.Uint8], n, n)
		},
		"(*strings.Builder).copyCheck": nop,
		"reflect.ValueOf": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return reflectValue(a[0]) },
		"(reflect.Value).Interface": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if g, ok := a[0].r.(Agg); ok {
				if _, ok := g[0].r.(*Iface); ok {
					return g[0]
				}
			}
			panic(unsupported("reflect.Value.Interface"))
		},
		"reflect.Select": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return it.reflectSelect(a[0]) },
		"bytes.Equal": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			p, q := it.sliceElems(a[0]), it.sliceElems(a[1])
			if len(p) != len(q) {
				return cbool(false)
			}
			r := it.x.T
			for i := range p {
				r = it.x.And(r, it.x.Eq(it.expr(p[i], 8), it.expr(q[i], 8)))
				if r == it.x.F {
					break
				}
			}
			return sv(r)
		},
		"internal/bytealg.Count": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.countByte(it.sliceElems(a[0]), a[1])
		},
		"internal/bytealg.CountString": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.IndexByte": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.indexByte(it.sliceElems(a[0]), a[1])
		},
		"internal/bytealg.IndexByteString": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.indexByte(strBytes(a[0]), a[1])
		},
		"bytes.IndexByte": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.indexByte(it.sliceElems(a[0]), a[1])
		},
		"strings.IndexByte": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return it.indexByte(strBytes(a[0]), a[1])
		},
		"strings.ToLower": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return cstr(strings.ToLower(it.goStr(a[0])))
		},
		"strings.ToUpper": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return cstr(strings.ToUpper(it.goStr(a[0])))
		},
		"strings.Split": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			var vs []Val
			if sep := strBytes(a[1]); len(sep) == 1 && sep[0].sym() == nil {
				var cur []Val
				for _, c := range strBytes(a[0]) {
					if it.branch(it.x.Eq(it.expr(c, 8), it.x.Const(8, sep[0].u))) {
						vs = append(vs, mkStr(cur))
						cur = nil
					} else {
						cur = append(cur, c)
					}
				}
				vs = append(vs, mkStr(cur))
			} else {
				for _, s := range strings.Split(it.goStr(a[0]), it.goStr(a[1])) {
					vs = append(vs, cstr(s))
				}
			}
			r := it.newSlice(types.Typ[types.String], len(vs), len(vs))
			copy(r.r.(*SliceV).obj.v, vs)
			return r
		},
		"strings.ReplaceAll": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return cstr(strings.ReplaceAll(it.goStr(a[0]), it.goStr(a[1]), it.goStr(a[2])))
		},
		"bytes.ToUpper": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			el := it.sliceElems(a[0])
			out := make([]Val, len(el))
			for i, c := range el {
				if e := c.sym(); e != nil {
					x := it.x
					low := x.And(x.Ule(x.Const(8, 'a'), e), x.Ule(e, x.Const(8, 'z')))
					out[i] = sv(x.Ite(low, x.Sub(e, x.Const(8, 32)), e))
				} else if c.u >= 'a' && c.u <= 'z' {
					out[i] = ci(8, c.u-32)
				} else {
					out[i] = ci(8, c.u)
				}
			}
			return it.mkBytes(out)
		},
		"strconv.Itoa": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return cstr(strconv.Itoa(int(it.concretize(a[0], 64, true, "Itoa"))))
		},
		"strconv.Atoi": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			if s, ok := a[0].r.(*SymStr); ok {
				if v, done := it.symAtoi(s); done {
					return v
				}
			}
			n, err := strconv.Atoi(it.goStr(a[0]))
			if err != nil {
				return Val{r: Tuple{cint(n), it.mkError(err.Error())}}
			}
			return Val{r: Tuple{cint(n), Val{}}}
		},
		"regexp.MustCompile": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return Val{r: &Native{regexp.MustCompile(it.goStr(a[0]))}}
		},
		"(*regexp.Regexp).MatchString": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			re := a[0].r.(*Native).x.(*regexp.Regexp)
			return cbool(re.MatchString(it.goStr(a[1])))
		},
		"(*regexp.Regexp).Match": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			re := a[0].r.(*Native).x.(*regexp.Regexp)
			return it.symMatch(re, it.sliceElems(a[1]))
		},
		"(*regexp.Regexp).Find": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			re := a[0].r.(*Native).x.(*regexp.Regexp)
			s := it.goStr(mkStr(it.sliceElems(a[1])))
			loc := re.FindStringIndex(s)
			if loc == nil {
				return Val{}
			}
			sl := *a[1].r.(*SliceV)
			sl.off += loc[0]
			sl.len = loc[1] - loc[0]
			sl.cap -= loc[0]
			return Val{r: &sl}
		},
		"(*regexp.Regexp).FindSubmatch": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			re := a[0].r.(*Native).x.(*regexp.Regexp)
			bs := it.sliceElems(a[1])
			m := it.symMatch(re, bs)
			if e := m.sym(); e != nil {
				if !it.branch(e) {
					return Val{}
				}
			} else if m.u == 0 {
				return Val{}
			}
			loc := re.FindStringSubmatchIndex(it.goStr(mkStr(bs)))
			t := types.NewSlice(types.Typ[types.Uint8])
			r := it.newSlice(t, len(loc)/2, len(loc)/2)
			rs := r.r.(*SliceV)
			for i := 0; i+1 < len(loc); i += 2 {
				if loc[i] < 0 {
					continue
				}
				sl := *a[1].r.(*SliceV)
				sl.off += loc[i]
				sl.len = loc[i+1] - loc[i]
				sl.cap -= loc[i]
				rs.obj.set(rs.off+i/2, Val{r: &sl})
			}
			return r
		},
		"encoding/binary.Size": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			i := a[0].r.(*Iface)
			return cint(it.leSize(i.t, i.v))
		},
		"encoding/binary.Write": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			i := a[2].r.(*Iface)
			b := it.leBytes(i.v, i.t)
			res := it.invoke(a[0], "Write", it.mkBytes(b)).r.(Tuple)
			return res[1]
		},
		"encoding/binary.Read": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			i := a[2].r.(*Iface)
			n := it.leSize(i.t, i.v)
			b, err := it.readFull(a[0], n)
			if err.r != nil {
				return err
			}
			switch u := i.t.Underlying().(type) {
			case *types.Pointer:
				v, _ := it.fromLE(b, u.Elem())
				it.store(i.v, v, u.Elem(), it.slots(u.Elem()))
			case *types.Slice:
				s := i.v.r.(*SliceV)
				for k := 0; k < s.len; k++ {
					var v Val
					v, b = it.fromLE(b, u.Elem())
					for j, f := range it.flat(v, u.Elem()) {
						it.set(s.obj, s.off+k*s.es+j, f)
					}
				}
			default:
				panic(unsupported("binary.Read into %s", i.t))
			}
			return Val{}
		},
		"(*sync/atomic.Value).Load": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return a[0].r.(*Obj).get(int(a[0].u))
		},
		"(*sync/atomic.Value).Store": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.set(a[0].r.(*Obj), int(a[0].u), a[1])
			return Val{}
		},
		"(*sync.Mutex).Lock": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, k := a[0].r.(*Obj), int(a[0].u)
			if o.get(k).u != 0 {
				it.sched.park(func() bool { return o.get(k).u == 0 })
			}
			it.set(o, k, ci(32, 1))
			return Val{}
		},
		"(*sync.Mutex).Unlock": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.set(a[0].r.(*Obj), int(a[0].u), ci(32, 0))
			it.sched.point()
			return Val{}
		},
		"(*sync.WaitGroup).Add": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, k := a[0].r.(*Obj), int(a[0].u)
			it.set(o, k, ci(64, o.get(k).u+a[1].u))
			return Val{}
		},
		"(*sync.WaitGroup).Done": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, k := a[0].r.(*Obj), int(a[0].u)
			it.set(o, k, ci(64, o.get(k).u-1))
			return Val{}
		},
		"(*sync.WaitGroup).Wait": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, k := a[0].r.(*Obj), int(a[0].u)
			it.sched.park(func() bool { return o.get(k).u == 0 })
			return Val{}
		},
		"(*sync.Pool).Get": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, base := a[0].r.(*Obj), int(a[0].u)
			pt := it.prog.ImportedPackage("sync").Type("Pool").Type()
			n := it.slots(pt)
			// slot 0 holds a list of returned items
			if l, ok := o.get(base).r.(Tuple); ok && len(l) > 0 {
				it.set(o, base, Val{r: l[:len(l)-1]})
				return l[len(l)-1]
			}
			f := o.get(base + n - 1)
			if f.r == nil {
				return Val{}
			}
			fv := f.r.(*Func)
			return it.callFn(fv.fn, nil, fv.bind)
		},
		"(*sync.Pool).Put": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			o, base := a[0].r.(*Obj), int(a[0].u)
			if it.spec > 0 {
				it.abort("sync.Pool.Put")
			}
			l, _ := o.get(base).r.(Tuple)
			it.set(o, base, Val{r: append(append(Tuple(nil), l...), a[1])})
			return Val{}
		},
		"errors.Is": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			_ = fr
			if sameVal(a[0], a[1]) {
				return cbool(true)
			}
			i, _ := a[0].r.(*Iface)
			j, _ := a[1].r.(*Iface)
			if i != nil && j != nil && types.Identical(i.t, j.t) && sameVal(i.v, j.v) {
				return cbool(true)
			}
			return cbool(false)
		},
		"math/rand.NewSource": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			panic(unsupported("math/rand"))
		},
	}
	for k, h := range fileTable() {
		stdTable[k] = h
	}
}

func (it *Interp) indexByte(b []Val, c Val) Val {
	r := it.x.Const(64, ^uint64(0))
	ce := it.expr(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		r = it.x.Ite(it.x.Eq(it.expr(b[i], 8), ce), it.x.Const(64, uint64(i)), r)
	}
	return sv(r)
}

// symAtoi: digits-only symbolic strings are converted arithmetically
func (it *Interp) symAtoi(s *SymStr) (Val, bool) {
	if len(s.b) > 9 || len(s.b) == 0 {
		return Val{}, false
	}
	x := it.x
	all := x.T
	v := x.Const(64, 0)
	for i, c := range s.b {
		// a byte that no number has: an error whatever the other bytes are
		if c.sym() == nil && (c.u < '0' || c.u > '9') && (i > 0 || c.u != '-' && c.u != '+') {
			return Val{r: Tuple{cint(0), it.mkError("strconv.Atoi: invalid syntax")}}, true
		}
	}
	for _, c := range s.b {
		e := it.expr(c, 8)
		all = x.And(all, x.And(x.Ule(x.Const(8, '0'), e), x.Ule(e, x.Const(8, '9'))))
		d := x.ZExt(x.Sub(e, x.Const(8, '0')), 64)
		v = x.Add(x.Mul(v, x.Const(64, 10)), d)
	}
	if it.branch(all) {
		return Val{r: Tuple{sv(v), Val{}}}, true
	}
	return Val{}, false
}

// ---------- in-memory files ----------

type fileObj struct {
	name    string
	o       *Obj // slot i = byte; growing
	size    int
	removed bool
}

type handle struct {
	f      *fileObj
	pos    int
	rd, wr bool
	closed bool
	app    bool
}

func (it *Interp) fileBytes(name string) *fileObj { return it.files[name] }

func nativeMethod(it *Interp, nv *Native, name string) func(it *Interp, args []Val) []Val {
	if _, ok := nv.x.(*handle); ok {
		if h, ok := stdTable["(*os.File)."+name]; ok {
			return func(it *Interp, args []Val) []Val {
				r := h(it, it.cur, args, nil)
				if t, ok := r.r.(Tuple); ok {
					return []Val(t)
				}
				return []Val{r}
			}
		}
	}
	return nil
}

func fileTable() map[string]intercept {
	newF := func(it *Interp, name string) *fileObj {
		it.nobj++
		f := &fileObj{name: name, o: &Obj{id: it.nobj, m: map[int]Val{}, label: "file"}}
		it.files[name] = f
		return f
	}
	errv := func(it *Interp, n string) Val { return it.mkError(n) }
	open := func(it *Interp, name string, flag int) Val {
		if it.spec > 0 {
			it.abort("file open")
		}
		f := it.files[name]
		if f == nil || f.removed {
			if flag&0x40 == 0 { // O_CREATE
				return Val{r: Tuple{Val{}, it.pkgVar("io/fs", "ErrNotExist")}}
			}
			f = newF(it, name)
		} else if flag&0x40 != 0 && flag&0x80 != 0 {
			return Val{r: Tuple{Val{}, it.pkgVar("io/fs", "ErrExist")}}
		}
		if flag&0x200 != 0 {
			f.size = 0
			f.o.m = map[int]Val{}
		}
		acc := flag & 3
		h := &handle{f: f, rd: acc != 1, wr: acc != 0}
		return Val{r: Tuple{Val{r: &Native{h}}, Val{}}}
	}
	H := func(it *Interp, v Val) *handle {
		n, ok := v.r.(*Native)
		if !ok {
			return nil
		}
		return n.x.(*handle)
	}
	wr := func(it *Interp, h *handle, b []Val, off int) Val {
		if it.spec > 0 {
			it.abort("file write")
		}
		if h == nil || h.closed || !h.wr {
			return Val{r: Tuple{cint(0), errv(it, "bad file descriptor")}}
		}
		for i, c := range b {
			it.set(h.f.o, off+i, c)
		}
		if off+len(b) > h.f.size {
			h.f.size = off + len(b)
		}
		return Val{r: Tuple{cint(len(b)), Val{}}}
	}
	rd := func(it *Interp, h *handle, dst Val, off int) (int, Val) {
		if h == nil || h.closed || !h.rd {
			return 0, errv(it, "bad file descriptor")
		}
		d, _ := dst.r.(*SliceV)
		if d == nil || d.len == 0 {
			return 0, Val{}
		}
		n := 0
		for n < d.len && off+n < h.f.size {
			v := h.f.o.m[off+n]
			if v.w == 0 {
				v = ci(8, 0)
			}
			it.set(d.obj, d.off+n, v)
			n++
		}
		if n == 0 {
			return 0, it.pkgVar("io", "EOF")
		}
		return n, Val{}
	}
	stat := func(it *Interp, f *fileObj) Val { return Val{r: &Iface{t: fileInfoT(it), v: Val{r: &Native{f}}}} }
	return map[string]intercept{
		"os.Open": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return open(it, it.goStr(a[0]), 0) },
		"os.Create": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return open(it, it.goStr(a[0]), 0x242)
		},
		"os.OpenFile": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return open(it, it.goStr(a[0]), int(a[1].u))
		},
		"os.CreateTemp": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			it.tmp++
			d := it.goStr(a[0])
			if d == "" {
				d = "/tmp"
			}
			return open(it, fmt.Sprintf("%s/%s%d", d, it.goStr(a[1]), it.tmp), 0x242)
		},
		"os.ReadFile": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			f := it.files[it.goStr(a[0])]
			if f == nil || f.removed {
				return Val{r: Tuple{Val{}, it.pkgVar("io/fs", "ErrNotExist")}}
			}
			b := make([]Val, f.size)
			for i := range b {
				b[i] = f.o.m[i]
				if b[i].w == 0 {
					b[i] = ci(8, 0)
				}
			}
			return Val{r: Tuple{it.mkBytes(b), Val{}}}
		},
		"os.WriteFile": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			t := open(it, it.goStr(a[0]), 0x242).r.(Tuple)
			if t[1].r != nil {
				return t[1]
			}
			return wr(it, H(it, t[0]), it.sliceElems(a[1]), 0).r.(Tuple)[1]
		},
		"os.Remove": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			f := it.files[it.goStr(a[0])]
			if f == nil || f.removed {
				return it.pkgVar("io/fs", "ErrNotExist")
			}
			delete(it.files, it.goStr(a[0]))
			return Val{}
		},
		"os.Stat": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			f := it.files[it.goStr(a[0])]
			if f == nil {
				return Val{r: Tuple{Val{}, it.pkgVar("io/fs", "ErrNotExist")}}
			}
			return Val{r: Tuple{stat(it, f), Val{}}}
		},
		"os.SameFile": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			i, _ := a[0].r.(*Iface)
			j, _ := a[1].r.(*Iface)
			if i == nil || j == nil {
				return cbool(false)
			}
			return cbool(i.v.r.(*Native).x == j.v.r.(*Native).x)
		},
		"(*os.File).Name": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return cstr(H(it, a[0]).f.name) },
		"(*os.File).Close": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			h := H(it, a[0])
			if h == nil || h.closed {
				return errv(it, "file already closed")
			}
			h.closed = true
			return Val{}
		},
		"(*os.File).Sync": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val { return Val{} },
		"(*os.File).Stat": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			return Val{r: Tuple{stat(it, H(it, a[0]).f), Val{}}}
		},
		"(*os.File).Write": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			h := H(it, a[0])
			p := 0
			if h != nil {
				p = h.pos
			}
			r := wr(it, h, it.sliceElems(a[1]), p)
			if h != nil {
				h.pos += int(r.r.(Tuple)[0].u)
			}
			return r
		},
		"(*os.File).WriteAt": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			off := int(int64(it.concretize(a[2], 64, true, "WriteAt offset")))
			if off < 0 {
				return Val{r: Tuple{cint(0), errv(it, "negative offset")}}
			}
			return wr(it, H(it, a[0]), it.sliceElems(a[1]), off)
		},
		"(*os.File).Read": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			h := H(it, a[0])
			n, e := rd(it, h, a[1], h.pos)
			h.pos += n
			return Val{r: Tuple{cint(n), e}}
		},
		"(*os.File).ReadAt": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			off := int(int64(it.concretize(a[2], 64, true, "ReadAt offset")))
			if off < 0 {
				return Val{r: Tuple{cint(0), errv(it, "negative offset")}}
			}
			n, e := rd(it, H(it, a[0]), a[1], off)
			if s, _ := a[1].r.(*SliceV); e.r == nil && s != nil && n < s.len {
				e = it.pkgVar("io", "EOF")
			}
			return Val{r: Tuple{cint(n), e}}
		},
		"(*os.File).Seek": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			h := H(it, a[0])
			off := int(int64(it.concretize(a[1], 64, true, "Seek offset")))
			switch a[2].u {
			case 1:
				off += h.pos
			case 2:
				off += h.f.size
			}
			if off < 0 {
				return Val{r: Tuple{cint(0), errv(it, "invalid argument")}}
			}
			h.pos = off
			return Val{r: Tuple{cint(off), Val{}}}
		},
		"(*os.File).Truncate": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			h := H(it, a[0])
			n := int(a[1].u)
			for i := n; i < h.f.size; i++ {
				delete(h.f.o.m, i)
			}
			h.f.size = n
			return Val{}
		},
		"io.Copy": func(it *Interp, fr *Frame, a []Val, cc *ssa.CallCommon) Val {
			// generic read/write loop
			tot := 0
			for {
				buf := it.newSlice(types.Typ[types.Uint8], 512, 512)
				r := it.invoke(a[1], "Read", buf).r.(Tuple)
				n := int(r[0].u)
				if n > 0 {
					s := *buf.r.(*SliceV)
					s.len = n
					w := it.invoke(a[0], "Write", Val{r: &s}).r.(Tuple)
					tot += int(w[0].u)
					if w[1].r != nil {
						return Val{r: Tuple{cint(tot), w[1]}}
					}
				}
				if r[1].r != nil {
					if sameVal(r[1], it.pkgVar("io", "EOF")) {
						return Val{r: Tuple{cint(tot), Val{}}}
					}
					return Val{r: Tuple{cint(tot), r[1]}}
				}
			}
		},
	}
}

func fileInfoT(it *Interp) types.Type {
	return types.NewPointer(it.prog.ImportedPackage("os").Type("File").Type())
}

var _ = errors.New
var _ = sort.Strings

func (it *Interp) countByte(el []Val, c Val) Val {
	n := it.x.Const(64, 0)
	one := it.x.Const(64, 1)
	for _, b := range el {
		n = it.x.Add(n, it.x.Ite(it.x.Eq(it.expr(b, 8), it.expr(c, 8)), one, it.x.Const(64, 0)))
	}
	return sv(n)
}
