package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	k byte // T F forked, t f forced, M merged region, C value choice, V reported check
	v uint64
}

type jent struct {
	o    *Obj
	i    int
	old  Val
	undo func()
}

type Violation struct {
	Harness string
	ID      string // assertion id or panic signature
	Msg     string
	Inputs  []InputVal
	Where   string
}

type InputVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type inputRec struct {
	name string
	v    Val
	w    uint8
}

// path terminators (thrown with panic)
type pathEnd struct{ why string }
type abortSpec struct{ why string }
type deadArm struct{}
type targetPanic struct {
	v   Val
	msg string
}
type targetExit struct{ code int }
type killedG struct{}

type Frame struct {
	fi       *FnInfo
	regs     []Val
	prev     int
	block    int
	phisDone bool
	done     bool
	ret      Val
	defers   []deferred
	spec     int
	panicked *targetPanic
	deferOf  *Frame
	caller   *Frame
	curIns   *insInfo
}

type deferred struct {
	f    Val
	cc   *ssa.CallCommon
	args []Val
}

type Interp struct {
	L     *Loader
	prog  *ssa.Program
	main  *ssa.Package
	x     *Ctx
	sol   *Solver
	slotC map[types.Type]int
	nobj  int64
	naddr uint64
	fns   map[*ssa.Function]*FnInfo
	glob  map[*ssa.Global]*Obj
	inits map[*ssa.Package]int
	meth  map[methKey]*ssa.Function

	// path state
	journaling bool
	journal    []jent
	pc         []*Expr
	pcHas      map[*Expr]int
	pcVs       []*Expr
	model      *Model
	trace      []dec
	prefixLen  int
	pos        int
	nchecks    uint64
	spec       int
	lazy       int
	steps      int64
	maxSteps   int64
	inputs     []inputRec
	inCount    map[string]int
	failMode   int
	depth      int
	cur        *Frame
	res        *pathResult
	opts       hOpts
	deadline   time.Time
	harness    string
	concrete   []InputVal // concrete mode: consume these instead of making variables
	concPos    int
	mapOrder   bool
	files      map[string]*fileObj
	exitOK     bool

	sched *Sched

	encoded   map[*ssa.Function]bool
	tmp       int64
	modelInit map[string]uint64
	noMerge   map[string]bool
	dbg       int
}

type hOpts struct {
	noMerge  bool
	splitPtr bool
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type pathResult struct {
	alts       []altPrefix
	viol       []Violation
	reached    map[string]bool
	asserts    map[string]int // assertion id -> times discharged
	nassert    int
	nimplicit  int
	unknown    []string
	end        string
	forks      int
	merges     int
	mergeFails map[string]int
	sample     []InputVal
}

type altPrefix struct {
	tr    []dec
	model map[string]uint64
	ord   int
}

func NewInterp(L *Loader) *Interp {
	it := &Interp{L: L, prog: L.prog, main: L.main, slotC: map[types.Type]int{}, fns: map[*ssa.Function]*FnInfo{},
		glob: map[*ssa.Global]*Obj{}, inits: map[*ssa.Package]int{}, meth: map[methKey]*ssa.Function{},
		encoded: map[*ssa.Function]bool{}, noMerge: map[string]bool{}}
	it.x = NewCtx()
	it.sol = NewSolver(it.x, L.capMs, L.slowMs)
	it.pcHas = map[*Expr]int{}
	return it
}

func (it *Interp) resetCtx() {
	it.sol.stopAll()
	old := it.sol
	it.x = NewCtx()
	it.sol = NewSolver(it.x, it.L.capMs, it.L.slowMs)
	it.sol.Queries, it.sol.Sat, it.sol.Unsat, it.sol.Unk, it.sol.Cached, it.sol.Errors, it.sol.Fallbk, it.sol.Time =
		old.Queries, old.Sat, old.Unsat, old.Unk, old.Cached, old.Errors, old.Fallbk, old.Time
	it.sol.IntQ, it.sol.IntUnk, it.sol.IntTime = old.IntQ, old.IntUnk, old.IntTime
	it.sol.NarQ = old.NarQ
}

// ---------- heap ----------

func (it *Interp) set(o *Obj, i int, v Val) {
	if it.journaling {
		it.journal = append(it.journal, jent{o: o, i: i, old: o.get(i)})
	}
	o.set(i, v)
}

func (it *Interp) undoTo(m int) {
	for j := len(it.journal) - 1; j >= m; j-- {
		e := &it.journal[j]
		if e.undo != nil {
			e.undo()
		} else {
			e.o.set(e.i, e.old)
		}
		*e = jent{}
	}
	it.journal = it.journal[:m]
}

func (it *Interp) onUndo(f func()) {
	if it.journaling {
		it.journal = append(it.journal, jent{undo: f})
	}
}

// ---------- path condition ----------

func (it *Interp) addPC(c *Expr) {
	if c.op == OAnd {
		it.addPC(c.a)
		it.addPC(c.b)
		return
	}
	if c == it.x.T {
		return
	}
	it.pc = append(it.pc, c)
	it.pcHas[c]++
}

func (it *Interp) popPC(n int) {
	for len(it.pc) > n {
		c := it.pc[len(it.pc)-1]
		it.pc = it.pc[:len(it.pc)-1]
		if it.pcHas[c]--; it.pcHas[c] == 0 {
			delete(it.pcHas, c)
		}
	}
}

func (it *Interp) implied(c *Expr) (val, known bool) {
	if c.op == OConst {
		return c.k != 0, true
	}
	if it.pcHas[c] > 0 {
		return true, true
	}
	if it.pcHas[it.x.Not(c)] > 0 {
		return false, true
	}
	return false, false
}

// slice returns the conjuncts of pc relevant to c
func (it *Interp) slice(c *Expr) []*Expr {
	nv := len(it.x.vars)
	in := make([]bool, nv+1)
	for _, v := range c.vs {
		in[v] = true
	}
	used := make([]bool, len(it.pc))
	res := []*Expr{c}
	for ch := true; ch; {
		ch = false
		for i, p := range it.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				res = append(res, p)
				for _, v := range p.vs {
					in[v] = true
				}
			}
		}
	}
	return res
}

// query decides pc && c
func (it *Interp) query(c *Expr) (SatRes, *Model) {
	if c == it.x.F {
		return UNSAT, nil
	}
	if v, ok := it.implied(c); ok && !v {
		return UNSAT, nil
	}
	if time.Now().After(it.deadline) {
		panic(pathEnd{"deadline"})
	}
	r, m := it.sol.Check(it.slice(c))
	if r != SAT {
		return r, nil
	}
	return SAT, it.mergeModel(m)
}

func (it *Interp) mergeModel(m map[uint64]uint64) *Model {
	n := len(it.x.vars)
	nm := &Model{vals: make([]uint64, n)}
	for i := range nm.vals {
		nm.vals[i] = it.x.varVal(it.model, uint64(i))
	}
	for k, v := range m {
		nm.vals[k] = v
	}
	return nm
}

func (it *Interp) evalB(c *Expr) bool { return it.x.Eval(c, it.model) != 0 }

func (it *Interp) replaying() bool { return it.pos < it.prefixLen }

func (it *Interp) nextDec(kinds string) dec {
	d := it.trace[it.pos]
	if strings.IndexByte(kinds, d.k) < 0 {
		panic(pathEnd{fmt.Sprintf("diverged: want %s have %c", kinds, d.k)})
	}
	it.pos++
	return d
}

func (it *Interp) record(d dec) {
	it.trace = append(it.trace, d)
	it.pos = len(it.trace)
}

func (it *Interp) abort(why string) {
	panic(abortSpec{why})
}

func (it *Interp) unknownAt(what string) {
	it.res.unknown = append(it.res.unknown, what)
}

// enqueue an alternative whose decision at this point is d
func (it *Interp) enqueue(d dec, m *Model) {
	tr := make([]dec, it.pos+1)
	copy(tr, it.trace[:it.pos])
	tr[it.pos] = d
	it.res.alts = append(it.res.alts, altPrefix{tr: tr, model: it.modelByName(m)})
	it.res.forks++
	if forkSites {
		if it.res.mergeFails == nil {
			it.res.mergeFails = map[string]int{}
		}
		it.res.mergeFails["FORK "+it.where()]++
	}
}

var forkSites = os.Getenv("SYMGO_FORKS") != ""

func (it *Interp) modelByName(m *Model) map[string]uint64 {
	r := make(map[string]uint64, len(it.x.vars))
	for i, v := range it.x.vars {
		r[v.key()] = it.x.varVal(m, uint64(i))
	}
	return r
}

func (v *VarInfo) key() string { return fmt.Sprintf("%s/%d/%d/%d", v.name, v.e.w, v.lo, v.hi) }

// feasibility of the two sides of c: returns (forced value, true) or (_, false)
// with models for both sides.
func (it *Interp) sides(c *Expr) (forced, isForced bool, mT, mF *Model) {
	if it.model != nil {
		b := it.evalB(c)
		o := c
		if b {
			o = it.x.Not(c)
		}
		r, m := it.query(o)
		if r == UNSAT {
			return b, true, nil, nil
		}
		if r == UNKNOWN {
			it.unknownAt("branch")
			return b, true, nil, nil
		}
		if b {
			return false, false, it.model, m
		}
		return false, false, m, it.model
	}
	r1, m1 := it.query(c)
	r2, m2 := it.query(it.x.Not(c))
	if r1 == UNSAT && r2 == UNSAT {
		panic(deadArm{})
	}
	if r1 != SAT && r2 != SAT {
		it.abort("unknown in lazy arm")
	}
	if r1 != SAT {
		if r1 == UNKNOWN {
			it.unknownAt("branch")
		}
		return false, true, nil, nil
	}
	if r2 != SAT {
		if r2 == UNKNOWN {
			it.unknownAt("branch")
		}
		return true, true, nil, nil
	}
	return false, false, m1, m2
}

// branch decides c without merging: forks the path when both sides are feasible.
func (it *Interp) branch(c *Expr) bool {
	if v, ok := it.implied(c); ok {
		return v
	}
	if it.replaying() {
		d := it.nextDec("TFtf")
		b := d.k == 'T' || d.k == 't'
		if d.k == 'T' {
			it.addPC(c)
		} else if d.k == 'F' {
			it.addPC(it.x.Not(c))
		}
		return b
	}
	fv, forced, mT, mF := it.sides(c)
	if forced {
		if fv {
			it.record(dec{k: 't'})
		} else {
			it.record(dec{k: 'f'})
		}
		return fv
	}
	if it.spec > 0 {
		it.abort("fork in merged region")
	}
	return it.fork(c, mT, mF)
}

func (it *Interp) fork(c *Expr, mT, mF *Model) bool {
	b := it.evalB(c)
	if b {
		it.enqueue(dec{k: 'F'}, mF)
		it.record(dec{k: 'T'})
		it.addPC(c)
	} else {
		it.enqueue(dec{k: 'T'}, mT)
		it.record(dec{k: 'F'})
		it.addPC(it.x.Not(c))
	}
	return b
}

// choice forks on a concrete choice in [0,n)
func (it *Interp) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if it.replaying() {
		return int(it.nextDec("C").v)
	}
	if it.spec > 0 {
		it.abort("choice in merged region")
	}
	for i := n - 1; i >= 1; i-- {
		it.enqueue(dec{k: 'C', v: uint64(i)}, it.model)
	}
	it.record(dec{k: 'C', v: 0})
	return 0
}

// concretize forces v to a concrete value, forking over its feasible values.
func (it *Interp) concretize(v Val, w uint8, signed bool, why string) uint64 {
	e := v.sym()
	if e == nil {
		return v.u
	}
	for i := 0; ; i++ {
		if i > 4096 {
			panic(pathEnd{"concretize: too many values"})
		}
		if it.replaying() {
			d := it.nextDec("XYx")
			k := it.x.Const(e.w, d.v)
			if d.k == 'X' {
				it.addPC(it.x.Eq(e, k))
				return d.v
			}
			if d.k == 'x' {
				return d.v
			}
			it.addPC(it.x.Not(it.x.Eq(e, k)))
			continue
		}
		if it.model == nil {
			if r, m := it.query(it.x.T); r == SAT {
				it.model = m
			} else {
				it.abort("concretize without model")
			}
		}
		val := it.x.Eval(e, it.model)
		k := it.x.Const(e.w, val)
		ne := it.x.Not(it.x.Eq(e, k))
		r, m := it.query(ne)
		if r != SAT {
			if r == UNKNOWN {
				it.unknownAt("concretize " + why)
			}
			it.record(dec{k: 'x', v: val})
			return val
		}
		if it.spec > 0 {
			it.abort("concretize " + why)
		}
		it.enqueue(dec{k: 'Y', v: val}, m)
		it.record(dec{k: 'X', v: val})
		it.addPC(it.x.Eq(e, k))
		return val
	}
}

// check demands ok; reports a violation when pc && !ok is satisfiable.
func (it *Interp) check(ok *Expr, id, msg string, implicit bool) {
	if ok == it.x.T {
		it.count(id, implicit)
		return
	}
	if implicit && it.failMode > 0 {
		if !it.branch(ok) {
			panic(targetPanic{msg: msg, v: it.rtErr(msg)})
		}
		return
	}
	if v, k := it.implied(ok); k && v {
		it.count(id, implicit)
		return
	}
	it.nchecks++
	if it.replaying() {
		if d := it.trace[it.pos]; d.k == 'V' && d.v == it.nchecks {
			it.pos++
			it.addPC(ok)
		}
		return
	}
	nok := it.x.Not(ok)
	// cheap concolic test first
	var r SatRes
	var m *Model
	if it.model != nil && !it.evalB(ok) {
		r, m = SAT, it.model
	} else {
		r, m = it.query(nok)
	}
	switch r {
	case UNSAT:
		it.count(id, implicit)
		return
	case UNKNOWN:
		it.unknownAt("check " + id)
		return
	}
	it.report(id, msg, m)
	if it.spec > 0 {
		it.abort("violation in merged region")
	}
	r2, m2 := it.query(ok)
	if r2 != SAT {
		panic(pathEnd{"violation"})
	}
	it.record(dec{k: 'V', v: it.nchecks})
	it.addPC(ok)
	if !it.evalB(ok) {
		it.model = m2
	}
}

func (it *Interp) count(id string, implicit bool) {
	if implicit {
		it.res.nimplicit++
	} else {
		it.res.asserts[id]++
		it.res.nassert++
	}
}

func (it *Interp) report(id, msg string, m *Model) {
	v := Violation{Harness: it.harness, ID: id, Msg: msg, Where: it.where()}
	for _, r := range it.inputs {
		var u uint64
		if e := r.v.sym(); e != nil {
			u = it.x.Eval(e, m)
			if r.w != vBool && r.w < 64 {
				u = uint64(sext(u, r.w))
			}
		} else {
			u = r.v.u
			if r.w != vBool && r.w < 64 {
				u = uint64(sext(u, r.w))
			}
		}
		v.Inputs = append(v.Inputs, InputVal{r.name, int64(u)})
	}
	it.res.viol = append(it.res.viol, v)
}

func (it *Interp) where() string {
	var sb []string
	for f := it.cur; f != nil && len(sb) < 6; f = f.caller {
		s := f.fi.name
		if f.curIns != nil {
			if p := f.curIns.in.Pos(); p.IsValid() {
				ps := it.prog.Fset.Position(p)
				s += fmt.Sprintf(":%d", ps.Line)
			}
		}
		sb = append(sb, s)
	}
	return strings.Join(sb, " < ")
}

// panicSite names the function of a runtime panic (for violation ids)
func (it *Interp) panicSite() string {
	for f := it.cur; f != nil; f = f.caller {
		if f.fi.fn.Pkg == it.main {
			return f.fi.name
		}
	}
	return "?"
}

func (it *Interp) rtErr(msg string) Val {
	return Val{r: &Iface{t: types.Typ[types.String], v: cstr("runtime error: " + msg)}}
}

func (it *Interp) rtCheck(ok *Expr, msg string) {
	if ok == it.x.T {
		it.res.nimplicit++
		return
	}
	if ok == it.x.F {
		panic(targetPanic{msg: msg, v: it.rtErr(msg)})
	}
	if it.failMode > 0 {
		it.check(ok, "", msg, true)
		return
	}
	it.check(ok, "panic:"+it.panicSite()+":"+msg, "runtime error: "+msg, true)
}

// ---------- globals and package initialisation ----------

func (it *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := it.glob[g]; ok {
		return o
	}
	if g.Pkg != it.main {
		it.ensureInit(g.Pkg)
		if o, ok := it.glob[g]; ok {
			return o
		}
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := it.newObj(it.slots(t), g.Name())
	o.id = 0
	it.glob[g] = o
	return o
}

func (it *Interp) ensureInit(p *ssa.Package) {
	if it.inits[p] != 0 {
		return
	}
	it.inits[p] = 1
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	sj, ss, sl, sm, ssp := it.journaling, it.steps, it.lazy, it.failMode, it.spec
	it.journaling = false
	it.spec, it.lazy, it.failMode = 0, 0, 0
	cur := it.cur
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupportedErr, targetPanic:
					if it.L.verbose {
						fmt.Fprintf(os.Stderr, "init %s: %v at %s\n", p.Pkg.Path(), e, it.where())
					}
				default:
					panic(r)
				}
			}
		}()
		it.callFn(f, nil, nil)
	}()
	it.cur = cur
	it.journaling, it.steps, it.lazy, it.failMode, it.spec = sj, ss, sl, sm, ssp
	it.inits[p] = 2
}

// ---------- calls ----------

func shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/vigilantdoomer/vigilantbsp.", "")
	return s
}

func (it *Interp) callFn(fn *ssa.Function, args []Val, bind []Val) Val {
	fi := it.info(fn)
	if fi.nat != nil {
		return fi.nat(it, it.cur, args, nil)
	}
	if fi.ext {
		panic(unsupported("external function %s", fn))
	}
	// package initialisers of imported packages run lazily
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && it.inits[fn.Pkg] == 0 {
		return Val{}
	}
	it.depth++
	if it.depth > 2000 {
		panic(pathEnd{"call depth"})
	}
	fr := &Frame{fi: fi, regs: make([]Val, fi.nreg), prev: -1, spec: it.spec, caller: it.cur}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], bind)
	saved := it.cur
	it.cur = fr
	if fn.Pkg == it.main {
		it.encoded[fn] = true
	}
	if fi.hasDefer {
		it.execDefer(fr)
	} else {
		it.exec(fr, -1)
	}
	it.cur = saved
	it.depth--
	return fr.ret
}

func (it *Interp) execDefer(fr *Frame) {
	d := it.depth
	rec := fr.fi.fn.Recover != nil
	_ = rec
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			if it.spec > fr.spec {
				panic(abortSpec{"panic through defer"})
			}
			it.depth = d
			it.cur = fr
			fr.panicked = &tp
			it.runDefers(fr)
			if fr.panicked != nil {
				panic(*fr.panicked)
			}
			fr.done = false
			if fr.fi.fn.Recover != nil {
				fr.prev, fr.block = -1, fr.fi.fn.Recover.Index
				it.exec(fr, -1)
			}
		}()
		it.exec(fr, -1)
	}()
}

func (it *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		if it.spec > fr.spec {
			it.abort("defers in merged region")
		}
		fr.defers = fr.defers[:len(fr.defers)-1]
		it.callVal(fr, d.f, d.cc, d.args, fr)
	}
}

// callVal calls a function value / builtin / invoke prepared by prepCall
func (it *Interp) callVal(fr *Frame, f Val, cc *ssa.CallCommon, args []Val, deferOf *Frame) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return it.builtin(fr, b, args, cc)
	}
	fv, ok := f.r.(*Func)
	if !ok || fv == nil {
		if f.r == nil {
			panic(targetPanic{msg: "nil function call", v: it.rtErr("nil function call")})
		}
		panic(unsupported("call of %T", f.r))
	}
	if fv.nat != nil {
		r := fv.nat(it, args)
		if len(r) == 1 {
			return r[0]
		}
		return Val{r: Tuple(r)}
	}
	if deferOf != nil {
		fi := it.info(fv.fn)
		if fi.nat == nil && !fi.ext {
			nf := &Frame{fi: fi, regs: make([]Val, fi.nreg), prev: -1, spec: it.spec, caller: it.cur, deferOf: deferOf}
			copy(nf.regs, args)
			copy(nf.regs[len(fv.fn.Params):], fv.bind)
			saved := it.cur
			it.cur = nf
			it.depth++
			if fi.hasDefer {
				it.execDefer(nf)
			} else {
				it.exec(nf, -1)
			}
			it.depth--
			it.cur = saved
			return nf.ret
		}
	}
	fi := it.info(fv.fn)
	if fi.nat != nil {
		return fi.nat(it, fr, args, cc)
	}
	return it.callFn(fv.fn, args, fv.bind)
}

func (it *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	if f, ok := it.meth[k]; ok {
		return f
	}
	f := it.prog.LookupMethod(t, m.Pkg(), m.Name())
	it.meth[k] = f
	return f
}

func (it *Interp) prepCall(fr *Frame, ii *insInfo, cc *ssa.CallCommon) (Val, []Val) {
	if cc.IsInvoke() {
		recv := it.get(fr, ii.ops[0])
		args := make([]Val, len(cc.Args)+1)
		for i := 1; i < len(args); i++ {
			args[i] = it.get(fr, ii.ops[i])
		}
		ifc, _ := recv.r.(*Iface)
		if ifc == nil {
			if recv.r != nil {
				panic(unsupported("invoke on %T", recv.r))
			}
			panic(targetPanic{msg: "nil interface method call", v: it.rtErr("invalid memory address or nil pointer dereference")})
		}
		args[0] = ifc.v
		if nv, ok := ifc.v.r.(*Native); ok {
			if h := nativeMethod(it, nv, cc.Method.Name()); h != nil {
				return Val{r: &Func{nat: h}}, args
			}
		}
		f := it.findMethod(ifc.t, cc.Method)
		if f == nil {
			panic(unsupported("method %s of %s", cc.Method.Name(), ifc.t))
		}
		return Val{r: &Func{fn: f}}, args
	}
	args := make([]Val, len(cc.Args))
	for i := range args {
		args[i] = it.get(fr, ii.ops[i+1])
	}
	var f Val
	if ii.ops[0].k != 3 {
		f = it.get(fr, ii.ops[0])
	}
	return f, args
}

func (it *Interp) get(fr *Frame, o opnd) Val {
	switch o.k {
	case 0:
		return fr.regs[o.r]
	case 1:
		return o.v
	case 2:
		return Val{r: it.globalObj(o.g)}
	}
	panic("bad operand")
}

// ---------- main loop ----------

func (it *Interp) doPhis(fr *Frame) {
	bl := &fr.fi.blks[fr.block]
	if bl.nphi == 0 {
		return
	}
	preds := fr.fi.fn.Blocks[fr.block].Preds
	pi := -1
	for i, p := range preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if bl.nphi == 1 {
		ii := &bl.ins[0]
		fr.regs[ii.dst] = it.get(fr, ii.ops[pi])
		return
	}
	tmp := make([]Val, bl.nphi)
	for i := 0; i < bl.nphi; i++ {
		tmp[i] = it.get(fr, bl.ins[i].ops[pi])
	}
	for i := 0; i < bl.nphi; i++ {
		fr.regs[bl.ins[i].dst] = tmp[i]
	}
}

func (it *Interp) exec(fr *Frame, stop int) {
	for !fr.done {
		if !fr.phisDone {
			it.doPhis(fr)
		}
		fr.phisDone = true
		if fr.block == stop {
			return
		}
		fr.phisDone = false
		bl := &fr.fi.blks[fr.block]
		it.steps += int64(len(bl.ins))
		if it.steps > it.maxSteps {
			panic(pathEnd{"instruction limit"})
		}
		if it.steps&0xffff < int64(len(bl.ins)) && time.Now().After(it.deadline) {
			panic(pathEnd{"deadline"})
		}
		it.execBlock(fr, bl)
	}
}

func (it *Interp) execBlock(fr *Frame, bl *blkInfo) {
	for i := bl.nphi; i < len(bl.ins); i++ {
		ii := &bl.ins[i]
		fr.curIns = ii
		switch in := ii.in.(type) {
		case *ssa.Jump:
			fr.prev = fr.block
			fr.block = in.Block().Succs[0].Index
			return
		case *ssa.If:
			it.doIf(fr, bl, ii, in)
			return
		case *ssa.Return:
			switch len(ii.ops) {
			case 0:
			case 1:
				fr.ret = it.get(fr, ii.ops[0])
			default:
				t := make(Tuple, len(ii.ops))
				for j := range t {
					t[j] = it.get(fr, ii.ops[j])
				}
				fr.ret = Val{r: t}
			}
			fr.done = true
			return
		case *ssa.Panic:
			v := it.get(fr, ii.ops[0])
			panic(targetPanic{v: v, msg: it.panicMsg(v)})
		case *ssa.BinOp:
			fr.regs[ii.dst] = it.binop(in, ii, it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]))
		case *ssa.UnOp:
			fr.regs[ii.dst] = it.unop(fr, in, ii)
		case *ssa.Store:
			it.store(it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]), ii.t, ii.aux)
		case *ssa.FieldAddr:
			fr.regs[ii.dst] = it.ptrAdd(it.get(fr, ii.ops[0]), ii.aux)
		case *ssa.IndexAddr:
			fr.regs[ii.dst] = it.indexAddr(in, ii, it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]))
		case *ssa.Call:
			f, args := it.prepCall(fr, ii, &in.Call)
			fr.regs[ii.dst] = it.callVal(fr, f, &in.Call, args, nil)
		case *ssa.Extract:
			t := it.get(fr, ii.ops[0])
			if t.r == nil {
				fr.regs[ii.dst] = Val{}
			} else {
				fr.regs[ii.dst] = t.r.(Tuple)[in.Index]
			}
		case *ssa.Convert:
			fr.regs[ii.dst] = it.convert(in.X.Type(), in.Type(), it.get(fr, ii.ops[0]))
		case *ssa.ChangeType:
			fr.regs[ii.dst] = it.get(fr, ii.ops[0])
		case *ssa.ChangeInterface:
			fr.regs[ii.dst] = it.get(fr, ii.ops[0])
		case *ssa.Alloc:
			o := it.newObj(ii.aux, in.Comment)
			fr.regs[ii.dst] = Val{r: o}
		case *ssa.Field:
			v := it.get(fr, ii.ops[0])
			st := it.flat(v, in.X.Type())
			fr.regs[ii.dst] = it.unflat(st[ii.aux:ii.aux+ii.aux2], ii.t)
		case *ssa.MakeInterface:
			fr.regs[ii.dst] = Val{r: &Iface{t: in.X.Type(), v: it.get(fr, ii.ops[0])}}
		case *ssa.TypeAssert:
			fr.regs[ii.dst] = it.typeAssert(in, it.get(fr, ii.ops[0]))
		case *ssa.Slice:
			fr.regs[ii.dst] = it.sliceOp(fr, in, ii)
		case *ssa.MakeSlice:
			n := it.get(fr, ii.ops[0])
			c := it.get(fr, ii.ops[1])
			elem := in.Type().Underlying().(*types.Slice).Elem()
			nw, _ := widthOf(in.Len.Type())
			cw, _ := widthOf(in.Cap.Type())
			if e := n.sym(); e != nil {
				it.rtCheck(it.x.Not(it.x.Slt(e, it.x.Const(nw, 0))), "makeslice: len out of range")
			}
			nn := int(sext(it.concretize(n, nw, true, "make len"), nw))
			cv := int(sext(it.concretize(c, cw, true, "make cap"), cw))
			if nn < 0 || cv < nn {
				panic(targetPanic{msg: "makeslice: len out of range", v: it.rtErr("makeslice: len out of range")})
			}
			if cv > 1<<24 {
				panic(pathEnd{"huge allocation"})
			}
			fr.regs[ii.dst] = it.newSlice(elem, nn, cv)
		case *ssa.Index:
			fr.regs[ii.dst] = it.indexOp(in, ii, it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]))
		case *ssa.Lookup:
			fr.regs[ii.dst] = it.lookup(in, it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]))
		case *ssa.MapUpdate:
			it.mapUpdate(it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]), it.get(fr, ii.ops[2]))
		case *ssa.MakeMap:
			mt := in.Type().Underlying().(*types.Map)
			it.nobj++
			fr.regs[ii.dst] = Val{r: &MapObj{id: it.nobj, kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}}
		case *ssa.MakeClosure:
			fv := &Func{fn: in.Fn.(*ssa.Function)}
			for j := 1; j < len(ii.ops); j++ {
				fv.bind = append(fv.bind, it.get(fr, ii.ops[j]))
			}
			fr.regs[ii.dst] = Val{r: fv}
		case *ssa.Range:
			fr.regs[ii.dst] = it.rangeOp(in, it.get(fr, ii.ops[0]))
		case *ssa.Next:
			fr.regs[ii.dst] = it.nextOp(in, it.get(fr, ii.ops[0]))
		case *ssa.Defer:
			if it.spec > fr.spec {
				it.abort("defer")
			}
			f, args := it.prepCall(fr, ii, &in.Call)
			fr.defers = append(fr.defers, deferred{f, &in.Call, args})
		case *ssa.RunDefers:
			it.runDefers(fr)
		case *ssa.Go:
			f, args := it.prepCall(fr, ii, &in.Call)
			it.goStmt(fr, f, &in.Call, args)
		case *ssa.MakeChan:
			sz := it.concretize(it.get(fr, ii.ops[0]), 64, true, "chan size")
			it.nobj++
			fr.regs[ii.dst] = Val{r: &ChanObj{id: it.nobj, cap: int(sz)}}
		case *ssa.Send:
			it.chanSend(it.get(fr, ii.ops[0]), it.get(fr, ii.ops[1]))
		case *ssa.Select:
			fr.regs[ii.dst] = it.selectOp(fr, in, ii)
		case *ssa.SliceToArrayPointer:
			s, _ := it.get(fr, ii.ops[0]).r.(*SliceV)
			if s == nil {
				fr.regs[ii.dst] = Val{}
			} else {
				fr.regs[ii.dst] = Val{r: s.obj, u: uint64(s.off)}
			}
		case *ssa.DebugRef:
		default:
			panic(unsupported("instruction %T", in))
		}
	}
}

func (it *Interp) panicMsg(v Val) string {
	if i, ok := v.r.(*Iface); ok {
		switch s := i.v.r.(type) {
		case string:
			return s
		}
		if i.v.r == nil {
			return "panic value of type " + i.t.String()
		}
		return "panic " + i.t.String()
	}
	return "panic"
}

// ---------- conditional branches: fork or merge ----------

func (it *Interp) doIf(fr *Frame, bl *blkInfo, ii *insInfo, in *ssa.If) {
	cv := it.get(fr, ii.ops[0])
	succs := in.Block().Succs
	take := func(b bool) {
		fr.prev = fr.block
		if b {
			fr.block = succs[0].Index
		} else {
			fr.block = succs[1].Index
		}
	}
	c := cv.sym()
	if c == nil {
		take(cv.u != 0)
		return
	}
	if v, ok := it.implied(c); ok {
		take(v)
		return
	}
	J := bl.ipdom
	tN, fN := fr.fi.blks[succs[0].Index].noexit, fr.fi.blks[succs[1].Index].noexit
	canMerge := J != -3 && !tN && !fN && !it.opts.noMerge && !(J == -1 && len(fr.defers) > 0)
	site := fr.block
	if it.replaying() {
		d := it.nextDec("TFtfM")
		switch d.k {
		case 'M':
			it.mergeRegion(fr, c, succs[0].Index, succs[1].Index, J, nil, nil)
			return
		case 'T':
			it.addPC(c)
		case 'F':
			it.addPC(it.x.Not(c))
		}
		take(d.k == 'T' || d.k == 't')
		return
	}
	// small pure regions are merged without asking for feasibility
	if canMerge && fr.fi.mergeBad[site] == 0 && it.simpleRegion(fr.fi, succs[0].Index, succs[1].Index, J) {
		if it.attempt(fr, c, succs[0].Index, succs[1].Index, J, nil, nil, true) {
			return
		}
	}
	fv, forced, mT, mF := it.sides(c)
	if forced {
		if fv {
			it.record(dec{k: 't'})
		} else {
			it.record(dec{k: 'f'})
		}
		take(fv)
		return
	}
	if canMerge && fr.fi.mergeBad[site] < 3 {
		if it.attempt(fr, c, succs[0].Index, succs[1].Index, J, mT, mF, false) {
			return
		}
	} else if it.spec > 0 {
		it.abort("unmergeable branch at " + it.where())
	}
	take(it.fork(c, mT, mF))
}

// simpleRegion: a branch-free diamond of simple blocks
func (it *Interp) simpleRegion(fi *FnInfo, a, b, j int) bool {
	if j < 0 {
		return false
	}
	ok := func(s int) bool {
		for n := 0; s != j; n++ {
			bl := &fi.blks[s]
			if n > 2 || !bl.simple || len(bl.ins) > 24 {
				return false
			}
			jm, isJ := bl.ins[len(bl.ins)-1].in.(*ssa.Jump)
			if !isJ {
				return false
			}
			s = jm.Block().Succs[0].Index
		}
		return true
	}
	return ok(a) && ok(b)
}

type armState struct {
	regs   []Val
	done   bool
	ret    Val
	keys   []wkey
	vals   map[wkey]Val
	dead   bool
	prev   int
	defers int
}
type wkey struct {
	o *Obj
	i int
}

// attempt tries to execute both sides and merge; on failure at the outermost
// level it restores the state and returns false; at inner levels it lets the
// abort propagate.
func (it *Interp) attempt(fr *Frame, c *Expr, bT, bF, J int, mT, mF *Model, lazy bool) (ok bool) {
	mark := len(it.trace)
	it.record(dec{k: 'M'})
	site := fr.block
	if it.spec > 0 {
		it.mergeRegion(fr, c, bT, bF, J, mT, mF)
		it.res.merges++
		fr.fi.mergeOK[site]++
		return true
	}
	jm, pcn, model, depth := len(it.journal), len(it.pc), it.model, it.depth
	nch, fail, steps, inp := it.nchecks, it.failMode, it.maxSteps, len(it.inputs)
	regs := append([]Val(nil), fr.regs...)
	prev, block, ret := fr.prev, fr.block, fr.ret
	nviol := len(it.res.viol)
	unk := len(it.res.unknown)
	budget := it.steps + 3000000
	if budget < it.maxSteps {
		it.maxSteps = budget
	}
	defer func() {
		it.maxSteps = steps
		r := recover()
		if r == nil {
			return
		}
		why := ""
		switch e := r.(type) {
		case abortSpec:
			why = e.why
		case targetPanic:
			why = "panic " + e.msg
		case targetExit:
			why = "exit"
		case pathEnd:
			if e.why == "instruction limit" {
				why = "budget"
				break
			}
			panic(r)
		default:
			panic(r)
		}
		it.undoTo(jm)
		it.popPC(pcn)
		it.model, it.depth, it.nchecks, it.failMode = model, depth, nch, fail
		it.spec, it.lazy = 0, 0
		it.inputs = it.inputs[:inp]
		it.trace = it.trace[:mark]
		it.pos = mark
		it.cur = fr
		copy(fr.regs, regs)
		fr.prev, fr.block, fr.ret, fr.done, fr.phisDone = prev, block, ret, false, false
		it.res.viol = it.res.viol[:nviol]
		it.res.unknown = it.res.unknown[:unk]
		if !lazy {
			fr.fi.mergeBad[site]++
			if fr.fi.mergeOK[site] > 10*fr.fi.mergeBad[site] {
				fr.fi.mergeBad[site] = 0
			}
		}
		it.res.mergeFails[fr.fi.name+fmt.Sprintf(":%d ", it.lineOf(fr))+why]++
		ok = false
	}()
	it.mergeRegion(fr, c, bT, bF, J, mT, mF)
	it.res.merges++
	fr.fi.mergeOK[site]++
	return true
}

func (it *Interp) lineOf(fr *Frame) int {
	if fr.curIns == nil {
		return 0
	}
	bl := fr.curIns.in.Block()
	for i := len(bl.Instrs) - 1; i >= 0; i-- {
		if p := bl.Instrs[i].Pos(); p != token.NoPos {
			return it.prog.Fset.Position(p).Line
		}
	}
	return 0
}

func (it *Interp) runArm(fr *Frame, cond *Expr, from, blk, J int, m *Model, base []Val) (st armState) {
	mark := len(it.journal)
	pcn := len(it.pc)
	saved := it.model
	nd := len(fr.defers)
	it.model = m
	it.addPC(cond)
	it.spec++
	depth, lazy := it.depth, it.lazy
	fr.prev, fr.block, fr.phisDone = from, blk, false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(deadArm); ok {
					st.dead = true
					it.depth, it.cur, it.lazy = depth, fr, lazy
					return
				}
				panic(r)
			}
		}()
		it.exec(fr, J)
	}()
	it.spec--
	it.popPC(pcn)
	it.model = saved
	if len(fr.defers) != nd {
		it.abort("defers changed")
	}
	st.regs = append([]Val(nil), fr.regs...)
	st.done, st.ret, st.prev = fr.done, fr.ret, fr.prev
	st.vals = map[wkey]Val{}
	for j := mark; j < len(it.journal); j++ {
		e := &it.journal[j]
		if e.undo != nil {
			it.abort("unjournalled effect")
		}
		k := wkey{e.o, e.i}
		if _, ok := st.vals[k]; !ok {
			st.keys = append(st.keys, k)
			st.vals[k] = e.o.get(e.i)
		}
	}
	it.undoTo(mark)
	copy(fr.regs, base)
	fr.done = false
	return st
}

// joinVal merges the values of two arms; with splitptr, different objects
// make the path fork instead
func (it *Interp) joinVal(c *Expr, a, b Val) (Val, bool) {
	if it.opts.splitPtr {
		p, ok1 := a.r.(*Obj)
		q, ok2 := b.r.(*Obj)
		if ok1 && ok2 && (p != q || a.u != b.u) || ok1 && b.r == nil || ok2 && a.r == nil {
			return Val{}, false
		}
	}
	return it.mergeVal(c, a, b)
}

func (it *Interp) mergeRegion(fr *Frame, c *Expr, bT, bF, J int, mT, mF *Model) {
	from := fr.block
	base := append([]Val(nil), fr.regs...)
	nobj := it.nobj
	ret0 := fr.ret
	a := it.runArm(fr, c, from, bT, J, mT, base)
	nobj2 := it.nobj
	fr.ret = ret0
	b := it.runArm(fr, it.x.Not(c), from, bF, J, mF, base)
	fr.ret = ret0
	if a.dead && b.dead {
		panic(deadArm{})
	}
	apply := func(s *armState) {
		copy(fr.regs, s.regs)
		for _, k := range s.keys {
			it.set(k.o, k.i, s.vals[k])
		}
		fr.done, fr.ret = s.done, s.ret
	}
	if !a.dead && !b.dead {
		if a.done != b.done {
			it.abort("arm exit mismatch")
		}
		if J >= 0 {
			live := fr.fi.blks[J].live
			for i := range fr.regs {
				if live[i/64]>>(i%64)&1 == 0 {
					fr.regs[i] = Val{}
					continue
				}
				v, ok := it.joinVal(c, a.regs[i], b.regs[i])
				if !ok {
					it.abort(fmt.Sprintf("register merge %T %T", a.regs[i].r, b.regs[i].r))
				}
				fr.regs[i] = v
			}
		} else {
			v, ok := it.joinVal(c, a.ret, b.ret)
			if !ok {
				it.abort("result merge")
			}
			fr.ret = v
		}
		for _, k := range a.keys {
			va := a.vals[k]
			if k.o.id > nobj { // created in this arm
				it.set(k.o, k.i, va)
				continue
			}
			vb, ok := b.vals[k]
			if !ok {
				vb = k.o.get(k.i)
			}
			v, ok := it.joinVal(c, va, vb)
			if !ok {
				it.abort("heap merge " + k.o.label)
			}
			it.set(k.o, k.i, v)
		}
		for _, k := range b.keys {
			if k.o.id > nobj2 {
				it.set(k.o, k.i, b.vals[k])
				continue
			}
			if _, ok := a.vals[k]; ok {
				continue
			}
			v, ok := it.joinVal(c, k.o.get(k.i), b.vals[k])
			if !ok {
				it.abort("heap merge " + k.o.label)
			}
			it.set(k.o, k.i, v)
		}
		fr.done = a.done
	} else if a.dead {
		apply(&b)
	} else {
		apply(&a)
	}
	if J >= 0 {
		fr.block = J
		fr.phisDone = true
	} else {
		fr.done = true
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
