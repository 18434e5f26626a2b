package main

import (
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 global, 3 absent
	r int
	v Val
	g *ssa.Global
}

type insInfo struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	// cached facts
	w    uint8
	sgn  bool
	aux  int
	aux2 int
	t    types.Type
}

type blkInfo struct {
	ins    []insInfo
	nphi   int
	ipdom  int // block index, -1 exit, -3 none
	noexit bool
	live   []uint64 // registers live just after the phis
	simple bool
}

type FnInfo struct {
	fn       *ssa.Function
	name     string
	nreg     int
	blks     []blkInfo
	hasDefer bool
	nat      intercept
	ext      bool
	calls    int
	mergeOK  map[int]int
	mergeBad map[int]int
}

type intercept func(it *Interp, fr *Frame, args []Val, cc *ssa.CallCommon) Val

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{} // nil or zero
	}
	w, _ := widthOf(t)
	switch {
	case w == vBool:
		return cbool(constant.BoolVal(c.Value))
	case w == wF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Val{u: math.Float64bits(f), w: wF64}
	case w != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return ci(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return ci(w, u)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return cstr(constant.StringVal(c.Value))
	}
	panic(unsupported("constant %s", c))
}

func (it *Interp) info(fn *ssa.Function) *FnInfo {
	if fi, ok := it.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, name: shortName(fn), mergeOK: map[int]int{}, mergeBad: map[int]int{}}
	it.fns[fn] = fi
	if nat := findIntercept(it, fn); nat != nil {
		fi.nat = nat
		return fi
	}
	if fn.Blocks == nil {
		fi.ext = true
		return fi
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) {
		regs[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch c := v.(type) {
		case nil:
			return opnd{k: 3}
		case *ssa.Const:
			return opnd{k: 1, v: constVal(c)}
		case *ssa.Global:
			return opnd{k: 2, g: c}
		case *ssa.Function:
			return opnd{k: 1, v: Val{r: &Func{fn: c}}}
		case *ssa.Builtin:
			return opnd{k: 3}
		}
		r, ok := regs[v]
		if !ok {
			panic(unsupported("operand %T", v))
		}
		return opnd{k: 0, r: r}
	}
	fi.blks = make([]blkInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bl := &fi.blks[bi]
		bl.ins = make([]insInfo, len(b.Instrs))
		for i, in := range b.Instrs {
			ii := &bl.ins[i]
			ii.in = in
			ii.dst = -1
			if v, ok := in.(ssa.Value); ok {
				ii.dst = regs[v]
			}
			var rands [8]*ssa.Value
			for _, p := range in.Operands(rands[:0]) {
				if p == nil || *p == nil {
					ii.ops = append(ii.ops, opnd{k: 3})
					continue
				}
				ii.ops = append(ii.ops, mkop(*p))
			}
			switch in := in.(type) {
			case *ssa.Phi:
				bl.nphi = i + 1
			case *ssa.BinOp:
				ii.w, ii.sgn = widthOf(in.X.Type())
			case *ssa.UnOp:
				ii.w, ii.sgn = widthOf(in.X.Type())
				ii.t = in.Type()
				ii.aux = it.slots(in.Type())
			case *ssa.FieldAddr:
				st := in.X.Type().Underlying().(*types.Pointer).Elem()
				ii.aux, _ = it.fieldOff(st, in.Field)
			case *ssa.Field:
				ii.aux, ii.aux2 = it.fieldOff(in.X.Type(), in.Field)
				ii.t = in.Type()
			case *ssa.IndexAddr:
				if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
					at := pt.Elem().Underlying().(*types.Array)
					ii.aux = it.slots(at.Elem())
					ii.aux2 = int(at.Len())
				} else {
					ii.aux2 = -1
				}
				ii.w, ii.sgn = widthOf(in.Index.Type())
			case *ssa.Store:
				ii.t = in.Val.Type()
				ii.aux = it.slots(ii.t)
			case *ssa.Alloc:
				ii.t = in.Type().Underlying().(*types.Pointer).Elem()
				ii.aux = it.slots(ii.t)
			}
		}
	}
	fi.postdom()
	fi.liveness(regs)
	fi.simples()
	return fi
}

// simples marks blocks containing only instructions that need no query when
// executed on concrete addresses.
func (fi *FnInfo) simples() {
	for i := range fi.blks {
		b := &fi.blks[i]
		b.simple = true
		for j := range b.ins {
			switch in := b.ins[j].in.(type) {
			case *ssa.Phi, *ssa.Jump, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.If, *ssa.Store, *ssa.UnOp, *ssa.DebugRef, *ssa.Return:
			case *ssa.BinOp:
				switch in.Op.String() {
				case "/", "%":
					if _, ok := in.Y.(*ssa.Const); !ok {
						b.simple = false
					}
				}
			case *ssa.IndexAddr:
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || (bi.Name() != "len" && bi.Name() != "cap") {
					b.simple = false
				}
			default:
				b.simple = false
			}
		}
	}
}

func (fi *FnInfo) postdom() {
	n := len(fi.blks)
	exit := n
	succs := make([][]int, n)
	canExit := make([]bool, n+1)
	canExit[exit] = true
	for i, b := range fi.fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				succs[i] = []int{exit}
				continue
			}
		}
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			if !canExit[i] {
				for _, s := range succs[i] {
					if canExit[s] {
						canExit[i] = true
						ch = true
					}
				}
			}
		}
	}
	// iterative postdominator sets as bitsets
	nw := (n + 64) / 64
	full := make([]uint64, nw)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i <= n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, nw)
	pd[exit][exit/64] |= 1 << (exit % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !canExit[i] {
				continue
			}
			nv := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				if !canExit[s] {
					continue
				}
				for k := range nv {
					nv[k] &= pd[s][k]
				}
			}
			nv[i/64] |= 1 << (i % 64)
			for k := range nv {
				if nv[k] != pd[i][k] {
					pd[i] = nv
					ch = true
					break
				}
			}
		}
	}
	cnt := func(b []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if b[i/64]>>(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		fi.blks[i].noexit = !canExit[i]
		fi.blks[i].ipdom = -3
		if !canExit[i] {
			continue
		}
		// the immediate postdominator is the strict postdominator with the
		// largest postdominator set
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 != 0 {
				if c := cnt(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best == exit {
			fi.blks[i].ipdom = -1
		} else if best >= 0 {
			fi.blks[i].ipdom = best
		}
	}
}

func (fi *FnInfo) liveness(regs map[ssa.Value]int) {
	n := len(fi.blks)
	nw := (fi.nreg + 63) / 64
	liveIn := make([][]uint64, n) // before phis (phi dests not live), without phi operand uses
	for i := range liveIn {
		liveIn[i] = make([]uint64, nw)
		fi.blks[i].live = make([]uint64, nw)
	}
	set := func(b []uint64, r int) { b[r/64] |= 1 << (r % 64) }
	clr := func(b []uint64, r int) { b[r/64] &^= 1 << (r % 64) }
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			out := make([]uint64, nw)
			for _, s := range b.Succs {
				for k := range out {
					out[k] |= liveIn[s.Index][k]
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					sb := &fi.blks[s.Index]
					for j := 0; j < sb.nphi; j++ {
						o := sb.ins[j].ops[pi]
						if o.k == 0 {
							set(out, o.r)
						}
					}
				}
			}
			bl := &fi.blks[i]
			for j := len(bl.ins) - 1; j >= bl.nphi; j-- {
				if bl.ins[j].dst >= 0 {
					clr(out, bl.ins[j].dst)
				}
				for _, o := range bl.ins[j].ops {
					if o.k == 0 {
						set(out, o.r)
					}
				}
			}
			copy(bl.live, out)
			for j := 0; j < bl.nphi; j++ {
				clr(out, bl.ins[j].dst)
			}
			for k := range out {
				if out[k] != liveIn[i][k] {
					liveIn[i] = out
					ch = true
					break
				}
			}
		}
	}
}
