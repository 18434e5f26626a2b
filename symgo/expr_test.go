package main

import (
	"math"
	"math/rand"
	"testing"
)

// Random terms: the simplifying constructors must agree with direct evaluation.
func TestSimplify(t *testing.T) {
	for seed := int64(0); seed < 20000; seed++ {
		r := rand.New(rand.NewSource(seed))
		x := NewCtx()
		type pr struct {
			e *Expr
			v []uint64 // values under the sample models
		}
		const nm = 6
		models := make([]*Model, nm)
		for i := range models {
			models[i] = &Model{}
		}
		var ints, bools, flts []pr
		for i := 0; i < 4; i++ {
			lo := int64(r.Intn(60) - 40)
			hi := lo + int64(r.Intn(50))
			e := x.Var(string(rune('a'+i)), 64, lo, hi)
			p := pr{e: e}
			for _, m := range models {
				v := uint64(lo + int64(r.Intn(int(hi-lo+1))))
				if e.op != OConst {
					// the variable may be stored shifted
					for len(m.vals) < len(x.vars) {
						m.vals = append(m.vals, 0)
					}
				}
				p.v = append(p.v, v)
			}
			ints = append(ints, p)
		}
		// variables are raw bit patterns: fill models with values and read back
		for _, m := range models {
			for k := range m.vals {
				vi := x.vars[k]
				span := vi.hi - vi.lo + 1
				m.vals[k] = uint64(vi.lo+int64(r.Intn(int(span)))) & mask(vi.e.w)
			}
		}
		for i := range ints {
			for k, m := range models {
				x.EvalStart()
				ints[i].v[k] = x.Eval(ints[i].e, m)
			}
		}
		un := func(a pr, f func(uint64) uint64, e *Expr) pr {
			p := pr{e: e}
			for k := range models {
				p.v = append(p.v, f(a.v[k]))
			}
			return p
		}
		bi := func(a, b pr, f func(p, q uint64) uint64, e *Expr) pr {
			p := pr{e: e}
			for k := range models {
				p.v = append(p.v, f(a.v[k], b.v[k]))
			}
			return p
		}
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		F := math.Float64frombits
		B := math.Float64bits
		for step := 0; step < 40; step++ {
			pi := func() pr { return ints[r.Intn(len(ints))] }
			var n pr
			kind := 0
			switch r.Intn(19) {
			case 0:
				a, b := pi(), pi()
				n = bi(a, b, func(p, q uint64) uint64 { return p + q }, x.Add(a.e, b.e))
			case 1, 2:
				a, b := pi(), pi()
				n = bi(a, b, func(p, q uint64) uint64 { return p - q }, x.Sub(a.e, b.e))
			case 3, 4:
				a, b := pi(), pi()
				n = bi(a, b, func(p, q uint64) uint64 { return p * q }, x.Mul(a.e, b.e))
			case 5:
				c := uint64(int64(r.Intn(9) - 4))
				n = un(pr{v: make([]uint64, nm)}, func(uint64) uint64 { return c }, x.Const(64, c))
			case 6:
				a, b := pi(), pi()
				n = bi(a, b, func(p, q uint64) uint64 { return b2u(int64(p) < int64(q)) }, x.Slt(a.e, b.e))
				kind = 1
			case 7:
				a, b := pi(), pi()
				n = bi(a, b, func(p, q uint64) uint64 { return b2u(p == q) }, x.Eq(a.e, b.e))
				kind = 1
			case 8:
				if len(bools) == 0 {
					continue
				}
				c := bools[r.Intn(len(bools))]
				a, b := pi(), pi()
				n = pr{e: x.Ite(c.e, a.e, b.e)}
				for k := range models {
					v := b.v[k]
					if c.v[k] != 0 {
						v = a.v[k]
					}
					n.v = append(n.v, v)
				}
			case 9:
				a := pi()
				if !exactRange(a.e) {
					continue
				}
				n = un(a, func(p uint64) uint64 { return B(float64(int64(p))) }, x.FFromInt(a.e))
				kind = 2
			case 10, 11:
				if len(flts) == 0 {
					continue
				}
				a, b := flts[r.Intn(len(flts))], flts[r.Intn(len(flts))]
				switch r.Intn(5) {
				case 0:
					n = bi(a, b, func(p, q uint64) uint64 { return B(F(p) + F(q)) }, x.FBin(OFAdd, a.e, b.e))
				case 1:
					n = bi(a, b, func(p, q uint64) uint64 { return B(F(p) - F(q)) }, x.FBin(OFSub, a.e, b.e))
				case 2:
					n = bi(a, b, func(p, q uint64) uint64 { return B(F(p) * F(q)) }, x.FBin(OFMul, a.e, b.e))
				case 3:
					c := []float64{.5, 2, 1.0 / 65536, 65536, -4, 3, .1, 360.0 / 65536}[r.Intn(8)]
					op := []Op{OFMul, OFDiv, OFAdd}[r.Intn(3)]
					n = un(a, func(p uint64) uint64 {
						switch op {
						case OFMul:
							return B(F(p) * c)
						case OFDiv:
							return B(F(p) / c)
						}
						return B(F(p) + c)
					}, x.FBin(op, a.e, x.FConst(c)))
				case 4:
					n = un(a, func(p uint64) uint64 { return B(math.Abs(F(p))) }, x.FAbs(a.e))
				}
				kind = 2
			case 12:
				if len(flts) == 0 {
					continue
				}
				a, b := flts[r.Intn(len(flts))], flts[r.Intn(len(flts))]
				if r.Intn(2) == 0 {
					c := []float64{.5, 2, 0, -7.25, 3.1}[r.Intn(5)]
					b = un(a, func(uint64) uint64 { return B(c) }, x.FConst(c))
				}
				if r.Intn(2) == 0 {
					a, b = b, a
				}
				op := []Op{OFLt, OFLe, OFEq}[r.Intn(3)]
				n = bi(a, b, func(p, q uint64) uint64 {
					switch op {
					case OFLt:
						return b2u(F(p) < F(q))
					case OFLe:
						return b2u(F(p) <= F(q))
					}
					return b2u(F(p) == F(q))
				}, x.FCmp(op, a.e, b.e))
				kind = 1
			case 13:
				if len(flts) == 0 {
					continue
				}
				a := flts[r.Intn(len(flts))]
				big := false
				for _, v := range a.v {
					if !(math.Abs(F(v)) < 1e15) {
						big = true
					}
				}
				if big {
					continue
				}
				if r.Intn(2) == 0 {
					n = un(a, func(p uint64) uint64 { return uint64(int64(F(p))) }, x.FToInt(a.e))
				} else {
					k := uint64(r.Intn(4))
					n = un(a, func(p uint64) uint64 {
						switch k {
						case 0:
							return B(math.Floor(F(p)))
						case 1:
							return B(math.Ceil(F(p)))
						case 2:
							return B(math.Trunc(F(p)))
						}
						return B(math.Round(F(p)))
					}, x.FUn(OFRound, a.e, k))
					kind = 2
				}
			case 14:
				a, b := pi(), pi()
				if b.e.lo <= 0 && b.e.hi >= 0 {
					continue
				}
				n = bi(a, b, func(p, q uint64) uint64 { return uint64(int64(p) / int64(q)) }, x.Bin(OSDiv, a.e, b.e))
			case 16:
				a, b := pi(), pi()
				i, k := uint64(r.Intn(6)), uint64(r.Intn(8))
				sh, op := func(v uint64) uint64 { return uint64(int64(v) >> k) }, OAshr
				e := x.Add(x.Mul(a.e, x.Const(64, 1<<i)), x.Add(b.e, x.Const(64, i*k)))
				if e.lo >= 0 && r.Intn(2) == 0 {
					sh, op = func(v uint64) uint64 { return v >> k }, OLshr
				}
				n = bi(a, b, func(p, q uint64) uint64 { return sh(p<<i + q + i*k) }, x.Bin(op, e, x.Const(64, k)))
			case 17:
				// through bytes
				a := pi()
				e := x.Extract(x.Mul(a.e, x.Const(64, 1<<uint(r.Intn(12)))), 31, 0)
				if r.Intn(2) == 0 {
					e = x.Extract(a.e, 31, 0)
				}
				want := make([]uint64, nm)
				for k, m := range models {
					x.EvalStart()
					want[k] = uint64(int64(int32(x.Eval(e, m))))
				}
				var g *Expr
				for i := uint8(0); i < 4; i++ {
					b := x.Extract(x.Bin(OLshr, e, x.Const(32, uint64(8*i))), 7, 0)
					p := x.Bin(OShl, x.ZExt(b, 32), x.Const(32, uint64(8*i)))
					if g == nil {
						g = p
					} else {
						g = x.Bin(OBOr, g, p)
					}
				}
				n = pr{e: x.SExt(g, 64), v: want}
			case 18:
				// quotients, compared
				a, b := pi(), pi()
				if !exactRange(a.e) || !exactRange(b.e) || b.e.lo <= 0 && b.e.hi >= 0 {
					continue
				}
				nn, dd := x.reduce(a.e, b.e)
				n = bi(a, b, func(p, q uint64) uint64 { return B(float64(int64(p)) / float64(int64(q))) }, x.mk(OFDiv, wF64, x.FFromInt(nn), x.FFromInt(dd), nil, 0))
				kind = 2
			case 15:
				a := pi()
				if !exactRange(a.e) || !mulFits(a.e, a.e) {
					continue
				}
				n = un(a, func(p uint64) uint64 { return B(math.Sqrt(float64(int64(p)) * float64(int64(p)))) }, x.FUn(OFSqrt, x.FFromInt(x.Mul(a.e, a.e)), 0))
				kind = 2
			}
			for k, m := range models {
				x.EvalStart()
				got := x.Eval(n.e, m)
				ok := got == n.v[k]
				if kind == 2 {
					g, w := F(got), F(n.v[k])
					ok = g == w || math.IsNaN(g) && math.IsNaN(w)
				}
				if !ok {
					t.Fatalf("seed %d step %d kind %d model %d: got %x want %x", seed, step, kind, k, got, n.v[k])
				}
				if kind == 0 && (int64(n.v[k]) < n.e.lo || int64(n.v[k]) > n.e.hi) {
					t.Fatalf("seed %d step %d: range %d..%d misses %d", seed, step, n.e.lo, n.e.hi, int64(n.v[k]))
				}
			}
			switch kind {
			case 0:
				ints = append(ints, n)
			case 1:
				bools = append(bools, n)
			case 2:
				flts = append(flts, n)
			}
		}
	}
}
