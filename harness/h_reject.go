package main

// REJECT: which sectors can be seen from which.

type vRejOpt struct {
	mode   int // self-referencing sectors
	graphs bool
	nosymm bool
	slow   bool
	rmb    *RMBFrame
	ignore []bool
}

// vReject builds the reject table of a level
func vReject(m *vLev, o vRejOpt) []byte {
	config.UseGraphsForLOS = o.graphs
	config.NoSymm = o.nosymm
	config.RejectSelfRefMode = o.mode
	lines := &DoomLinedefs{linedefs: m.lines, vertices: m.verts}
	bounds := LevelBounds{Xmin: int16(m.xs[0]), Ymin: int16(m.ys[0]), Xmax: int16(m.xs[len(m.xs)-1]), Ymax: int16(m.ys[len(m.ys)-1])}
	bcontrol := make(chan BconRequest, 4)
	bgen := make(chan BgenRequest)
	ch := make(chan RejectResponse, 1)
	go func() {
		r := <-bcontrol
		if r.Message == BCON_NEED_SOLID_BLOCKMAP {
			q := <-bgen
			q.ReplyTo <- CreateBlockmap(&BlockmapInput{lines: lines.GetSolidVersion(), bounds: bounds, internalPurpose: true, linesToIgnore: o.ignore})
			r = <-bcontrol
			vAssert(r.Message == BCON_DONE_WITH_SOLID_BLOCKMAP, "solid-blockmap-released")
		}
	}()
	in := RejectInput{lines: lines, bounds: bounds, sectors: m.sectors, sidedefs: m.sides,
		bcontrol: bcontrol, bgenerator: bgen, rejectChan: ch, linesToIgnore: o.ignore, rmbFrame: o.rmb, mapName: "MAP01"}
	if o.slow {
		_, groups := o.rmb.LoadGroups(len(m.sectors))
		return getRejectWorkIntf().main(in, false, false, groups)
	}
	RejectGenerator(in)
	r := <-ch
	return r.data
}

func vHidden(data []byte, n, i, j int) bool {
	k := i*n + j
	return data[k>>3]&(1<<uint(k&7)) != 0
}

// vRejLevel draws one of the levels of the reject harnesses, at any place
func vRejLevel(arts [][]string, sizes [][]int) (*vLev, []string, []int, []int) {
	x0, y0 := vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	art := arts[vPick("map", len(arts))]
	size := sizes[vPick("sizes", len(sizes))]
	xs, ys := []int{x0}, []int{y0}
	ox, oy := []int{0}, []int{0}
	for i := range art[0] {
		ox = append(ox, ox[i]+size[i%len(size)])
		xs = append(xs, x0+ox[i+1])
	}
	for i := range art {
		oy = append(oy, oy[i]+size[(i+1)%len(size)])
		ys = append(ys, y0+oy[i+1])
	}
	return vGrid(xs, ys, art, vPick("merge", 2) == 1), art, ox, oy
}

// vClear: the segment from p to q meets no one-sided line
func vClear(m *vLev, px, py, qx, qy int) bool {
	r := true
	for _, l := range m.lines {
		if l.BackSdef != SIDEDEF_NONE {
			continue
		}
		ax, ay := m.vx[l.StartVertex]-m.xs[0], m.vy[l.StartVertex]-m.ys[0]
		bx, by := m.vx[l.EndVertex]-m.xs[0], m.vy[l.EndVertex]-m.ys[0]
		var hit bool
		if ax == bx {
			hit = vCross(px, py, qx, qy, ax, vMin(ay, by), vMax(ay, by))
		} else {
			hit = vCross(py, px, qy, qx, ay, vMin(ax, bx), vMax(ax, bx))
		}
		r = vAnd(r, !hit)
	}
	return r
}

// vCross: the segment from p to q meets the segment {c} x [lo, hi]
func vCross(px, py, qx, qy, c, lo, hi int) bool {
	at := py*(qx-c) + qy*(c-px)
	d := qx - px
	up := vAnd(vAnd(px <= c, c <= qx), vAnd(lo*d <= at, at <= hi*d))
	dn := vAnd(vAnd(qx <= c, c <= px), vAnd(lo*d >= at, at >= hi*d))
	return vOr(up, dn)
}

var vRejArts = [][]string{
	{"abc"},
	{"ab", ".c"},
	{"abc", "d.e"},
	{"a.b", "cdc"},
	{"a.b", "a.c"},
	{"abc", "d.e", "fgh"},
}

func vWithin(name string, at []int, i int) int {
	return at[i] + 4*vInt(name, 1, (at[i+1]-at[i])/4-1)
}

// no sector is hidden from another that it has a clear line of sight to
//
//verif:prop C14
//verif:bound 6 levels anywhere on the map; any two points in the cells, in steps of 4
func H_RejectSight() {
	m, art, ox, oy := vRejLevel(vRejArts, [][]int{{64, 64}, {64, 16, 40}})
	n := m.nsectors
	data := vReject(m, vRejOpt{graphs: vPick("graphs", 2) == 1, nosymm: vPick("nosymm", 2) == 1})
	vAssert(len(data) == (n*n+7)/8, "reject-size")
	h, w := len(art), len(art[0])
	for a := 0; a < w*h; a++ {
		for b := 0; b < w*h; b++ {
			ca, cb := art[h-1-a/w][a%w], art[h-1-b/w][b%w]
			if ca == '.' || cb == '.' || !vHidden(data, n, int(ca-'a'), int(cb-'a')) {
				continue
			}
			vReach("hidden")
			// anywhere inside the two cells
			ai, aj, bi, bj := a%w, a/w, b%w, b/w
			px, py := vWithin("px", ox, ai), vWithin("py", oy, aj)
			qx, qy := vWithin("qx", ox, bi), vWithin("qy", oy, bj)
			vAssert(!vClear(m, px, py, qx, qy), "sees-but-hidden")
		}
	}
}

// vSees tells which cells of a grid see each other: some line passes through both
// and no void cell between.  All lines in general position are looked at, up to
// passing the same side of all grid points: those near a line through two points.
func vSees(art []string, ox, oy []int) []bool {
	h, w := len(art), len(art[0])
	n := w * h
	sees := make([]bool, n*n)
	seen, mask, run := make([]uint64, n), make([]uint64, n), make([]int, n)
	np := (w + 1) * (h + 1)
	pt := func(k int) (int, int) { return ox[k%(w+1)], oy[k/(w+1)] }
	sgn := make([]int, np)
	for k := 0; k < np; k++ {
		for l := k + 1; l < np; l++ {
			kx, ky := pt(k)
			lx, ly := pt(l)
			dx, dy := lx-kx, ly-ky
			var on []int // points on the line, in order
			first := true
			for p := 0; p < np; p++ {
				x, y := pt(p)
				sgn[p] = dx*(y-ky) - dy*(x-kx)
				if sgn[p] == 0 {
					on = append(on, p)
					first = first && p >= k
				}
			}
			if !first || on[0] != k || on[1] != l {
				continue // the line was looked at
			}
			for cut := 0; cut < 2*len(on); cut++ {
				for q, p := range on {
					sgn[p] = 1
					if (q < cut%len(on)) != (cut >= len(on)) {
						sgn[p] = -1
					}
				}
				// runs of cells
				for c := 0; c < n; c++ {
					i, j := c%w, c/w
					run[c] = -1
					a, b, d, e := sgn[j*(w+1)+i], sgn[j*(w+1)+i+1], sgn[(j+1)*(w+1)+i], sgn[(j+1)*(w+1)+i+1]
					if a > 0 && b > 0 && d > 0 && e > 0 || a < 0 && b < 0 && d < 0 && e < 0 || art[h-1-j][i] == '.' {
						continue
					}
					run[c] = c
					if i > 0 && run[c-1] >= 0 {
						run[c] = run[c-1]
					}
					if j > 0 && run[c-w] >= 0 {
						r := run[c-w]
						if run[c] != r {
							old := run[c]
							for x := 0; x <= c; x++ {
								if run[x] == old {
									run[x] = r
								}
							}
						}
					}
				}
				for a := 0; a < n; a++ {
					mask[a] = 0
				}
				for a, r := range run {
					if r >= 0 {
						mask[r] |= 1 << uint(a)
					}
				}
				for a, r := range run {
					if r >= 0 {
						seen[a] |= mask[r]
					}
				}
			}
		}
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			sees[a*n+b] = seen[a]>>uint(b)&1 != 0
		}
	}
	return sees
}

// vSeesSectors is vSees for sectors
func vSeesSectors(art []string, ox, oy []int, n int) []bool {
	h, w := len(art), len(art[0])
	c := vSees(art, ox, oy)
	r := make([]bool, n*n)
	for a := 0; a < w*h; a++ {
		for b := 0; b < w*h; b++ {
			if c[a*w*h+b] {
				r[int(art[h-1-a/w][a%w]-'a')*n+int(art[h-1-b/w][b%w]-'a')] = true
			}
		}
	}
	return r
}

// vRejOrigin: if not nil, the places of levels that may not be anywhere
var vRejOrigin []int

// vRejMask draws a level: the pattern, void where mask says so
func vRejMask(pattern []string, mask int, size []int, merge bool) (*vLev, []string, []int, []int) {
	var x0, y0 int
	if vRejOrigin != nil {
		x0 = vRejOrigin[vPick("at", len(vRejOrigin))]
		y0 = -x0 / 2
	} else {
		x0, y0 = vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	}
	w, h := len(pattern[0]), len(pattern)
	var art []string
	ren := map[byte]byte{}
	for j := 0; j < h; j++ {
		var row []byte
		for i := 0; i < w; i++ {
			c := pattern[j][i]
			if mask>>uint(j*w+i)&1 == 0 {
				row = append(row, '.')
				continue
			}
			if ren[c] == 0 {
				ren[c] = byte('a' + len(ren))
				if mask == -1 {
					ren[c] = c
				}
			}
			row = append(row, ren[c])
		}
		art = append(art, string(row))
	}
	xs, ys := []int{x0}, []int{y0}
	ox, oy := []int{0}, []int{0}
	for i := 0; i < w; i++ {
		ox = append(ox, ox[i]+size[i%len(size)])
		xs = append(xs, x0+ox[i+1])
	}
	for i := 0; i < h; i++ {
		oy = append(oy, oy[i]+size[(i+1)%len(size)])
		ys = append(ys, y0+oy[i+1])
	}
	return vGrid(xs, ys, art, merge), art, ox, oy
}

// vExact: hidden are the sectors that no line of sight leads to, and no others
func vExact(m *vLev, art []string, ox, oy []int, data []byte) {
	n := m.nsectors
	vAssert(len(data) == (n*n+7)/8, "reject-size")
	sees := vSeesSectors(art, ox, oy, n)
	open := false
	for _, l := range m.lines {
		open = open || l.BackSdef != SIDEDEF_NONE
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if !open {
				// "You will have a zero-filled REJECT"
				vReach("no-two-sided-line")
				vAssert(!vHidden(data, n, a, b), "zero-filled")
			} else if sees[a*n+b] || a == b {
				vReach("seen")
				vAssert(!vHidden(data, n, a, b), "seen-but-hidden")
			} else {
				vReach("blind")
				// lines of sight that only pass through the ends of walls count either way
				vAssert(vHidden(data, n, a, b) || vGrazing(m, ox, oy, a, b), "blind-but-not-hidden")
			}
		}
	}
}

// vGrazing: some line from sector a to sector b crosses no wall except at its ends
func vGrazing(m *vLev, ox, oy []int, a, b int) bool {
	type cross struct {
		at   float64
		line int
		wall bool
	}
	for k := range m.verts {
		for l := range m.verts {
			if k == l {
				continue
			}
			px, py := ox[m.gx[k]], oy[m.gy[k]]
			ex, ey := ox[m.gx[l]]-px, oy[m.gy[l]]-py
			var cs []cross
			for i := range m.lines {
				s, t := m.lines[i].StartVertex, m.lines[i].EndVertex
				sx, sy, tx, ty := ox[m.gx[s]]-px, oy[m.gy[s]]-py, ox[m.gx[t]]-px, oy[m.gy[t]]-py
				ss, st := ex*sy-ey*sx, ex*ty-ey*tx
				wall := m.lines[i].BackSdef == SIDEDEF_NONE
				if ss > 0 && st > 0 || ss < 0 && st < 0 || wall && (ss == 0 || st == 0) {
					continue
				}
				if ss == 0 && st == 0 {
					cs = append(cs, cross{float64(ex*sx + ey*sy), i, false}, cross{float64(ex*tx + ey*ty), i, false})
					continue
				}
				f := float64(ss) / float64(ss-st)
				x, y := float64(sx)+f*float64(tx-sx), float64(sy)+f*float64(ty-sy)
				cs = append(cs, cross{float64(ex)*x + float64(ey)*y, i, wall})
			}
			for _, c := range cs {
				if c.wall || m.sec(m.lines[c.line].FrontSdef) != a && m.sec(m.lines[c.line].BackSdef) != a {
					continue
				}
				for _, d := range cs {
					if d.wall || m.sec(m.lines[d.line].FrontSdef) != b && m.sec(m.lines[d.line].BackSdef) != b {
						continue
					}
					ok := true
					for _, w := range cs {
						if w.wall && (w.at > c.at+0.001 && w.at < d.at-0.001 || w.at < c.at-0.001 && w.at > d.at+0.001) {
							ok = false
						}
					}
					if ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// vSlant maps the level linearly: which sectors see each other stays the same
func (m *vLev) vSlant(ox, oy []int, a, b, c, d int) {
	x0, y0 := m.xs[0], m.ys[0]
	loX, hiX, loY, hiY := 0, 0, 0, 0
	for k := range m.verts {
		x, y := ox[m.gx[k]], oy[m.gy[k]]
		x, y = a*x+b*y, c*x+d*y
		m.vx[k], m.vy[k] = x0+x, y0+y
		m.verts[k] = Vertex{int16(m.vx[k]), int16(m.vy[k])}
		loX, hiX, loY, hiY = vMin(loX, x), vMax(hiX, x), vMin(loY, y), vMax(hiY, y)
	}
	m.xs = []int{x0 + loX, x0 + hiX}
	m.ys = []int{y0 + loY, y0 + hiY}
}

var vSlants = [][4]int{{1, 0, 0, 1}, {1, 1, -1, 1}, {1, 0, 2, 1}, {2, -1, 1, 2}, {-1, 3, -2, 1}, {0, -1, 1, 0}}

// how a table is computed must not show: without symmetry, with graphs
var vRejHows = []vRejOpt{{}, {graphs: true}, {nosymm: true}, {graphs: true, nosymm: true}}

var vRejPatterns = [][]string{
	{"abc", "def", "ghi"},
	{"aba", "aba", "cdc"},
	{"aab", "cdb", "cee"},
	{"abc", "abc", "bca"},
	{"aabb", "cdde", "ffgg"},
	{"abcd", "aefd", "ghhi"},
	{"abcab", "dabed", "fgbcc"},
}

func vRejAny(pattern, mask int, slant, how int, merge bool) {
	m, art, ox, oy := vRejMask(vRejPatterns[pattern], mask, []int{64, 16, 40}, merge)
	if slant > 0 {
		t := vSlants[slant]
		m.vSlant(ox, oy, t[0], t[1], t[2], t[3])
	}
	data := vReject(m, vRejHows[how])
	vExact(m, art, ox, oy, data)
	// how it is computed must not show
	for k := range vRejHows {
		if k != how {
			other := vReject(m, vRejHows[k])
			same := len(data) == len(other)
			for i := range data {
				same = same && data[i] == other[i]
			}
			vAssert(same, "depends-on-how-it-is-computed")
		}
	}
}

// the table is exact: hidden are the sectors that no line of sight leads to, and no others
//
//verif:prop C14
//verif:tier quick
//verif:bound every subset of a 3x3 grid of cells, divided into sectors in two ways, anywhere on the map, alternating between plain, slanted, with graphs, without symmetry
func H_RejectMask() {
	mask := vPick("cells", 511) + 1
	p := vPick("pattern", 2)
	vRejAny(p, mask, (mask+mask/7+p)%6, (mask+mask/3+p)%4, (mask/5+p)%2 == 0)
}

// levels of bricks
//
//verif:prop C14
//verif:tier quick
//verif:bound every fourth subset of 4x3 cells, three patterns of sectors
func H_RejectBricks() {
	mask := vPick("cells", 1023)*4 + 3
	p := 4 + vPick("pattern", 2)
	vRejAny(p, mask^mask>>5, (mask/4+p)%6, (mask/4+mask/16+p)%4, mask/12%2 == 0)
}

// any level of 3 x 3 cells
//
//verif:prop C14
//verif:tier thorough
//verif:bound every subset of a 3x3 grid of cells, four patterns of sectors, 6 slants, 4 option sets
func H_RejectMaskAll() {
	vRejAny(vPick("pattern", 4), vPick("cells", 511)+1, vPick("slant", 6), vPick("how", 4), false)
}

// levels of 4 x 3 cells
//
//verif:prop C14
//verif:tier thorough
//verif:bound every subset of 4x3 cells, two patterns of sectors
func H_RejectBricksAll() {
	mask := vPick("cells", 4095) + 1
	p := 4 + vPick("pattern", 2)
	vRejAny(p, mask, (mask+p)%6, (mask+mask/4+p)%4, vPick("merge", 2) == 0)
}

// levels of 5 x 3 cells
//
//verif:prop C14
//verif:tier thorough
//verif:bound every second subset of 5x3 cells
func H_RejectWideAll() {
	mask := vPick("cells", 16383)*2 + 1
	vRejAny(6, mask, mask/2%6, (mask/2+mask/8)%4, mask/6%2 == 0)
}

// vSelfRef makes the sectors of the set self-referencing: their two-sided lines
// have both sides in them
func vSelfRef(m *vLev, set string) {
	in := func(s uint16) bool {
		for k := range set {
			if int(s) == int(set[k]-'a') {
				return true
			}
		}
		return false
	}
	for _, l := range m.lines {
		if l.BackSdef == SIDEDEF_NONE {
			continue
		}
		f, b := &m.sides[l.FrontSdef], &m.sides[l.BackSdef]
		if in(f.Sector) {
			b.Sector = f.Sector
		} else if in(b.Sector) {
			f.Sector = b.Sector
		}
	}
}

// sectors that are not what they seem
//
//verif:prop C14
//verif:bound 5 levels with self-referencing sectors, 2 sizes, 3 places, 3 modes
func H_RejectSelfRef() {
	arts := [][]string{
		{"aaa.", "abac", "aaad", "..ed"},
		{"aaaccd", "aba..d", "aaa.ed"},
		{"aaaaa", "abaca", "aaaaa", "..d..", "eefff"},
		{"aaac", "aba.", "d...", "ef.."},
		{"aaa.e", "abacc", "aaa.d"},
	}
	sets := []string{"b", "b", "bc", "b", "b"}
	k := vPick("map", len(arts))
	vRejOrigin = []int{0, -1000, 517}
	m, art, ox, oy := vRejMask(arts[k], -1, [][]int{{64, 16, 40}, {32, 32, 24}}[vPick("sizes", 2)], vPick("merge", 2) == 1)
	vSelfRef(m, sets[k])
	n := m.nsectors
	mode := []int{REJ_SELFREF_TRIVIAL, REJ_SELFREF_CHECK, REJ_SELFREF_PEDANTIC}[vPick("mode", 3)]
	data := vReject(m, vRejOpt{graphs: vPick("graphs", 2) == 1, nosymm: vPick("nosymm", 2) == 1, mode: mode})
	sees := vSeesSectors(art, ox, oy, n)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if sees[a*n+b] || a == b {
				vAssert(!vHidden(data, n, a, b), "seen-but-hidden")
			} else if mode == REJ_SELFREF_PEDANTIC {
				vAssert(vHidden(data, n, a, b), "blind-but-not-hidden")
			}
		}
	}
}

// vSightLines tells which two-sided lines see each other: some line of sight crosses
// both and no solid line between.  All lines in general position are looked at, up to
// passing the same side of all vertices.  ox, oy: places of the grid's lines
func vSightLines(m *vLev, ox, oy []int, solid []bool) []bool {
	n := len(m.lines)
	r := make([]bool, n*n)
	x := make([]float64, len(m.verts))
	y := make([]float64, len(m.verts))
	for k := range m.verts {
		x[k], y[k] = float64(ox[m.gx[k]]), float64(oy[m.gy[k]])
	}
	const eps = 1.0 / 1024
	at := make([]float64, n)
	order := make([]int, 0, n)
	for k := range x {
		for l := k + 1; l < len(x); l++ {
			dx, dy := x[l]-x[k], y[l]-y[k]
			s := dx*dx + dy*dy
			nx, ny := -dy/s*16, dx/s*16 // short enough
			for t := 0; t < 4; t++ {
				e1, e2 := eps, eps
				if t&1 == 1 {
					e1 = -eps
				}
				if t&2 == 2 {
					e2 = -eps
				}
				px, py := x[k]+nx*e1, y[k]+ny*e1
				ex, ey := x[l]+nx*e2-px, y[l]+ny*e2-py
				order = order[:0]
				for i := range m.lines {
					a, b := m.lines[i].StartVertex, m.lines[i].EndVertex
					sa := ex*(y[a]-py) - ey*(x[a]-px)
					sb := ex*(y[b]-py) - ey*(x[b]-px)
					if sa > 0 == (sb > 0) {
						continue
					}
					f := sa / (sa - sb)
					at[i] = ex*(x[a]+f*(x[b]-x[a])-px) + ey*(y[a]+f*(y[b]-y[a])-py)
					j := len(order)
					order = append(order, i)
					for j > 0 && at[order[j-1]] > at[i] {
						order[j] = order[j-1]
						j--
					}
					order[j] = i
				}
				for i := range order {
					for j := i; j < len(order) && !solid[order[j]]; j++ {
						r[order[i]*n+order[j]] = true
						r[order[j]*n+order[i]] = true
					}
				}
			}
		}
	}
	return r
}

// vLineDist2 is the square of the distance of two lines parallel to the axes
func vLineDist2(m *vLev, ox, oy []int, i, j int) int {
	box := func(i int) (x1, y1, x2, y2 int) {
		a, b := m.lines[i].StartVertex, m.lines[i].EndVertex
		return vMin(ox[m.gx[a]], ox[m.gx[b]]), vMin(oy[m.gy[a]], oy[m.gy[b]]), vMax(ox[m.gx[a]], ox[m.gx[b]]), vMax(oy[m.gy[a]], oy[m.gy[b]])
	}
	a1, b1, a2, b2 := box(i)
	c1, d1, c2, d2 := box(j)
	dx := vMax(0, vMax(c1-a2, a1-c2))
	dy := vMax(0, vMax(d1-b2, b1-d2))
	return dx*dx + dy*dy
}

// vRmbOracle computes which sectors see each other under options that limit sight
type vRmbOracle struct {
	length, distance int // -1: none
	blocked          int // a line, or -1
	group            [2]int
}

func (o *vRmbOracle) sees(m *vLev, ox, oy []int) (sees []bool, dist []int) {
	n := m.nsectors
	nl := len(m.lines)
	solid := make([]bool, nl)
	for i, l := range m.lines {
		solid[i] = l.BackSdef == SIDEDEF_NONE || i == o.blocked
	}
	g := func(s int) int {
		if s == o.group[1] {
			return o.group[0]
		}
		return s
	}
	sight := vSightLines(m, ox, oy, solid)
	sees = make([]bool, n*n)
	dist = make([]int, n*n)
	for i := range dist {
		dist[i] = 9999
	}
	side := func(i int) [2]int { return [2]int{m.sec(m.lines[i].FrontSdef), m.sec(m.lines[i].BackSdef)} }
	for i := 0; i < nl; i++ {
		if solid[i] {
			continue
		}
		for j := 0; j < nl; j++ {
			if solid[j] || !sight[i*nl+j] {
				continue
			}
			a, b := side(i), side(j)
			if o.distance >= 0 && a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1] && vLineDist2(m, ox, oy, i, j) > o.distance*o.distance {
				continue
			}
			for p := 0; p < 2; p++ {
				for q := 0; q < 2; q++ {
					sees[a[p]*n+b[q]] = true
				}
			}
		}
		s := side(i)
		x, y := g(s[0]), g(s[1])
		if x != y {
			dist[x*n+y], dist[y*n+x] = 1, 1
		}
	}
	for i := 0; i < n; i++ {
		sees[i*n+i] = true
		dist[i*n+i] = 0
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				dist[i*n+j] = vMin(dist[i*n+j], dist[i*n+k]+dist[k*n+j])
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			dist[i*n+j] = dist[g(i)*n+g(j)]
		}
	}
	if o.group[1] >= 0 && (o.distance >= 0 || o.blocked >= 0) {
		// sectors of a group share what they see
		old := append([]bool{}, sees...)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						if g(a) == g(i) && g(b) == g(j) && (old[a*n+b] || g(i) == g(j)) {
							sees[i*n+j] = true
						}
					}
				}
			}
		}
	}
	if o.length >= 0 {
		for k := range sees {
			if dist[k] > o.length {
				sees[k] = false
			}
		}
	}
	return sees, dist
}

var vRmbArts = [][]string{
	{"abcdefg"},
	{"abc", "d.e", "fgh"},
	{"ab.c", "d.ef", "ghi."},
	{"aabb", "c.dd", "eeff"},
	{"abc.", "..d.", "fge.", "h..."},
	{"a.b", "cdc", "a.b"},
}

// LENGTH, DISTANCE, LINE, GROUP change the table as documented
//
//verif:prop C15
//verif:tier quick
//verif:bound 4 levels x options
func H_RmbLevel() { vRmbLevel(vPick("map", 6), vPick("options", 40)) }

//verif:prop C15
//verif:tier thorough
//verif:bound 6 levels x options
func H_RmbLevelAll() {
	vRmbLevel(vPick("map", 6), vPick("length", 4)+4*vPick("distance", 4)+16*vPick("line", 4)+64*vPick("group", 4)+256*vPick("blind", 4))
}

func vRmbLevel(art, opts int) {
	m, _, ox, oy := vRejMask(vRmbArts[art], -1, []int{64, 16, 40}, art%2 == 1)
	n := m.nsectors
	o := &vRmbOracle{length: -1, distance: -1, blocked: -1, group: [2]int{-1, -1}}
	h := opts * 73 % 1024
	if opts >= 40 {
		h = opts
	}
	fr := &RMBFrame{Parent: &RMBFrame{}}
	add := func(c RMBCommand) {
		if len(fr.Commands) > len(fr.Parent.Commands) {
			fr.Parent.Commands = append(fr.Parent.Commands, c)
		} else {
			fr.Commands = append(fr.Commands, c)
		}
	}
	if k := h & 3; k > 0 {
		o.length = k
		add(RMBCommand{Type: RMB_LENGTH, Data: [2]int{k}})
	}
	if k := h >> 2 & 3; k > 0 {
		o.distance = []int{0, 45, 71, 130}[k]
		add(RMBCommand{Type: RMB_DISTANCE, Data: [2]int{o.distance}})
	}
	if k := h >> 4 & 3; k > 0 {
		var open []int
		for i, l := range m.lines {
			if l.BackSdef != SIDEDEF_NONE {
				open = append(open, i)
			}
		}
		o.blocked = open[k*5%len(open)]
		add(RMBCommand{Type: RMB_LINE, Data: [2]int{o.blocked}})
	}
	if k := h >> 6 & 3; k > 0 {
		o.group = [2]int{k % n, (k + 2) % n}
		if k == 2 {
			o.group = [2]int{(k + 1) % n, 0}
		}
		add(RMBCommand{Type: RMB_GROUP, Data: [2]int{o.group[0]}, List: [2][]int{{o.group[1]}}})
	}
	blind, safe := -1, -1
	who := 1
	switch h >> 8 & 3 {
	case 1:
		blind = 1
		add(RMBCommand{Type: RMB_BLIND, Data: [2]int{blind}, List: [2][]int{{who}}})
	case 2:
		blind = 2
		add(RMBCommand{Type: RMB_BLIND, Data: [2]int{blind}, List: [2][]int{{who}}})
	case 3:
		safe = 2
		add(RMBCommand{Type: RMB_SAFE, Data: [2]int{safe}, List: [2][]int{{who}}})
	}
	data := vReject(m, vRejOpt{graphs: vPick("graphs", 2) == 1, rmb: fr})
	sees, dist := o.sees(m, ox, oy)
	member := func(s int) bool { return s == who || who == o.group[0] && s == o.group[1] || who == o.group[1] && s == o.group[0] }
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			want := sees[i*n+j]
			if blind >= 0 && member(i) && dist[i*n+j] >= blind || safe >= 0 && member(j) && dist[i*n+j] >= safe {
				want = false
			}
			if want {
				vReach("seen")
				vAssert(!vHidden(data, n, i, j), "seen-but-hidden")
			} else {
				vReach("blind")
				vAssert(vHidden(data, n, i, j), "blind-but-not-hidden")
			}
		}
	}
}

// self-referencing sectors in the corners and next to each other
//
//verif:prop C14
//verif:bound 6 levels with self-referencing sectors at walls, 2 sizes, 3 modes, 4 orders of lines, with and without walls wrongly said to be two-sided
func H_RejectSelfRefWalls() {
	arts := [][]string{
		{"aaaaae", "aabac."},
		{"aaaaa.", "abaca.", "aaaaae"},
		{"aabac.", "aaaaae"},
		{"ababac", "aaaaad"},
		{"eaaa", ".aba", "daac"},
		{"caab", "aaad", "eaaa"},
	}
	sets := []string{"bc", "bc", "bc", "bc", "bc", "bc"}
	k := vPick("map", len(arts))
	vRejOrigin = []int{0}
	m, art, ox, oy := vRejMask(arts[k], -1, [][]int{{64, 16, 40}, {32, 32, 24}}[vPick("sizes", 2)], vPick("merge", 2) == 1)
	vSelfRef(m, sets[k])
	broken := vPick("broken", 2)
	first := 0
	if broken == 0 {
		first = vPick("first", 4)
	}
	first = first * len(m.lines) / 4
	m.lines[0], m.lines[first] = m.lines[first], m.lines[0]
	if broken == 1 { // outer walls said to be two-sided
		for i := range m.lines {
			l := &m.lines[i]
			if m.gx[l.StartVertex] == 0 && m.gx[l.EndVertex] == 0 {
				l.Flags |= LF_TWOSIDED
			}
		}
	}
	n := m.nsectors
	mode := []int{REJ_SELFREF_TRIVIAL, REJ_SELFREF_CHECK, REJ_SELFREF_PEDANTIC}[vPick("mode", 3)]
	data := vReject(m, vRejOpt{graphs: vPick("graphs", 2) == 1, nosymm: vPick("nosymm", 2) == 1, mode: mode})
	sees := vSeesSectors(art, ox, oy, n)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if sees[a*n+b] || a == b {
				vAssert(!vHidden(data, n, a, b), "seen-but-hidden")
			} else if mode == REJ_SELFREF_PEDANTIC {
				vAssert(vHidden(data, n, a, b), "blind-but-not-hidden")
			}
		}
	}
}
// vRejDraw draws a level of w x h cells by laying rectangles of sectors over each other
func vRejDraw(k, w, h, sectors int, oracle bool) {
	rnd := vRandom(k)
	art, kinds := vDraw(rnd, w, h, sectors, k%2*3)
	if kinds < 1 {
		return
	}
	sizes := []int{64, 16, 40, 88}
	x0, y0 := vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	xs, ys := []int{x0}, []int{y0}
	ox, oy := []int{0}, []int{0}
	for i := 0; i < w; i++ {
		ox = append(ox, ox[i]+sizes[rnd(4)])
		xs = append(xs, x0+ox[i+1])
	}
	for i := 0; i < h; i++ {
		oy = append(oy, oy[i]+sizes[rnd(4)])
		ys = append(ys, y0+oy[i+1])
	}
	m := vGrid(xs, ys, art, rnd(3) > 0)
	t := vSlants[rnd(len(vSlants))]
	rx, ry := make([]int, len(m.verts)), make([]int, len(m.verts))
	loX, hiX, loY, hiY := 0, 0, 0, 0
	for k := range m.verts {
		x, y := ox[m.gx[k]]+rnd(7)-3, oy[m.gy[k]]+rnd(7)-3
		x, y = t[0]*x+t[1]*y, t[2]*x+t[3]*y
		rx[k], ry[k] = x, y
		m.vx[k], m.vy[k] = x0+x, y0+y
		m.verts[k] = Vertex{int16(m.vx[k]), int16(m.vy[k])}
		loX, hiX, loY, hiY = vMin(loX, x), vMax(hiX, x), vMin(loY, y), vMax(hiY, y)
	}
	m.xs = []int{x0 + loX, x0 + hiX}
	m.ys = []int{y0 + loY, y0 + hiY}
	n := m.nsectors
	open := false
	for _, l := range m.lines {
		open = open || l.BackSdef != SIDEDEF_NONE
	}
	if !open {
		return
	}
	if !oracle {
		// how it is computed must not show
		data := vReject(m, vRejHows[0])
		for _, how := range vRejHows[1:] {
			other := vReject(m, how)
			same := len(data) == len(other)
			for i := range data {
				same = same && data[i] == other[i]
			}
			vReach("compared")
			if !same && len(data) == len(other) {
				// only what is seen through less than a unit may differ
				sure, may := m.vSeesAny(rx, ry)
				same = true
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						if vHidden(data, n, a, b) != vHidden(other, n, a, b) {
							same = same && sure[a]>>uint(b)&1 == 0 && may[a]>>uint(b)&1 != 0
						}
					}
				}
			}
			vAssert(same, "depends-on-how-it-is-computed")
		}
		return
	}
	sure, may := m.vSeesAny(rx, ry)
	for _, how := range vRejHows {
		data := vReject(m, how)
		vAssert(len(data) == (n*n+7)/8, "reject-size")
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				h := vHidden(data, n, a, b)
				if a == b || sure[a]>>uint(b)&1 != 0 {
					vReach("seen")
					vAssert(!h, "seen-but-hidden")
				} else if may[a]>>uint(b)&1 == 0 {
					vReach("blind")
					vAssert(h, "blind-but-not-hidden")
				}
			}
		}
	}
}

type vMeet struct {
	at, slope  float64
	wall       bool
	from, into int
}

// vSeesAny tells which sectors see each other: those that some line passes through
// with no wall between.  All lines in general position are looked at, up to passing
// the same side of all vertices: those near a line through two vertices.  The second
// result adds lines of sight that touch walls at their ends.
func (m *vLev) vSeesAny(rx, ry []int) (sure, may []uint64) {
	nv := len(rx)
	sure, may = make([]uint64, m.nsectors), make([]uint64, m.nsectors)
	sg := make([]int, nv)
	along := make([]int, nv)
	on := make([]int, 0, nv)
	ms := make([]vMeet, 0, len(m.lines))
	for k := 0; k < nv; k++ {
		for l := k + 1; l < nv; l++ {
			dx, dy := rx[l]-rx[k], ry[l]-ry[k]
			on = on[:0]
			first := true
			for p := 0; p < nv; p++ {
				x, y := rx[p]-rx[k], ry[p]-ry[k]
				sg[p] = dx*y - dy*x
				if sg[p] == 0 {
					if p != l && p < l && p != k {
						first = false
						break
					}
					along[p] = dx*x + dy*y
					q := len(on)
					on = append(on, p)
					for q > 0 && along[on[q-1]] > along[p] {
						on[q] = on[q-1]
						q--
					}
					on[q] = p
				}
			}
			if !first {
				continue
			}
			real := sg
			// -1: exactly on the line
			for cut := -1; cut < 2*len(on); cut++ {
				for q, p := range on {
					real[p] = 1
					if (q < cut%len(on)) != (cut >= len(on)) {
						real[p] = -1
					}
					if cut < 0 {
						real[p] = 0
					}
				}
				ms = ms[:0]
				for i := range m.lines {
					li := &m.lines[i]
					s, e := int(li.StartVertex), int(li.EndVertex)
					a, b := real[s], real[e]
					wall := li.BackSdef == SIDEDEF_NONE
					if a > 0 && b > 0 || a < 0 && b < 0 || a == 0 && b == 0 {
						continue
					}
					if (a == 0 || b == 0) && wall {
						continue
					}
					sx, sy, ex, ey := rx[s]-rx[k], ry[s]-ry[k], rx[e]-rx[k], ry[e]-ry[k]
					// places along the line and sideways, times its length
					su, sv := dx*sx+dy*sy, dx*sy-dy*sx
					eu, ev := dx*ex+dy*ey, dx*ey-dy*ex
					me := vMeet{wall: wall}
					switch {
					case sv == 0 && ev == 0: // crossed where the line turns
						c := cut % len(on)
						me.at = float64(along[on[c-1]]+along[on[c]]) / 2
					case sv == 0:
						me.at = float64(su)
						me.slope = float64(eu-su) / float64(vMax(ev, -ev))
					case ev == 0:
						me.at = float64(eu)
						me.slope = float64(su-eu) / float64(vMax(sv, -sv))
					default:
						me.at = float64(su) + float64(eu-su)*float64(sv)/float64(sv-ev)
					}
					f := m.sec(li.FrontSdef)
					g := -1
					if !wall {
						g = m.sec(li.BackSdef)
					}
					me.from, me.into = f, g
					q := len(ms)
					ms = append(ms, me)
					for q > 0 && (ms[q-1].at > me.at || ms[q-1].at == me.at && ms[q-1].slope > me.slope) {
						ms[q] = ms[q-1]
						q--
					}
					ms[q] = me
				}
				for q := 0; q < len(ms); {
					set := uint64(0)
					for q < len(ms) && !ms[q].wall {
						set |= 1<<uint(ms[q].from) | 1<<uint(ms[q].into)
						q++
					}
					q++
					if set == 0 {
						continue
					}
					for a := range sure {
						if set>>uint(a)&1 != 0 {
							may[a] |= set
							if cut >= 0 {
								sure[a] |= set
							}
						}
					}
				}
			}
		}
	}
	return
}

// larger levels
//
//verif:prop C14
//verif:bound 1600 levels of 6x5 cells and up to 7 sectors, drawn with sizes and slants of all kinds, built in 4 ways, anywhere on the map
func H_RejectDrawn() {
	vRejDraw(vPick("level", 1600), 6, 5, 7, true)
}

// many larger levels
//
//verif:prop C14
//verif:tier thorough
//verif:bound 6400 levels of 6x5 cells and up to 7 sectors, anywhere on the map
func H_RejectDrawnAll() {
	vRejDraw(1600+vPick("level", 6400), 6, 5, 7, true)
}

// levels larger still: how the table is computed must not show
//
//verif:prop C14
//verif:reach compared
//verif:steps 400000000
//verif:bound 800 levels of 9x7 cells and up to 12 sectors, built in 4 ways, anywhere on the map
func H_RejectHows() {
	vRejDraw(10000+vPick("level", 800), 9, 7, 12, false)
}
