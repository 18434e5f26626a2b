package main

//verif:own
//verif:const BBLOCKS_BUCKETS_COUNT 16
//verif:const MAX_ADDRESSABLE_BLOCKMAP_SIZE 600
//verif:const VANILLA_BM_OFFSET_TOO_BIG 70
//verif:const ANYPORT_BM_OFFSET_TOO_BIG 90

// The choice among blockmaps with different offsets.

type vBmCand struct {
	x, y int
	bm   *Blockmap
	data []byte
}

// vBmLevel draws a level; line 0 may be a long one and some lines are tagged to
// be left out.  Returned: lines, bounds of what counts (relative to x0, y0)
func vBmLevel(rnd func(n int) int, x0, y0 int) (m *vLev, minX, minY, maxX, maxY int) {
	w, h := 2+rnd(5), 2+rnd(5)
	art, kinds := vDraw(rnd, w, h, 5, rnd(2)*3)
	if kinds < 1 {
		return nil, 0, 0, 0, 0
	}
	sizes := []int{64, 100, 40, 127, 128, 90, 30}
	ox, oy := []int{0}, []int{0}
	xs, ys := []int{x0}, []int{y0}
	for i := 0; i < w; i++ {
		ox = append(ox, ox[i]+sizes[rnd(7)])
		xs = append(xs, x0+ox[i+1])
	}
	for i := 0; i < h; i++ {
		oy = append(oy, oy[i]+sizes[rnd(7)])
		ys = append(ys, y0+oy[i+1])
	}
	m = vGrid(xs, ys, art, rnd(3) > 0)
	if rnd(3) == 0 {
		m.lines[rnd(len(m.lines))].Tag = 999
	}
	if rnd(4) == 0 {
		m.lines[0].Tag = 999
	}
	minX, minY, maxX, maxY = 1<<20, 1<<20, -1<<20, -1<<20
	for _, l := range m.lines {
		if l.Tag == 999 {
			continue
		}
		for _, v := range []uint16{l.StartVertex, l.EndVertex} {
			x, y := ox[m.gx[v]], oy[m.gy[v]]
			minX, minY, maxX, maxY = vMin(minX, x), vMin(minY, y), vMax(maxX, x), vMax(maxY, y)
		}
	}
	if maxX < minX {
		return nil, 0, 0, 0, 0
	}
	return
}

// vBmClass: 0 works everywhere, 1 not in the original game, 2 nowhere
func vBmClass(bm *Blockmap) int {
	if bm.tooBigForUint16 {
		return 2
	}
	if bm.tooBigForVanilla {
		return 1
	}
	return 0
}

func vBmEncodeAs(bm *Blockmap, subset int) []byte {
	if subset == BSUBSET_NOCOMPRESSION {
		return bm.GetBytes()
	}
	return bm.GetBytesArcane(subset)
}

// vBmOrder: is a better than b, all ties included
func vBmOrder(a, b *vBmCand, preferZero bool) int {
	if d := vBmClass(b.bm) - vBmClass(a.bm); d != 0 {
		return d
	}
	if d := len(b.data) - len(a.data); d != 0 {
		return d
	}
	if preferZero {
		za, zb := a.bm.zeroLinedef == 0, b.bm.zeroLinedef == 0
		if za && !zb {
			return 1
		}
		if zb && !za {
			return -1
		}
	}
	return 0
}

// vBmGen builds the blockmap of a level under the present configuration and
// compares it with what the documentation says is to be chosen
func vBmGen(m *vLev, minX, minY, maxX, maxY, x0, y0, cutX, cutY int) {
	lines := &DoomLinedefs{linedefs: m.lines, vertices: m.verts}
	vBmGenLines(lines, m.sectors, m.sides, vBmShort(m, 0), minX, minY, maxX, maxY, x0, y0, cutX, cutY, nil)
}

func vBmGenLines(lines *DoomLinedefs, sectors []Sector, sides []Sidedef, short bool, minX, minY, maxX, maxY, x0, y0, cutX, cutY int, only func(all, good []*vBmCand) bool) {
	bounds := LevelBounds{Xmin: int16(x0 + minX), Ymin: int16(y0 + minY), Xmax: int16(x0 + maxX), Ymax: int16(y0 + maxY)}
	plain := BlockmapInput{lines: lines, bounds: LevelBounds{Xmin: -5, Ymin: -7, Xmax: 5, Ymax: 11},
		XOffset: config.BlockmapXOffset, YOffset: config.BlockmapYOffset, useZeroHeader: config.UseZeroHeader}
	zero0 := config.UseZeroHeader && !config.ZeroHeaderIsZero && short
	cand := func(ox, oy, subset int) *vBmCand {
		in := plain
		in.bounds = bounds
		in.XOffset, in.YOffset = int16(ox), int16(oy)
		in.revertibleToZero = zero0
		bm := CreateBlockmap(&in)
		d := vBmEncodeAs(bm, subset)
		return &vBmCand{ox, oy, bm, d}
	}
	// offsets to be tried, in order
	fx, fy := int(config.BlockmapXOffset), int(config.BlockmapYOffset)
	var offs [][2]int
	blocks := func(from, to int) int { return (to-from)>>7 + 1 }
	switch config.BlockmapOffsetMode {
	case BM_OFFSET_FIXED:
		if fx > cutX || fy > cutY {
			fx, fy = 0, 0
		}
		offs = append(offs, [2]int{fx, fy})
	case BM_OFFSET_THIRTYSIX:
		for y := 0; y <= 40; y += 8 {
			for x := 0; x <= 40; x += 8 {
				offs = append(offs, [2]int{x, y})
			}
		}
	default:
		xb, yb := blocks(minX, maxX), blocks(minY, maxY)
		square := xb*100 < yb*115 && xb*100 > yb*85
		for y := 0; y <= cutY; y++ {
			for x := 0; x <= cutX; x++ {
				if config.BlockmapOffsetMode == BM_OFFSET_HEURISTIC && !square &&
					blocks(minX-x, maxX) > xb && blocks(minY-y, maxY) > yb {
					continue
				}
				offs = append(offs, [2]int{x, y})
			}
		}
	}
	sx, sy := 0, 0
	if config.BlockmapOffsetMode == BM_OFFSET_FIXED {
		sx, sy = fx, fy
	}
	// kind of compression
	goal := 0 // worst class that does
	if config.BlockmapSearchAbortion == BM_OFFSET_FITS_ANYPORT {
		goal = 1
	}
	subset := BSUBSET_NOCOMPRESSION
	if config.SubsetCompressBlockmap {
		subset = BSUBSET_PROPER_COMPRESSION
		if config.AggressiveSubsets {
			subset = BSUBSET_AGGRESSIVE_ELIMINATION
		}
	}
	early := false // found while looking for the kind of compression
	cond := config.BlockmapTryConditionally
	if cond != 0 && subset != BSUBSET_AGGRESSIVE_ELIMINATION && !(subset == BSUBSET_PROPER_COMPRESSION && cond&BM_TRYCOND_AGGRESSIVE_SUBSET_ELIMINATION == 0) {
		tries := []int{subset}
		if subset == BSUBSET_NOCOMPRESSION && cond&BM_TRYCOND_PROPER_SUBSET_COMPRESSION != 0 {
			tries = append(tries, BSUBSET_PROPER_COMPRESSION)
		}
		if cond&BM_TRYCOND_AGGRESSIVE_SUBSET_ELIMINATION != 0 {
			tries = append(tries, BSUBSET_AGGRESSIVE_ELIMINATION)
		}
		for _, s := range tries {
			subset = s
			if vBmClass(cand(sx, sy, s).bm) <= goal {
				early = true
				break
			}
		}
	}
	// the best of them
	var all, good []*vBmCand
	var best, first *vBmCand
	for _, o := range offs {
		c := cand(o[0], o[1], subset)
		all = append(all, c)
		if best == nil || vBmOrder(c, best, zero0) > 0 {
			best = c
		}
		if vBmClass(c.bm) <= goal {
			good = append(good, c)
		}
		if first == nil && vBmClass(c.bm) <= goal {
			first = c
		}
	}
	if only != nil && !only(all, good) {
		return
	}
	// run
	out := make(chan []byte, 4)
	BlockmapGenerator(plain, out, FORMAT_DOOM, sectors, sides)
	vAssert(len(out) == 1, "not-exactly-one-blockmap")
	got := <-out
	if config.BlockmapSearchAbortion != BM_OFFSET_NOABORT && first != nil {
		vReach("endgoal")
		if config.Deterministic || config.BlockmapOffsetMode == BM_OFFSET_FIXED || early {
			vAssert(vSameBytes(got, first.data), "not-the-first-good-enough")
			return
		}
		ok := false
		for _, c := range all {
			ok = ok || vBmClass(c.bm) <= goal && len(got) == len(c.data) && vConcreteBool(vSameBytes(got, c.data))
		}
		vAssert(ok, "not-good-enough")
		return
	}
	if vBmClass(best.bm) == 2 {
		vReach("none-works")
		vAssert(len(got) == 0, "unusable-blockmap-not-emptied")
		return
	}
	vReach("best")
	if config.Deterministic || config.BlockmapOffsetMode == BM_OFFSET_FIXED {
		vAssert(vSameBytes(got, best.data), "not-the-best")
		return
	}
	ok := false
	for _, c := range all {
		ok = ok || vBmOrder(c, best, zero0) == 0 && len(got) == len(c.data) && vConcreteBool(vSameBytes(got, c.data))
	}
	vAssert(ok, "not-the-best")
}

// vBmShort: may the line be the dummy in all lists
func vBmShort(m *vLev, i int) bool {
	l := m.lines[i]
	if l.Tag == 999 {
		return false
	}
	dx := m.vx[l.EndVertex] - m.vx[l.StartVertex]
	dy := m.vy[l.EndVertex] - m.vy[l.StartVertex]
	return vConcreteBool(vAnd(vAbs(dx) < 2000, vAbs(dy) < 2000))
}

func vBmSettings(rnd func(n int) int) {
	vConfig()
	config.SubsetCompressBlockmap = rnd(3) == 0
	config.AggressiveSubsets = config.SubsetCompressBlockmap && rnd(2) == 0
	config.UseZeroHeader = rnd(3) > 0
	config.ZeroHeaderIsZero = rnd(3) == 0
	config.Deterministic = rnd(2) == 0
	config.BlockmapThreads = int16(1 + rnd(4))
	config.BlockmapSearchAbortion = rnd(3)
	if rnd(3) == 0 {
		config.BlockmapTryConditionally = rnd(4)
	}
}

//verif:prop C18
//verif:reach endgoal none-works best
//verif:steps 400000000
//verif:bound 400 drawn levels anywhere on the map, settings chosen by level; fixed offset or the best of 36; limits at 70 and 90 words
func H_BmGen() {
	k := vPick("level", 400)
	rnd := vRandom(k)
	vBmSettings(rnd)
	config.BlockmapOffsetMode = BM_OFFSET_THIRTYSIX
	if rnd(4) == 0 {
		config.BlockmapOffsetMode = BM_OFFSET_FIXED
		config.BlockmapXOffset, config.BlockmapYOffset = int16(rnd(128)), int16(rnd(128))
	}
	place := func(name string) int {
		switch rnd(3) {
		case 0:
			return vInt(name, -32768+127, 0)
		case 1:
			return vInt(name, -16000, 16000)
		}
		return vInt(name, 0, 31000)
	}
	x0, y0 := place("x0"), place("y0")
	m, a, b, c, d := vBmLevel(rnd, x0, y0)
	if m == nil {
		return
	}
	vBmGen(m, a, b, c, d, x0, y0, 127, 127)
}

//verif:prop C18
//verif:reach endgoal none-works best
//verif:steps 400000000
//verif:bound 100 drawn levels in the corner of the map, where few offsets are possible: all of them, the heuristic, or fixed ones
func H_BmGenEdge() { vBmEdge(vPick("level", 100)) }

//verif:prop C18
//verif:tier thorough
//verif:reach endgoal none-works best
//verif:steps 400000000
//verif:bound 800 drawn levels in the corner of the map, where few offsets are possible: all of them, the heuristic, or fixed ones
func H_BmGenEdgeAll() { vBmEdge(vPick("level", 800)) }

func vBmEdge(k int) {
	rnd := vRandom(k + 1000)
	vBmSettings(rnd)
	config.BlockmapOffsetMode = []int{BM_OFFSET_FIXED, BM_OFFSET_BRUTEFORCE, BM_OFFSET_HEURISTIC}[rnd(3)]
	if config.BlockmapOffsetMode == BM_OFFSET_FIXED {
		config.BlockmapXOffset, config.BlockmapYOffset = int16(rnd(128)), int16(rnd(128))
	}
	ex, ey := rnd(7), rnd(7)
	switch rnd(4) {
	case 0:
		ex = 60 + rnd(100)
		ey = rnd(2)
	case 1:
		ey = 60 + rnd(100)
		ex = rnd(2)
	}
	vBmCorner(k, ex, ey)
}

// vBmCorner: the part of the level that counts begins ex, ey above the lowest
// coordinates there are
func vBmCorner(k, ex, ey int) {
	m, a, b, c, d := vBmLevel(vRandom(k), 0, 0)
	if m == nil {
		return
	}
	x0, y0 := -32768+ex-a, -32768+ey-b
	if x0 < -32768 {
		x0, ex = -32768, a
	}
	if y0 < -32768 {
		y0, ey = -32768, b
	}
	m, a, b, c, d = vBmLevel(vRandom(k), x0, y0)
	vBmGen(m, a, b, c, d, x0, y0, vMin(ex, 127), vMin(ey, 127))
}

// vBmStraddle: lines that move to another block at offset 1 or 2, so that lists
// are joined or split there, and as many others as bring the last list's offset
// near the limit
func vBmStraddle(rnd func(n int) int, x0, y0, ex, ey int) *DoomLinedefs {
	l := &DoomLinedefs{}
	line := func(x, y, dx, dy int) {
		n := uint16(len(l.vertices))
		l.vertices = append(l.vertices, Vertex{XPos: int16(x0 + x), YPos: int16(y0 + y)}, Vertex{XPos: int16(x0 + x + dx), YPos: int16(y0 + y + dy)})
		l.linedefs = append(l.linedefs, Linedef{StartVertex: n, EndVertex: n + 1, BackSdef: SIDEDEF_NONE})
	}
	line(0, 0, 2, 3)
	for i := 3 + rnd(5); i > 0; i-- {
		t := 1 + rnd(vMax(ex, ey))
		a, b := 128-t, 128-t-10
		if rnd(2) == 0 {
			b = 136
		}
		bx, by := rnd(2)*128, rnd(2)*128
		other := 20 + rnd(60)
		if rnd(2) == 0 {
			line(bx+a, by+other, 0, 2)
			line(bx+b, by+other+3, 0, 2)
		} else {
			line(bx+other, by+a, 2, 0)
			line(bx+other+3, by+b, 2, 0)
		}
	}
	line(298, 300, 2, 0)
	lo, hi := 1000, 0
	for x := 0; x <= ex; x++ {
		for y := 0; y <= ey; y++ {
			bm := CreateBlockmap(&BlockmapInput{lines: l, bounds: LevelBounds{Xmin: int16(x0), Ymin: int16(y0), Xmax: int16(x0 + 300), Ymax: int16(y0 + 300)}, XOffset: int16(x), YOffset: int16(y)})
			bm.GetBytes()
			lo, hi = vMin(lo, int(bm.largestOffset)), vMax(hi, int(bm.largestOffset))
		}
	}
	limit := VANILLA_BM_OFFSET_TOO_BIG
	if config.BlockmapSearchAbortion == BM_OFFSET_FITS_ANYPORT {
		limit = ANYPORT_BM_OFFSET_TOO_BIG
	}
	if config.BlockmapSearchAbortion == BM_OFFSET_NOABORT {
		limit = lo
	}
	for n := limit - lo - rnd(hi-lo+2); n > 0; n-- {
		// the longest list comes last and does not count
		line(0, 0, 2, 3)
		line(298, 300, 2, 0)
	}
	return l
}

// levels drawn by vBmStraddle with several good offsets, the first of them
// larger or smaller than others, or not all in one row
var vBmOrders = []int{10, 314, 640, 868, 999, 1709, 2158, 2589, 2966}

//verif:prop C18
//verif:reach endgoal
//verif:steps 400000000
//verif:retry 100
//verif:bound 9 levels in the corner of the map with 4 offsets, some of which are good enough; 2 goroutines in every order of their communication
func H_BmGenOrder() { vBmOrderRun(vBmOrders[vPick("level", len(vBmOrders))], 1, 1, 2, 0) }

//verif:prop C18
//verif:reach best
//verif:steps 400000000
//verif:retry 100
//verif:bound 8 levels in the corner of the map with 4 offsets; no goal; 2 goroutines in every order of their communication
func H_BmGenOrderBest() { vBmOrderRun(100+vPick("level", 8), 1, 1, 2, 1) }

func vBmOrderRun(k, ex, ey, threads, what int) {
	rnd := vRandom(k + 5000)
	vBmSettings(rnd)
	config.BlockmapThreads = int16(threads)
	config.BlockmapTryConditionally = 0
	config.SubsetCompressBlockmap = false
	config.UseZeroHeader = false
	config.BlockmapOffsetMode = BM_OFFSET_BRUTEFORCE
	config.BlockmapSearchAbortion = 1 + rnd(2)
	config.Deterministic = rnd(8) > 0
	if what == 1 {
		config.BlockmapSearchAbortion = BM_OFFSET_NOABORT
	}
	l := vBmStraddle(rnd, -32768+ex, -32768+ey, ex, ey)
	vBmGenLines(l, []Sector{{}}, []Sidedef{{}}, true, 0, 0, 300, 300, -32768+ex, -32768+ey, ex, ey, func(all, good []*vBmCand) bool {
		vSchedules(0)
		return true
	})
}
