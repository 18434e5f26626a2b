package main

// Levels on a grid whose node trees are built and checked as a whole.

//verif:prop C10
//verif:bound grid levels (list vArts: rooms, holes, islands, rings) of up to 3x3 cells, any position, any cell sizes 2..40, picker 0
//verif:splitptr
func H_BspP0() { vBspRun(0, 2, 40, vNodesInput()) }

//verif:prop C10
//verif:bound as H_BspP0 with picker 1
//verif:splitptr
func H_BspP1() { vBspRun(1, 2, 40, vNodesInput()) }

//verif:prop C10
//verif:bound as H_BspP0 with picker 3
//verif:splitptr
func H_BspP3() { vBspRun(3, 2, 40, vNodesInput()) }

//verif:prop C10
//verif:bound as H_BspP0 with picker 4
//verif:splitptr
func H_BspP4() { vBspRun(4, 2, 40, vNodesInput()) }

//verif:prop C10
//verif:bound partition factors from a list, 5 levels as in H_BspP0
//verif:splitptr
func H_BspOptFactor() {
	in := vNodesInput()
	in.pickNodeFactor = vInt("factor", 1, 40)
	in.diagonalPenalty = 34 * vPick("diagonal", 2)
	vBspOpt([]int{0, 1, 4}[vPick("algo", 3)], in)
}

//verif:prop C10
//verif:bound secondary preferences, 5 levels as in H_BspP0
//verif:splitptr
func H_BspOptMinor() {
	in := vNodesInput()
	in.minorIsBetterUser = vPick("minor", 5)
	in.depthArtifacts = vPick("artifacts", 2) == 1
	vBspOpt([]int{1, 4}[vPick("algo", 2)], in)
}

//verif:prop C10
//verif:bound settings for detail and depth artifacts, 5 levels as in H_BspP0
//verif:splitptr
func H_BspOptDetail() {
	in := vNodesInput()
	in.detailFriendliness = vPick("detail", 4)
	in.cacheSideness = vPick("cache", 2) == 1
	vBspOpt([]int{0, 4}[vPick("algo", 2)], in)
}

//verif:prop C10
//verif:bound node creation with an explicit stack, levels as in H_BspP0
//verif:splitptr
func H_BspStk() {
	in := vNodesInput()
	in.stkNode = true
	in.width = -1
	vBspOpt([]int{0, 1, 3, 4}[vPick("algo", 4)], in)
}

//verif:prop C10
//verif:bound levels whose walls consist of several lines in a row
//verif:splitptr
func H_BspStraight() {
	in := vNodesInput()
	config.StraightNodes = true
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_DEEP}[vPick("format", 2)]
	vBspOpt(0, in)
}

//verif:prop C10
//verif:bound multi-tree modes with limited width, small levels
//verif:splitptr
func H_BspMT() {
	in := vNodesInput()
	in.multiTreeMode = MULTITREE_ROOT_ONLY
	in.specialRootMode = 1 + vPick("roots", 3)
	in.width = 1
	in.stkNode = vPick("stk", 2) == 1
	config.NodeThreads = 1
	config.SpeedTree = vPick("speedtree", 2) == 1
	vBspOpt([]int{0, 4}[vPick("algo", 2)], in)
}

// levels with unusual lines
func vOddMap(k int) *vLev {
	lo, hi := 2, 40
	x0, y0 := vInt("x0", -2000, 1000), vInt("y0", -2000, 1000)
	xs, ys := vCoords("x", x0, 4, lo, hi), vCoords("y", y0, 4, lo, hi)
	switch k {
	case 0: // a self-referencing sector inside a square
		m := vGrid([]int{xs[0], xs[4]}, []int{ys[0], ys[4]}, []string{"a"}, false)
		m.xs, m.ys = xs, ys
		m.vno = map[int]int{}
		m.line(1, 1, 1, 3, 0, 0)
		m.line(1, 3, 3, 3, 0, 0)
		m.line(3, 3, 3, 1, 0, 0)
		m.line(3, 1, 1, 1, 0, 0)
		for i := range m.gx[:4] { // the outer corners, for directions
			m.gx[i] *= 4
			m.gy[i] *= 4
		}
		return m
	case 1: // a two-sided line hanging in the middle of a room
		m := vGrid(xs[:4], ys[:4], []string{"aaa", "aaa", "aaa"}, true)
		m.line(1, 1, 2, 1, 0, 0)
		return m
	case 2: // a one-sided line hanging in the middle of a room, and one joined to the wall
		m := vGrid(xs[:4], ys[:4], []string{"aaa", "aaa", "aaa"}, true)
		m.line(1, 1, 1, 2, 0, -1)
		m.line(2, 2, 2, 3, 0, -1)
		return m
	case 3: // T junctions: unjoined lines meet joined ones
		m := vGrid(xs[:4], ys[:4], []string{"aab", "abb", "bbb"}, true)
		return m
	case 4: // two lines on top of each other
		m := vGrid(xs[:3], ys[:3], []string{"ab", "ab"}, true)
		m.line(1, 0, 1, 2, 1, 0)
		return m
	case 5: // sector tagged 900: subsectors may mix
		m := vGrid(xs[:4], ys[:3], []string{"aba", "abc"}, false)
		m.sectors[1].Tag = 900
		m.sectors[0].Tag = uint16(900 * vPick("both", 2))
		return m
	case 6: // precious line, zero-length line, unused vertex
		m := vGrid(xs[:4], ys[:4], []string{"aaa", "a.a", "aaa"}, false)
		m.lines[vPick("line", len(m.lines))].Tag = 900
		m.vertex(3, 1)
		return m
	}
	return nil
}

//verif:prop C10
//verif:bound levels with dangling, overlapping, zero-length lines, T junctions, self-referencing sectors
//verif:splitptr
func H_BspOdd() {
	in := vNodesInput()
	in.pickNodeUser = []int{0, 1, 3, 4}[vPick("algo", 4)]
	m := vOddMap(vPick("odd", 7))
	vBspBuild(m, in)
}

// ---- formats ----

//verif:prop C11
//verif:bound extended nodes, levels as in H_BspP0
//verif:splitptr
func H_FmtExt() {
	in := vNodesInput()
	in.nodeType = NODETYPE_ZDOOM_EXTENDED
	in.pickNodeUser = []int{0, 1, 3, 4}[vPick("algo", 4)]
	in.stkNode = vPick("stk", 2) == 1
	in.width = -1
	vBspBuild(vBspFmtMap(), in)
}

//verif:prop C11
//verif:bound DeeP nodes, levels as in H_BspP0
//verif:splitptr
func H_FmtDeep() {
	in := vNodesInput()
	in.nodeType = []int{NODETYPE_DEEP, NODETYPE_VANILLA_OR_DEEP, NODETYPE_VANILLA_RELAXED, NODETYPE_VANILLA_OR_ZEXTENDED}[vPick("format", 4)]
	in.stkNode = vPick("stk", 2) == 1
	in.width = -1
	in.pickNodeUser = []int{0, 4}[vPick("algo", 2)]
	config.NodeThreads = int16(1 + vPick("threads", 2))
	vBspBuild(vBspFmtMap(), in)
}

//verif:prop C11
//verif:bound polygons as in H_BspDiag in each format
//verif:splitptr
func H_FmtDiag() {
	in := vNodesInput()
	in.nodeType = []int{NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED}[vPick("format", 2)]
	in.pickNodeUser = []int{0, 1, 3, 4}[vPick("algo", 4)]
	vDiagRun(in, []int{12, 60, 420}[vPick("unit", 3)])
}

// ---- lines in any direction ----

//verif:prop C10
//verif:bound polygons with walls in many directions at fixed sizes, any position
//verif:splitptr
func H_BspDiag() {
	in := vNodesInput()
	in.pickNodeUser = []int{0, 1, 3, 4}[vPick("algo", 4)]
	vDiagRun(in, []int{12, 60, 420, 1260}[vPick("unit", 4)])
}

// ---- limits of the formats, shortened ----


// subsectors of these sizes, segs numbered in the order of subsectors; moving
// the largest one to the end makes all first segs addressable if anything does
//
//verif:prop C11
//verif:bound 12 lists of subsector sizes around 32768 and 65536 segs
//verif:reach fits moved hopeless
func H_FitSegs() {
	sizes := [][]int{{5, 65530, 8}, {65535, 1, 1}, {65530, 8, 4}, {8, 4, 65535}, {32760, 10, 32768, 5}, {32766, 3, 32767, 32767}, {10, 20, 32760, 30}, {32768, 32768, 6, 2}, {32767, 1, 1}, {40000, 40000}, {3, 65533, 65535, 2}, {2, 65533, 65535, 2}, {40000, 30000, 60000, 5}}[vPick("sizes", 13)]
	total, most := 0, 0
	w := &NodesWork{totals: &NodesTotals{}}
	for _, n := range sizes {
		w.subsectors = append(w.subsectors, SubSector{FirstSeg: uint16(total), SegCount: uint16(n)})
		total += n
		most = vMax(most, n)
	}
	w.totals.maxSegCountInSubsector = uint32(most)
	w.segs = make([]Seg, total)
	for i, k := 0, 0; i < len(sizes); i++ {
		// the ends of every subsector are marked
		w.segs[k] = Seg{Linedef: uint16(i + 1), Offset: 1}
		w.segs[k+sizes[i]-1].StartVertex = uint16(i + 1)
		k += sizes[i]
	}
	if w.tooManySegsCantFix(false) {
		vReach("hopeless")
		vAssert(total-most > 65535, "gives-up-although-it-fits")
		w.upgradeToDeep()
		vAssert(len(w.deepSegs) == total && len(w.deepSubsectors) == len(sizes), "segs-lost")
		at := 0
		for i, n := range sizes {
			s := w.deepSubsectors[i]
			vAssert(int(s.FirstSeg) == at && int(s.SegCount) == n, "subsector-range-deep")
			vAssert(w.deepSegs[at].Linedef == uint16(i+1) && w.deepSegs[at].Offset == 1 && w.deepSegs[at+n-1].StartVertex == uint32(i+1), "subsector-has-wrong-segs")
			at += n
		}
		return
	}
	vReach("fits")
	vAssert(len(w.segs) == total, "segs-lost")
	at := 0
	for i, n := range sizes {
		s := w.subsectors[i]
		vAssert(int(s.SegCount) == n, "size-changed")
		if int(s.FirstSeg) != at {
			vReach("moved")
		}
		vAssert(int(s.FirstSeg)+n <= total, "subsector-range")
		vAssert(w.segs[s.FirstSeg].Linedef == uint16(i+1) && w.segs[s.FirstSeg].Offset == 1, "subsector-has-wrong-segs")
		vAssert(w.segs[int(s.FirstSeg)+n-1].StartVertex == uint16(i+1), "subsector-has-wrong-segs")
		at += n
		if total-most <= 32767 {
			vAssert(s.FirstSeg <= 32767, "vanilla-limit-exceeded-needlessly")
		}
	}
}

// partition lines too long for the format are shortened in place
//
//verif:prop C10
//verif:bound partition segs of up to 65535 units length, any start point
//verif:reach kept shortened
func H_BspLongPartition() {
	ds := [][2]int{{32767, 1}, {32768, 0}, {0, -32769}, {40000, 20000}, {-60000, 45000}, {65535, 65535}, {-65535, 13107}, {33333, 11111}, {0, 65534}, {65534, -2}, {-32768, 32767}, {39999, -26666}, {50001, 3}}
	d := ds[vPick("d", len(ds))]
	x, y := vInt("x", -32768, 32767), vInt("y", -32768, 32767)
	vAssume(vAnd(vAnd(x+d[0] >= -32768, x+d[0] <= 32767), vAnd(y+d[1] >= -32768, y+d[1] <= 32767)))
	w := &NodesWork{mlog: CreateMiniLogger()}
	s := &NodeSeg{StartVertex: &NodeVertex{X: Number(x), Y: Number(y)}, EndVertex: &NodeVertex{X: Number(x + d[0]), Y: Number(y + d[1])}}
	w.SetNodeCoords(s, &NodeBounds{}, nil)
	vAssert(vAnd(vAnd(w.nodeDx >= -32768, w.nodeDx <= 32767), vAnd(w.nodeDy >= -32768, w.nodeDy <= 32767)), "partition-overflows")
	vAssert(vAnd(vAnd(w.nodeX >= -32768, w.nodeX <= 32767), vAnd(w.nodeY >= -32768, w.nodeY <= 32767)), "partition-overflows")
	vAssert(w.nodeDx*d[1] == w.nodeDy*d[0] && w.nodeDx*d[0]+w.nodeDy*d[1] > 0, "partition-turned")
	vAssert((w.nodeX-x)*d[1] == (w.nodeY-y)*d[0], "partition-moved-off-line")
	if w.nodeDx == d[0] && w.nodeDy == d[1] {
		vReach("kept")
	} else {
		vReach("shortened")
	}
}

// whatever partition is picked, two-sided lines are split off their middle
//
//verif:prop C10 C11
//verif:bound a pinwheel of 6x6 cells of 5, 9, 31 or 64 units, any position in two quadrants, 4 pickers, 2 formats
//verif:reach split
//verif:splitptr
func H_BspPinwheel() {
	in := vNodesInput()
	in.pickNodeFactor = 1
	k := vPick("run", 8)
	in.pickNodeUser = []int{0, 1, 0, 3, 4, 4, 1, 3}[k]
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED, NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED, NODETYPE_VANILLA}[k]
	art := []string{"aaaabc", "ddddbc", "hieebc", "hieebc", "hiffff", "higggg"}
	x, y := vInt("x0", 1024, 2000), vInt("y0", -2000, -1024)
	w := []int{5, 9, 31, 64}[vPick("w", 4)]
	m := vGrid([]int{x, x + 24, x + 24 + w, x + 56 + w, x + 72 + w, x + 104 + w, x + 125 + w}, []int{y, y + 20, y + 52, y + 62, y + 90, y + 120, y + 170}, art, true)
	b := vBspBuild(m, in)
	two := 0
	for _, s := range b.segs {
		if m.lines[s.line].BackSdef != SIDEDEF_NONE {
			two++
		}
	}
	n := 0
	for _, l := range m.lines {
		if l.BackSdef != SIDEDEF_NONE {
			n += 2
		}
	}
	if two > n {
		vReach("split")
	}
}

// vBspDrawn builds the nodes of a drawn level with settings that change from
// level to level
func vBspDrawn(k, w, h int) {
	rnd := vRandom(k)
	art, kinds := vDraw(rnd, w, h, 7, k%2*3)
	if kinds < 1 {
		return
	}
	in := vNodesInput()
	in.pickNodeUser = rnd(5)
	in.minorIsBetterUser = rnd(5)
	in.detailFriendliness = rnd(4)
	in.depthArtifacts = rnd(2) == 1
	in.cacheSideness = rnd(2) == 1
	in.pickNodeFactor = 1 + rnd(40)
	in.diagonalPenalty = 34 * rnd(2)
	in.stkNode = rnd(3) == 0
	if in.stkNode {
		in.width = -1
	}
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED}[rnd(3)]
	config.StraightNodes = rnd(4) == 0 && in.nodeType != NODETYPE_ZDOOM_EXTENDED
	sizes := []int{64, 16, 40, 88, 5, 31}
	x0, y0 := rnd(6000)-3000, rnd(6000)-3000
	if in.pickNodeUser != PICKNODE_VISPLANE_ADV && in.nodeType != NODETYPE_ZDOOM_EXTENDED {
		x0, y0 = vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	}
	xs, ys := []int{x0}, []int{y0}
	for i := 0; i < w; i++ {
		xs = append(xs, xs[i]+sizes[rnd(6)])
	}
	for i := 0; i < h; i++ {
		ys = append(ys, ys[i]+sizes[rnd(6)])
	}
	m := vGrid(xs, ys, art, rnd(3) > 0)
	m.loose = true
	vBspBuild(m, in)
}

//verif:prop C10 C11
//verif:bound 1000 drawn levels of 6x5 cells and up to 7 sectors, anywhere on the map (advanced visplane picker and extended nodes: one place each), settings and format chosen by level
//verif:splitptr
func H_BspDrawn() {
	vBspDrawn(vPick("level", 1000), 6, 5)
}

//verif:prop C10
//verif:bound 60 drawn levels of 16x12 cells, as H_BspDrawn
//verif:splitptr
//verif:steps 400000000
func H_BspDrawnBig() {
	vBspDrawn(100000+vPick("level", 60), 16, 12)
}

//verif:prop C10 C11
//verif:tier thorough
//verif:bound 15000 drawn levels of 6x5 cells, as H_BspDrawn
//verif:splitptr
func H_BspDrawnAll() {
	vBspDrawn(1000+vPick("level", 15000), 6, 5)
}

//verif:prop C10
//verif:tier thorough
//verif:bound 1000 drawn levels of 16x12 cells, as H_BspDrawn
//verif:splitptr
//verif:steps 400000000
func H_BspDrawnBigAll() {
	vBspDrawn(101000+vPick("level", 1000), 16, 12)
}
