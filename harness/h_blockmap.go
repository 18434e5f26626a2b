package main

const vBmN = 3 // blocks per side

// vSegInCell: the segment passes through cell (cx,cy), at least m/4 units away
// from its border.  A block holds the lattice points L..L+127; what lies between
// two neighbouring blocks belongs to the one the line comes from, so seen along
// the line a block spans [L,L+128) going up and (L-1,L+127] going down.
func vSegInCell(x1, y1, x2, y2, cx, cy, m int) bool {
	L := cx * 512
	B := cy * 512
	if x2-x1 < 0 {
		L -= 4
	}
	if y2-y1 < 0 {
		B -= 4
	}
	return vSegMeetsBoxScaled(4, x1, y1, x2, y2, L+m, B+m, L+512-m, B+512-m)
}

func vBmInput(lines AbstractLines, n int) *BlockmapInput {
	return &BlockmapInput{
		lines:           lines,
		bounds:          LevelBounds{Xmin: -200, Ymin: 1000, Xmax: int16(-200 + n*128 - 1), Ymax: int16(1000 + n*128 - 1)},
		internalPurpose: true,
	}
}

var vBmDeltas = []int{0, 1, -1, 3, -7, 100, -100, 128, -128, 129, -129, 200, -210, 256, -256, 300, -300, 383, -383}

var vBmDeltasMore = []int{0, 1, -1, 2, -2, 3, -3, 5, -7, 11, -17, 31, -37, 64, -64, 85, -90, 100, -100, 127, -127, 128, -128, 129, -129, 150, -171, 192, -192, 200, -210, 254, -254, 255, -255, 256, -256, 257, -257, 300, -300, 333, -340, 383, -383}

// vBmLine : a symbolic line inside the window
func vBmLine(deltas []int) (x1, y1, x2, y2 int) {
	w := vBmN * 128
	dx := deltas[vPick("dx", len(deltas))]
	dy := deltas[vPick("dy", len(deltas))]
	x1 = vInt("x1", 0, w-1)
	y1 = vInt("y1", 0, w-1)
	x2 = x1 + dx
	y2 = y1 + dy
	vAssume(vAnd(vAnd(x2 >= 0, x2 < w), vAnd(y2 >= 0, y2 < w)))
	return
}

func vBmRaster(deltas []int) {
	vConfig()
	x1, y1, x2, y2 := vBmLine(deltas)
	in := vBmInput(vOneLine(x1-200, y1+1000, x2-200, y2+1000), vBmN)
	bm := CreateBlockmap(in)
	vAssert(bm.header.XBlocks == vBmN && bm.header.YBlocks == vBmN, "blockmap-dimensions")
	missing, far := false, false
	for cy := 0; cy < vBmN; cy++ {
		for cx := 0; cx < vBmN; cx++ {
			n := len(bm.blocklist[cy*vBmN+cx])
			vAssert(n <= 1, "line-listed-twice-in-block")
			if n == 0 {
				missing = vOr(missing, vSegInCell(x1, y1, x2, y2, cx, cy, 1))
				missing = vOr(missing, vAnd(x1>>7 == cx, y1>>7 == cy))
				missing = vOr(missing, vAnd(x2>>7 == cx, y2>>7 == cy))
				vReach("miss")
			} else {
				vAssert(bm.blocklist[cy*vBmN+cx][0] == 0, "wrong-line-in-block")
				far = vOr(far, !vSegInCell(x1, y1, x2, y2, cx, cy, -5))
				vReach("hit")
			}
		}
	}
	vAssert(!missing, "line-missing-from-block")
	vAssert(!far, "line-in-far-block")
}

//verif:prop C08
//verif:tier quick
//verif:bound one line in a window of 3x3 blocks (384x384 map units); start point anywhere; x and y extent each one of 19 values (0, +-1, .., +-383, with equal extents for the 45-degree case); every block of the window
//verif:reach hit miss
func H_BmRaster() { vBmRaster(vBmDeltas) }

//verif:prop C08
//verif:tier thorough
//verif:bound as H_BmRaster with 45 values for each extent
//verif:reach hit miss
func H_BmRasterMore() { vBmRaster(vBmDeltasMore) }

func vBlockity(deltas []int) {
	vConfig()
	x1, y1, x2, y2 := vBmLine(deltas)
	in := vBmInput(vOneLine(-200, 1000, -200, 1000), vBmN)
	bm := CreateBlockmap(in)
	// block b lists line b and line 40; one block also lists line 65535
	for b := range bm.blocklist {
		bm.blocklist[b] = BlockLines{uint16(b), 40}
	}
	hard := vBool("holes")
	if hard {
		bm.blocklist[4] = nil
		bm.blocklist[1] = nil
		bm.blocklist[3] = BlockLines{65535, 3, 40}
	}
	it := GetBlockityLines(bm)
	if hard { // the iterator was used before
		if vBool("steep") {
			it.SetContext(-150, 1000, 0, 1300)
		} else {
			it.SetContext(-200, 1100, 100, 1200)
		}
		it.NextLine()
		it.NextLine()
		it.NextLine()
	}
	it.SetContext(x1-200, y1+1000, x2-200, y2+1000)
	got := map[uint16]bool{}
	n := 0
	for it.NextLine() {
		l := it.GetLine()
		vAssert(!got[l], "line-returned-twice")
		got[l] = true
		n++
		vAssert(n <= 12, "iteration-does-not-end")
	}
	vAssert(!it.NextLine(), "restarts-after-end")
	missing, far := false, false
	for b := 0; b < vBmN*vBmN; b++ {
		cx, cy := b%vBmN, b/vBmN
		for _, l := range bm.blocklist[b] {
			if !got[l] {
				missing = vOr(missing, vSegInCell(x1, y1, x2, y2, cx, cy, 1))
				missing = vOr(missing, vAnd(x1>>7 == cx, y1>>7 == cy))
				missing = vOr(missing, vAnd(x2>>7 == cx, y2>>7 == cy))
				vReach("miss")
			} else if int(l) == b {
				far = vOr(far, !vSegInCell(x1, y1, x2, y2, cx, cy, -5))
				vReach("hit")
			}
		}
	}
	vAssert(!missing, "line-on-path-not-returned")
	vAssert(!far, "line-off-path-returned")
}

//verif:prop C07
//verif:tier quick
//verif:bound one query segment in a window of 3x3 blocks, start anywhere, 19 values for each extent; blocks with distinct and shared lines, empty blocks, a line numbered 65535; fresh and reused iterator
//verif:reach hit miss
func H_Blockity() { vBlockity([]int{0, 1, -7, 100, 129, -129, 210, -210, 300}) }

//verif:prop C07
//verif:tier thorough
//verif:bound as H_Blockity with 45 values for each extent
//verif:reach hit miss
func H_BlockityMore() { vBlockity(vBmDeltasMore) }

//verif:prop C07
//verif:bound two row ranges (any columns) of a 2x2 block grid scanned in one pass; the blocks list three lines of any (possibly equal) numbers out of 0-19 or 65516-65535, at most one of the blocks is empty
//verif:reach in out
func H_BlockityRows() {
	vConfig()
	bm := CreateBlockmap(vBmInput(vOneLine(-200, 1000, -200, 1000), 2))
	base := vPick("high", 2) * 65516
	q := uint16(base + vInt("q", 0, 19))
	for b := range bm.blocklist {
		bm.blocklist[b] = BlockLines{q}
	}
	it := GetBlockityLines(bm)
	it.SetContextForReject()
	times := 0
	want := false
	ls := []uint16{uint16(base + vInt("line", 0, 19)), uint16(base + vInt("line", 0, 19)), uint16(base + vInt("line", 0, 19))}
	empty := vPick("empty", 5)
	for row := 0; row < 2; row++ {
		c1 := vPick("c1", 2)
		c2 := c1 + vPick("c2", 2-c1)
		for c := c1; c <= c2; c++ {
			bm.blocklist[row*2+c] = nil
			if row*2+c != empty {
				bm.blocklist[row*2+c] = BlockLines{ls[(row*2+c)%3]}
			}
			for _, l := range bm.blocklist[row*2+c] {
				want = vOr(want, l == q)
			}
		}
		it.SetSubcontextFromRow(row, c1, c2)
		for it.NextLine() {
			times += vIte(it.GetLine() == q, 1, 0)
		}
	}
	vAssert(times <= 1, "line-returned-twice")
	vAssert(vImp(want, times == 1), "line-on-path-not-returned")
	vAssert(vImp(!want, times == 0), "line-off-path-returned")
	if times == 1 {
		vReach("in")
	} else {
		vReach("out")
	}
}
