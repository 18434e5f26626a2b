package main

func vVmapNodes() *NodesWork {
	return &NodesWork{mlog: CreateMiniLogger()}
}

// the bounds taken from lines are those of their ends, and the vertex map
// filled from them knows every end
//
//verif:prop C13
//verif:bound two lines with any ends within 300 units
func H_LineBounds() {
	verts := []Vertex{}
	base := vInt("base", -30000, 30000)
	for i := 0; i < 4; i++ {
		verts = append(verts, Vertex{XPos: int16(base + vInt("x", 0, 300)), YPos: int16(base + 500 + vInt("y", 0, 300))})
	}
	lines := &DoomLinedefs{
		linedefs: []Linedef{
			{StartVertex: 0, EndVertex: 1, FrontSdef: 0, BackSdef: SIDEDEF_NONE},
			{StartVertex: 2, EndVertex: 3, FrontSdef: 0, BackSdef: SIDEDEF_NONE},
		},
		vertices: verts,
	}
	b := GetLineBounds(lines)
	xmin, xmax, ymin, ymax := 99999, -99999, 99999, -99999
	for _, v := range verts {
		xmin, xmax = vMin(xmin, int(v.XPos)), vMax(xmax, int(v.XPos))
		ymin, ymax = vMin(ymin, int(v.YPos)), vMax(ymax, int(v.YPos))
	}
	vAssert(b.Xmin == xmin && b.Xmax == xmax && b.Ymin == ymin && b.Ymax == ymax, "bounds-of-lines")
}

// symbolic ends, one vertex map
//
//verif:prop C13
//verif:bound two lines in 4 layouts, any position; lookups up to 5/65536 units off
//verif:reach populated
func H_VertexMapLines() {
	verts := []Vertex{}
	base := vInt("base", -2000, 2000)
	xs := [][]int{{0, 254, 300, 0}, {5, 5, 259, 256}}[vPick("xs", 2)]
	ys := [][]int{{0, 254, 30, 40}, {1, 255, 256, 3}}[vPick("ys", 2)]
	for i := range xs {
		verts = append(verts, Vertex{XPos: int16(base + xs[i]), YPos: int16(base + 3000 + ys[i])})
	}
	lines := &DoomLinedefs{
		linedefs: []Linedef{
			{StartVertex: 0, EndVertex: 1, FrontSdef: 0, BackSdef: SIDEDEF_NONE},
			{StartVertex: 2, EndVertex: 3, FrontSdef: 0, BackSdef: SIDEDEF_NONE},
		},
		vertices: verts,
	}
	b := GetLineBounds(lines)
	vm := CreateVertexMap(vVmapNodes(), b.Xmin, b.Ymin, b.Xmax, b.Ymax)
	PopulateVertexMapFromLines(vm, lines)
	vReach("populated")
	zb := GetLineBounds(lines)
	zm := ZExt_CreateVertexMap(&ZExt_NodesWork{mlog: CreateMiniLogger()}, zb.Xmin, zb.Ymin, zb.Xmax, zb.Ymax)
	ZExt_PopulateVertexMapFromLines(zm, lines)
	k := vPick("end", 4)
	x, y := float64(verts[k].XPos), float64(verts[k].YPos)
	n, zn := vVmapCount(vm), vZVmapCount(zm)
	f := vm.SelectVertexExact(x, y, 77)
	vAssert(f.X == x && f.Y == y && f.Id == k/2, "end-unknown-to-vertex-map")
	vAssert(vVmapCount(vm) == n, "end-inserted-again")
	z := zm.SelectVertexExact(x, y, 77)
	vAssert(float64(z.X) == x && float64(z.Y) == y && z.Id == k/2, "end-unknown-to-vertex-map")
	vAssert(vZVmapCount(zm) == zn, "end-inserted-again")
	// close lookup, also from the next block
	d := float64(vInt("dx", -5, 5)) / 65536
	e := float64(vInt("dy", -5, 5)) / 65536
	c := vm.SelectVertexClose(x+d, y+e)
	vAssert(c.X == x && c.Y == y, "close-vertex-not-found")
	zc := zm.SelectVertexClose(x+d, y+e)
	vAssert(float64(zc.X) == x && float64(zc.Y) == y, "close-vertex-not-found")
	// a vertex nowhere near is a new one, once
	far := vm.SelectVertexClose(x+0.5, y+0.25)
	vAssert(far.X == x+0.5 && far.Y == y+0.25, "far-vertex-merged")
	vAssert(vm.SelectVertexClose(x+0.5, y+0.25) == far, "new-vertex-twice")
}

func vVmapCount(vm *VertexMap) (n int) {
	for _, g := range vm.Grid {
		n += len(g)
	}
	return
}

func vZVmapCount(vm *ZExt_VertexMap) (n int) {
	for _, g := range vm.Grid {
		n += len(g)
	}
	return
}

// vertices next to the corner of four blocks are found from every block, and
// are forgotten when a snapshot is restored
//
//verif:prop C13
//verif:bound one vertex up to 12/65536 units off a block corner, looked up from up to 9/65536 units off; before or after a snapshot
func H_VertexMapCorner() {
	base := vInt("base", -2000, 2000)
	vm := CreateVertexMap(vVmapNodes(), base, base+3000, base+600, base+3600)
	i, j := vInt("i", -12, 12), vInt("j", -12, 12)
	k, l := vInt("k", -9, 9), vInt("l", -9, 9)
	cx, cy := float64(base+254), float64(base+3254) // the blocks have a margin of 2
	x, y := cx+float64(i)/65536, cy+float64(j)/65536
	snap := vPick("snapshot", 3)
	if snap == 1 {
		vm.RestoreOrBeginSnapshot()
	}
	v := vm.SelectVertexClose(x, y)
	vAssert(v.X == x && v.Y == y && v.Id == -1, "new-vertex")
	v.Id = 5
	if snap == 2 {
		vm.RestoreOrBeginSnapshot()
	}
	w := vm.SelectVertexClose(x+float64(k)/65536, y+float64(l)/65536)
	near := vAnd(vAnd(k > -6, k < 6), vAnd(l > -6, l < 6))
	vAssert((w == v) == near, "found-iff-close")
	if snap == 0 {
		return
	}
	vm.RestoreOrBeginSnapshot()
	if snap == 1 {
		vAssert(vVmapCount(vm) == 0, "vertex-survives-snapshot")
		vAssert(vm.SelectVertexExact(x, y, 9).Id == 9, "vertex-survives-snapshot")
	} else {
		vAssert(vm.SelectVertexExact(x, y, 9) == v, "vertex-lost")
		n := vm.SelectVertexExact(x+float64(k)/65536, y+float64(l)/65536, 10)
		vAssert(vOr(vAnd(k == 0, l == 0), n.Id == 10), "vertex-survives-snapshot")
	}
}
