package main

// Levels with more blocks than can be numbered in 16 bits get no blockmap; nor
// do they upset the program.

//verif:prop C18
//verif:reach huge
//verif:steps 4000000000
//verif:bound a triangle 33200 or 40000 units wide and high, anywhere on the map; 36 offsets, the goal of any port, or fixed offset
func H_BmHuge() {
	vConfig()
	k := vPick("way", 3)
	config.BlockmapThreads = 1
	size := []int{33200, 40000, 33200}[k]
	config.BlockmapOffsetMode = []int{BM_OFFSET_THIRTYSIX, BM_OFFSET_FIXED, BM_OFFSET_FIXED}[k]
	config.UseZeroHeader = k == 1
	x0, y0 := vInt("x0", -32768+127, -32768+127+500), vInt("y0", -32768+127, -32768+127+500)
	v := func(x, y int) Vertex { return Vertex{XPos: int16(x0 + x), YPos: int16(y0 + y)} }
	lines := &DoomLinedefs{
		vertices: []Vertex{v(0, 0), v(0, size), v(size, 0)},
		linedefs: []Linedef{{StartVertex: 0, EndVertex: 1, BackSdef: SIDEDEF_NONE}, {StartVertex: 1, EndVertex: 2, BackSdef: SIDEDEF_NONE}, {StartVertex: 2, EndVertex: 0, BackSdef: SIDEDEF_NONE}},
	}
	out := make(chan []byte, 4)
	BlockmapGenerator(BlockmapInput{lines: lines, useZeroHeader: config.UseZeroHeader}, out, FORMAT_DOOM, []Sector{{}}, []Sidedef{{}})
	vAssert(len(out) == 1, "not-exactly-one-blockmap")
	vAssert(len(<-out) == 0, "unusable-blockmap-not-emptied")
	vReach("huge")
}
