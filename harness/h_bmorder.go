package main

// Which of two blockmaps is better, and which offsets are possible.

func vBmAny(name string) *Blockmap {
	bm := &Blockmap{}
	bm.tooBigForVanilla = vBool(name + ".vanilla")
	bm.tooBigForUint16 = vBool(name + ".any")
	vAssume(vImp(bm.tooBigForUint16, bm.tooBigForVanilla))
	bm.zeroLinedef = vU16(name + ".zero")
	bm.header.XMin = vI16(name + ".x")
	bm.header.YMin = vI16(name + ".y")
	return bm
}

//verif:prop C18
//verif:reach better worse
//verif:bound any two blockmaps, lengths up to 5 bytes
func H_BmBetter() {
	vConfig()
	config.Deterministic = vBool("deterministic")
	a, b := vBmAny("new"), vBmAny("old")
	na, nb := vPick("length", 6), vInt("old.length", 0, 5)
	zero := vBool("preferZero")
	class := func(bm *Blockmap) int {
		return vIte(bm.tooBigForUint16, 2, vIte(bm.tooBigForVanilla, 1, 0))
	}
	ca, cb := class(a), class(b)
	z := func(bm *Blockmap) int { return vIte(vAnd(zero, bm.zeroLinedef == 0), 0, 1) }
	pos := func(bm *Blockmap) int {
		return vIte(config.Deterministic, -int(bm.header.YMin)*65536-int(bm.header.XMin), 0)
	}
	want := ca < cb
	want = vOr(want, vAnd(ca == cb, na < nb))
	want = vOr(want, vAnd(vAnd(ca == cb, na == nb), z(a) < z(b)))
	want = vOr(want, vAnd(vAnd(vAnd(ca == cb, na == nb), z(a) == z(b)), pos(a) < pos(b)))
	got := IsBlockmapBetter(make([]byte, na), a, nb, b, zero)
	vAssert(vImp(want, got), "better-one-not-taken")
	vAssert(vImp(got, want), "worse-one-taken")
	if got {
		vReach("better")
	} else {
		vReach("worse")
	}
}

//verif:prop C18
//verif:reach moved reset
//verif:bound a triangle of any place up to 300 units from a lower edge of the map, any fixed offset along it
func H_BmFixed() {
	vConfig()
	config.BlockmapOffsetMode = BM_OFFSET_FIXED
	ox, oy := 77, 30
	ex, ey := 77, 200
	if vPick("axis", 2) == 0 {
		ox, ex = vInt("o", 0, 127), vInt("e", 0, 300)
	} else {
		oy, ey = vInt("o", 0, 127), vInt("e", 0, 300)
	}
	config.BlockmapXOffset, config.BlockmapYOffset = int16(ox), int16(oy)
	x0, y0 := -32768+ex, -32768+ey
	fits := vConcreteBool(vAnd(x0-ox >= -32768, y0-oy >= -32768))
	v := func(x, y int) Vertex { return Vertex{XPos: int16(x0 + x), YPos: int16(y0 + y)} }
	lines := &DoomLinedefs{
		vertices: []Vertex{v(0, 0), v(0, 100), v(90, 0)},
		linedefs: []Linedef{{StartVertex: 0, EndVertex: 1, BackSdef: SIDEDEF_NONE}, {StartVertex: 1, EndVertex: 2, BackSdef: SIDEDEF_NONE}, {StartVertex: 2, EndVertex: 0, BackSdef: SIDEDEF_NONE}},
	}
	out := make(chan []byte, 4)
	BlockmapGenerator(BlockmapInput{lines: lines, XOffset: int16(ox), YOffset: int16(oy)}, out, FORMAT_DOOM, []Sector{{}}, []Sidedef{{}})
	vAssert(len(out) == 1, "not-exactly-one-blockmap")
	d := <-out
	vAssert(len(d) >= 8+2, "no-blockmap")
	word := func(i int) int { return int(int16(uint16(d[i]) | uint16(d[i+1])<<8)) }
	wx, wy := x0, y0
	if fits {
		wx, wy = x0-ox, y0-oy
	}
	vAssert(vAnd(word(0) == wx, word(2) == wy), "wrong-origin")
	vAssert(vAnd(word(4) == (x0+90-wx)/128+1, word(6) == (y0+100-wy)/128+1), "wrong-size")
	if fits {
		vReach("moved")
	} else {
		vReach("reset")
	}
}
