package main

// Lines that nothing can collide with are left out of the blockmap, if the user
// wants that; no others are.

type vRemLevel struct {
	lines    *DoomLinedefs
	sectors  []Sector
	sides    []Sidedef
	x0, y0   int
	ignore   []bool
	wall     int // a one-sided line
	divider  int // between the rooms
	loose    int // dangling in the left room
	inner    int // within the self-referencing sector
	rim      int // of its border
	dummy    int // of a fast scroller
	triangle int // of a triangle of lines in the left room
}

func (m *vRemLevel) at(x, y int) uint16 {
	p := Vertex{XPos: int16(m.x0 + x), YPos: int16(m.y0 + y)}
	for i, v := range m.lines.vertices {
		if vConcreteBool(vAnd(v.XPos == p.XPos, v.YPos == p.YPos)) {
			return uint16(i)
		}
	}
	m.lines.vertices = append(m.lines.vertices, p)
	return uint16(len(m.lines.vertices) - 1)
}

// line adds a line; back < 0: none
func (m *vRemLevel) line(x1, y1, x2, y2, front, back int) int {
	l := Linedef{StartVertex: m.at(x1, y1), EndVertex: m.at(x2, y2), Flags: 1, FrontSdef: uint16(len(m.sides)), BackSdef: SIDEDEF_NONE}
	m.sides = append(m.sides, Sidedef{Sector: uint16(front)})
	if back >= 0 {
		l.Flags = 4
		l.BackSdef = uint16(len(m.sides))
		m.sides = append(m.sides, Sidedef{Sector: uint16(back)})
	}
	m.lines.linedefs = append(m.lines.linedefs, l)
	m.ignore = append(m.ignore, false)
	return len(m.lines.linedefs) - 1
}

// Sectors: 0 left room, 1 right room, 2 self-referencing, within the right room
// or in its corner
func vRemMake(corner bool) *vRemLevel {
	m := &vRemLevel{lines: &DoomLinedefs{}, sectors: make([]Sector, 3)}
	m.x0, m.y0 = vInt("x0", 0, 20000), vInt("y0", -30000, -1000)
	for i := range m.sectors {
		m.sectors[i].CeilHeight = 128
	}
	m.wall = m.line(0, 0, 0, 160, 0, -1)
	m.line(0, 160, 100, 160, 0, -1)
	m.line(100, 160, 240, 160, 1, -1)
	if corner {
		m.line(240, 160, 240, 60, 1, -1)
		m.line(240, 60, 240, 0, 2, -1)
		m.line(240, 0, 160, 0, 2, -1)
		m.line(160, 0, 100, 0, 1, -1)
		m.rim = m.line(160, 0, 160, 60, 2, 2)
		m.line(240, 60, 160, 60, 2, 2)
		m.inner = m.line(160, 60, 240, 0, 2, 2)
	} else {
		m.line(240, 160, 240, 0, 1, -1)
		m.line(240, 0, 100, 0, 1, -1)
		m.rim = m.line(140, 40, 140, 120, 2, 2)
		m.line(200, 120, 140, 120, 2, 2)
		m.line(200, 120, 200, 40, 2, 2)
		m.line(140, 40, 200, 40, 2, 2)
		m.inner = m.line(140, 40, 200, 120, 2, 2)
	}
	m.line(100, 0, 0, 0, 0, -1)
	m.divider = m.line(100, 0, 100, 160, 0, 1)
	m.loose = m.line(20, 20, 60, 25, 0, 0)
	m.triangle = m.line(20, 100, 60, 100, 0, 0)
	m.line(60, 100, 40, 130, 0, 0)
	m.line(40, 130, 20, 100, 0, 0)
	m.dummy = m.line(70, 20, 80, 30, 0, 0)
	m.ignore[m.dummy] = true
	return m
}

// present: the lines that the blockmap lists
func (m *vRemLevel) present(hexen bool) []bool {
	in := BlockmapInput{linesToIgnore: m.ignore, bounds: LevelBounds{Xmin: int16(m.x0), Ymin: int16(m.y0), Xmax: int16(m.x0 + 240), Ymax: int16(m.y0 + 160)}}
	in.lines = m.lines
	format := FORMAT_DOOM
	if hexen {
		hl := &HexenLinedefs{vertices: m.lines.vertices, sidedefs: m.sides}
		for _, l := range m.lines.linedefs {
			hl.linedefs = append(hl.linedefs, HexenLinedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, Flags: l.Flags, Action: uint8(l.Action), FrontSdef: l.FrontSdef, BackSdef: l.BackSdef})
		}
		in.lines = hl
		format = FORMAT_HEXEN
	}
	out := make(chan []byte, 4)
	BlockmapGenerator(in, out, format, m.sectors, m.sides)
	d := <-out
	word := func(i int) int { return int(uint16(d[2*i]) | uint16(d[2*i+1])<<8) }
	r := make([]bool, len(m.lines.linedefs))
	n := vConcrete(word(2)) * vConcrete(word(3))
	for b := 0; b < n; b++ {
		for i := vConcrete(word(4 + b)); ; i++ {
			w := vConcrete(word(i))
			if w == 0xFFFF {
				break
			}
			vAssert(w < len(r), "no-such-line")
			r[w] = true
		}
	}
	return r
}

func vMultiSector(a int) bool {
	r := false
	for _, k := range []int{7, 8, 9, 100, 127, 106, 107, 256, 257, 258, 259, 146, 155, 191} {
		r = vOr(r, a == k)
	}
	return vOr(r, vAnd(a >= 0x3000, a <= 0x33FF))
}

func vRemConfig() {
	vConfig()
	config.BlockmapOffsetMode = BM_OFFSET_FIXED
	config.UseZeroHeader = false
	config.RemoveNonCollideable = true
}

// check: line i is listed iff keep says so; of the others exactly those are that
// have to be
func (m *vRemLevel) check(i int, keep bool, hexen bool) {
	got := m.present(hexen)
	for k, v := range m.ignore {
		// nodes and reject use this list, too
		vAssert(v == (k == m.dummy), "others-affected")
	}
	for k := range got {
		if k == i {
			vAssert(vImp(keep, got[k]), "line-missing")
			vAssert(vImp(got[k], keep), "line-not-removed")
			continue
		}
		switch k {
		case m.loose, m.inner, m.dummy:
			vAssert(!got[k], "line-not-removed")
		case m.divider:
		default:
			vAssert(got[k], "line-missing")
		}
	}
	if got[i] {
		vReach("kept")
	} else {
		vReach("removed")
	}
}

func vRemFlags(name string) (f int, blocks bool) {
	f = 4 + vInt(name, 0, 3) + 8*vInt(name+".other", 0, 511)
	return f, vConcreteBool(f&3 != 0)
}

//verif:prop C19
//verif:reach kept removed
//verif:bound a line between two rooms, with any flags and action; everything else in the level quiet
func H_RemDivider() {
	vRemConfig()
	m := vRemMake(vPick("corner", 2) == 1)
	f, blocks := vRemFlags("flags")
	a := int(vU16("action"))
	m.lines.linedefs[m.divider].Flags = uint16(f)
	m.lines.linedefs[m.divider].Action = uint16(a)
	m.check(m.divider, vOr(blocks, a != 0), false)
}

//verif:prop C19
//verif:reach kept removed
//verif:bound two rooms of any heights, tags and types, any action anywhere else in the level
func H_RemSectors() {
	vRemConfig()
	m := vRemMake(false)
	s, t := &m.sectors[0], &m.sectors[1]
	keep := false
	switch vPick("what", 5) {
	case 0:
		s.FloorHeight, t.FloorHeight = vI16("floor0"), vI16("floor1")
		keep = s.FloorHeight != t.FloorHeight
	case 1:
		s.CeilHeight, t.CeilHeight = vI16("ceiling0"), vI16("ceiling1")
		keep = s.CeilHeight != t.CeilHeight
	case 2:
		s.Tag, t.Tag = vU16("tag0"), vU16("tag1")
		keep = vOr(s.Tag != 0, t.Tag != 0)
	case 3:
		s.Special, t.Special = vU16("special0"), vU16("special1")
		keep = vOr(vOr(s.Special == 10, s.Special == 14), vOr(t.Special == 10, t.Special == 14))
	case 4:
		i := []int{m.wall, m.dummy, m.rim}[vPick("where", 3)]
		a := int(vU16("action"))
		m.lines.linedefs[i].Action = uint16(a)
		keep = vMultiSector(a)
	}
	m.check(m.divider, keep, false)
}

//verif:prop C19
//verif:reach kept removed
//verif:bound a line within a room or within a self-referencing sector, with any flags and action
func H_RemInner() {
	vRemConfig()
	m := vRemMake(vPick("corner", 2) == 1)
	i := []int{m.loose, m.inner}[vPick("line", 2)]
	f, blocks := vRemFlags("flags")
	a := int(vU16("action"))
	m.lines.linedefs[i].Flags = uint16(f)
	m.lines.linedefs[i].Action = uint16(a)
	m.check(i, vOr(blocks, a != 0), false)
}

//verif:prop C19
//verif:reach kept
//verif:bound a line of the border of a self-referencing sector, in a room or in its corner, or of a closed figure within a room; any flags and action
func H_RemRim() {
	vRemConfig()
	m := vRemMake(vPick("corner", 2) == 1)
	i := []int{m.rim, m.rim + 1, m.triangle}[vPick("line", 3)]
	f, _ := vRemFlags("flags")
	m.lines.linedefs[i].Flags = uint16(f)
	m.lines.linedefs[i].Action = vU16("action")
	m.check(i, true, false)
}

//verif:prop C19
//verif:reach kept removed
//verif:bound Hexen format: any flags and action of the line between the rooms or one within a room
func H_RemHexen() {
	vRemConfig()
	m := vRemMake(false)
	i := []int{m.divider, m.loose}[vPick("line", 2)]
	f, blocks := vRemFlags("flags")
	a := int(vU8("action"))
	m.lines.linedefs[i].Flags = uint16(f)
	m.lines.linedefs[i].Action = uint16(a)
	m.check(i, vOr(i == m.divider, vOr(blocks, a != 0)), true)
}

//verif:prop C19
//verif:reach quiet
//verif:bound without the option; any flags and action of a line between the rooms
func H_RemOff() {
	vRemConfig()
	config.RemoveNonCollideable = false
	m := vRemMake(vPick("corner", 2) == 1)
	i := []int{m.divider, m.loose, m.inner, m.rim}[vPick("line", 4)]
	f, _ := vRemFlags("flags")
	m.lines.linedefs[i].Flags = uint16(f)
	m.lines.linedefs[i].Action = vU16("action")
	for k, p := range m.present(false) {
		vAssert(p == (k != m.dummy), "line-missing")
	}
	vReach("quiet")
}

var vRemShapeList = []string{
	"#", "##", "#./##", "#.#/###", ".#./###/.#.", "#./.#", "###/#.#/###", "#.#", "####/#..#/#.##", "##/##/.#",
}

//verif:prop C19
//verif:reach shape
//verif:bound 10 shapes of self-referencing sectors of their own or of a real room elsewhere, in the open or at the room's wall; 8 patterns of line directions, 3 orders of lines
func H_RemShapes() {
	vRemConfig()
	rows := vSplitRows(vRemShapeList[vPick("shape", len(vRemShapeList))])
	dirs := vPick("directions", 8)
	order := vPick("order", 3)
	sector := []int{2, 0}[vPick("linked", 2)]
	wall := vPick("wall", 2) == 1
	m := &vRemLevel{lines: &DoomLinedefs{}, sectors: make([]Sector, 3)}
	m.x0, m.y0 = vInt("x0", 0, 20000), vInt("y0", -30000, -1000)
	ox, oy := 120, 20
	if wall {
		ox, oy = 100, 0
	}
	in := func(x, y int) bool { return y >= 0 && y < len(rows) && x >= 0 && x < len(rows[y]) && rows[y][x] == '#' }
	n := 0
	var rim []int
	edge := func(x1, y1, x2, y2 int) {
		if wall && (x1 == 0 && x2 == 0 || y1 == 0 && y2 == 0) {
			return // made with the walls
		}
		if (n*5+n/3)%8 < dirs {
			x1, y1, x2, y2 = x2, y2, x1, y1
		}
		n++
		rim = append(rim, m.line(ox+x1*20, oy+y1*20, ox+x2*20, oy+y2*20, sector, sector))
	}
	shape := func() {
		for k := range rows {
			y := k
			if order == 1 {
				y = len(rows) - 1 - k
			}
			for x := 0; x < len(rows[y]); x++ {
				if !in(x, y) {
					continue
				}
				if !in(x-1, y) {
					edge(x, y, x, y+1)
				}
				if !in(x, y+1) {
					edge(x, y+1, x+1, y+1)
				}
				if !in(x+1, y) {
					edge(x+1, y+1, x+1, y)
				}
				if !in(x, y-1) {
					edge(x+1, y, x, y)
				}
			}
		}
	}
	if order == 2 {
		shape()
	}
	// left room apart, right room with cells along its lower and left wall
	m.line(0, 0, 0, 160, 0, -1)
	m.line(0, 160, 90, 160, 0, -1)
	m.line(90, 160, 90, 0, 0, -1)
	m.line(90, 0, 0, 0, 0, -1)
	m.loose = m.line(20, 20, 60, 25, 0, 0)
	owner := func(x, y int) int {
		if wall && in(x, y) {
			return sector
		}
		return 1
	}
	for y := 0; y < 8; y++ {
		m.line(100, y*20, 100, y*20+20, owner(0, y), -1)
	}
	m.line(100, 160, 240, 160, 1, -1)
	m.line(240, 160, 240, 0, 1, -1)
	for x := 6; x >= 0; x-- {
		m.line(120+x*20, 0, 100+x*20, 0, owner(x, 0), -1)
	}
	if order != 2 {
		shape()
	}
	m.ignore = nil
	got := m.present(false)
	for i := range got {
		if i != m.loose {
			vAssert(got[i], "line-missing")
		}
	}
	if sector == 2 {
		vAssert(!got[m.loose], "line-not-removed")
	}
	vReach("shape")
}

func vSplitRows(s string) []string {
	var r []string
	a := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '/' {
			r = append(r, s[a:i])
			a = i + 1
		}
	}
	return r
}
