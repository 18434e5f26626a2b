package main

// Which sides of linedefs get segs, and with which angles.

func vIsName(b [8]byte, s string) bool {
	r := true
	for i := range b {
		c := byte(0)
		if i < len(s) {
			c = s[i]
		}
		r = vAnd(r, b[i] == c)
	}
	return r
}

func vNoTexture(b [8]byte) bool { return vAnd(b[0] == '-', b[1] == 0) }

// the level: two rooms (a two-sided line between them), a two-sided line
// hanging inside the left room, and a self-referencing square inside the right
// one whose sector is also a room further off
func vSidesMap(x0, y0 int) *vLev {
	xs := []int{x0, x0 + 16, x0 + 40, x0 + 64, x0 + 80, x0 + 112, x0 + 160, x0 + 300, x0 + 364}
	ys := []int{y0, y0 + 24, y0 + 56, y0 + 96}
	m := vGrid(xs, ys, []string{"aaabbb.c", "aaabbb.c", "aaabbb.c"}, true)
	m.line(1, 1, 2, 1, 0, 0)
	m.line(4, 1, 4, 2, 2, 2)
	m.line(4, 2, 5, 2, 2, 2)
	m.line(5, 2, 5, 1, 2, 2)
	m.line(5, 1, 4, 1, 2, 2)
	return m
}

// vExplicit tells if no seg must exist for a side because the mapper says so
func vExplicit(m *vLev, ignore []bool) func(l, flip int) bool {
	return func(i, flip int) bool {
		l := m.lines[i]
		r := vOr(l.Tag == 998, l.Action == 1086)
		if flip == 0 {
			r = vOr(r, l.Action == 1085)
		} else {
			r = vOr(r, l.Action == 1084)
		}
		sd := l.FrontSdef
		if flip != 0 {
			sd = l.BackSdef
		}
		if sd != SIDEDEF_NONE {
			r = vOr(r, vIsName(m.sides[sd].LoName, "BSPNOSEG"))
		}
		if ignore != nil {
			r = vOr(r, ignore[i])
		}
		return vConcreteBool(r)
	}
}

func vSidesInput() *NodesInput {
	in := vNodesInput()
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_ZDOOM_EXTENDED}[vPick("format", 2)]
	return in
}

func vSidesBuild(m *vLev, in *NodesInput, noseg func(l, flip int) bool, angle func(l, flip, base int) int) *vBsp {
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	vCheckSides(m, b, noseg, angle)
	return b
}

// any action and tag on one-sided and two-sided lines
//
//verif:prop C12
//verif:bound any action (but angle effects) and any tag (but 999) on 3 kinds of lines, any position, 2 formats
//verif:splitptr
func H_SidesSpecials() {
	in := vSidesInput()
	m := vSidesMap(vInt("x0", 1024, 2000), vInt("y0", -3000, -1300))
	k := []int{m.between(0, 1), m.between(0, -1), m.between(0, 0)}[vPick("line", 3)]
	action, tag := vU16("action"), vU16("tag")
	vAssume(vAnd(vOr(action < 1080, action > 1083), tag != 999))
	m.lines[k].Action = action
	m.lines[k].Tag = tag
	vSidesBuild(m, in, vExplicit(m, nil), nil)
}

// any lower texture on either side, dummy lines
//
//verif:prop C12
//verif:bound any 8 bytes as lower texture on each side of 3 kinds of lines; dummy lines; 2 formats
//verif:splitptr
func H_SidesTextures() {
	in := vSidesInput()
	m := vSidesMap(vInt("x0", 1024, 2000), vInt("y0", -3000, -1300))
	k := []int{m.between(0, 1), m.between(0, -1), m.between(2, 2)}[vPick("line", 3)]
	copy(m.sides[m.lines[k].FrontSdef].LoName[:], vSymBytes("front", 8))
	if m.lines[k].BackSdef != SIDEDEF_NONE {
		copy(m.sides[m.lines[k].BackSdef].LoName[:], vSymBytes("back", 8))
	}
	if vBool("ignored") {
		in.linesToIgnore = make([]bool, len(m.lines))
		in.linesToIgnore[m.between(0, 0)] = true
		in.linesToIgnore[m.between(1, -1)] = vBool("wall")
	}
	vSidesBuild(m, in, vExplicit(m, in.linesToIgnore), nil)
}

// angle effects
//
//verif:prop C12
//verif:bound angle effects by degrees (9 values each) and by any BAM value; 2 formats
//verif:splitptr
func H_SidesAngles() {
	in := vSidesInput()
	m := vSidesMap(vInt("x0", 1024, 2000), vInt("y0", -3000, -1300))
	k := []int{m.between(0, 1), m.between(0, -1)}[vPick("line", 2)]
	l := &m.lines[k]
	value := 0
	absolute := false
	switch vPick("effect", 5) {
	case 0:
		l.Action = 1080
		l.Tag = uint16([]int{0, 1, 45, 90, 180, 270, 359, 360, 500}[vPick("degrees", 9)])
		value = int(l.Tag) * 65536 / 360
	case 1:
		l.Action = 1081
		l.Tag = uint16([]int{0, 1, 45, 90, 180, 270, 359, 360, 500}[vPick("degrees", 9)])
		value = int(l.Tag) * 65536 / 360
		absolute = true
	case 2:
		l.Action = 1082
		l.Tag = vU16("bams")
		vAssume(l.Tag != 998)
		vAssume(l.Tag != 999)
		value = int(l.Tag)
	case 3:
		l.Action = 1083
		l.Tag = vU16("bams")
		vAssume(l.Tag != 998)
		vAssume(l.Tag != 999)
		value = int(l.Tag)
		absolute = true
	case 4:
		l.Tag = 999
		off := []int{0, 1, 45, 90, 180, 270, 359, -90, -180}[vPick("offset", 9)]
		m.sides[l.FrontSdef].XOffset = int16(off)
		if l.BackSdef == SIDEDEF_NONE {
			value = off * 65536 / 360
		}
	}
	vSidesBuild(m, in, vExplicit(m, nil), func(i, flip, base int) int {
		if i != k {
			return base
		}
		if absolute {
			base = 0
		}
		return (base + value) & 0xffff
	})
}

// lines dropped by -ni: only ones without any effect
//
//verif:prop C12
//verif:bound any tag (but 998, 999) and any 2-byte texture at any of 6 places of a same-sector line, next to a self-referencing square, both modes
//verif:reach dropped kept
//verif:splitptr
func H_SidesCull() {
	in := vSidesInput()
	mode := vPick("mode", 2)
	config.CullInvisibleSegs = []int{CULL_SEGS_PROPER, CULL_SEGS_SLOPPY}[mode]
	vMapOrder(true)
	m := vSidesMap(vInt("x0", 1024, 2000), vInt("y0", -3000, -1300))
	k := m.between(0, 0)
	l := &m.lines[k]
	for _, l := range m.lines {
		if l.BackSdef != SIDEDEF_NONE {
			m.sides[l.FrontSdef].MidName = vName8("-")
		}
	}
	sides := []*Sidedef{&m.sides[l.FrontSdef], &m.sides[l.BackSdef]}
	sd := sides[vPick("side", 2)]
	var name [8]byte
	name[0], name[1] = vU8("name"), vU8("name")
	switch vPick("texture", 3) {
	case 0:
		sd.UpName = name
	case 1:
		sd.MidName = name
	case 2:
		sd.LoName = name
	}
	l.Tag = vU16("tag")
	vAssume(l.Tag != 998)
	vAssume(l.Tag != 999)
	plain := vConcreteBool(vAnd(vNoTexture(name), l.Tag < 900))
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	n := 0
	for _, s := range b.segs {
		if s.line == k {
			n++
		}
	}
	if n == 0 {
		vReach("dropped")
		vAssert(plain, "line-with-an-effect-dropped")
	} else {
		vReach("kept")
	}
	vCheckSides(m, b, func(i, flip int) bool { return i == k && n == 0 }, nil)
}

// levels with next to no segs
//
//verif:prop C12
//verif:bound levels with 0, 1 or 2 segs
func H_SidesFew() {
	in := vSidesInput()
	x, y := vInt("x0", 1024, 2000), vInt("y0", -3000, -1300)
	m := vGrid([]int{x, x + 64}, []int{y, y + 64}, []string{"a"}, true)
	keep := vPick("keep", 3)
	in.linesToIgnore = make([]bool, len(m.lines))
	for i := range m.lines {
		in.linesToIgnore[i] = i >= keep
	}
	res, lines := vRunNodes(m, in)
	if keep < 2 {
		vAssert(len(res.nodes)+len(res.segs)+len(res.subsectors)+len(res.rawNodes)+len(res.deepNodes) == 0, "nodes-without-segs")
		return
	}
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	vCheckBsp(m, b, func(l, flip int) bool { return in.linesToIgnore[l] })
}

// self-referencing sectors of several shapes keep all their border lines,
// whatever the direction and the order of the lines
//
//verif:prop C12
//verif:bound 6 shapes of self-referencing sectors, 8 patterns of line directions, 2 starting lines
//verif:splitptr
func H_SidesSelfRef() {
	in := vSidesInput()
	config.CullInvisibleSegs = CULL_SEGS_PROPER
	vMapOrder(true)
	x0, y0 := vInt("x0", 1024, 2000), vInt("y0", -3000, -1300)
	shape := vPick("shape", 6)
	xs := []int{x0, x0 + 24, x0 + 56, x0 + 80, x0 + 96, x0 + 200, x0 + 300, x0 + 400}
	ys := []int{y0, y0 + 16, y0 + 48, y0 + 96, y0 + 120}
	m := vGrid(xs, ys, []string{"aaaaa.b", "aaaaa.b", "aaaaa.b", "aaaaa.b"}, shape != 4)
	for i := range m.lines {
		l := &m.lines[i]
		if shape == 4 && m.gx[l.StartVertex] == 0 && m.gx[l.EndVertex] == 0 && (m.gy[l.StartVertex] == 1 || m.gy[l.StartVertex] == 2) {
			m.sides[l.FrontSdef].Sector = 1
		}
	}
	n := len(m.lines)
	pts := [][][2]int{
		{{1, 1}, {1, 3}, {3, 3}, {3, 1}},
		{{1, 1}, {1, 3}, {2, 3}, {3, 3}, {3, 2}, {3, 1}, {2, 1}},
		{{1, 1}, {1, 3}, {2, 3}, {2, 2}, {4, 2}, {4, 1}},
		{{1, 1}, {1, 2}, {2, 2}, {2, 1}},
		{{0, 1}, {0, 3}, {2, 3}, {2, 1}}, // stands against the wall of room a
		{{1, 1}, {1, 3}, {3, 3}, {3, 1}},
	}[shape]
	flips := []int{0, 127, 1, 2, 4, 0x55, 0x2a, 0x0f}[vPick("flips", 8)]
	first := vPick("first", 2) * (len(pts) / 2)
	for k := range pts {
		k = (k + first) % len(pts)
		p, q := pts[k], pts[(k+1)%len(pts)]
		if shape == 4 && p[0] == 0 && q[0] == 0 {
			continue
		}
		m.line(p[0], p[1], q[0], q[1], 1, 1)
		if flips&(1<<uint(k)) != 0 {
			l := &m.lines[len(m.lines)-1]
			l.StartVertex, l.EndVertex = l.EndVertex, l.StartVertex
		}
	}
	border := len(m.lines)
	if shape == 5 { // a line across the square
		m.line(1, 1, 3, 3, 1, 1)
	}
	for i := n; i < len(m.lines); i++ {
		for _, sd := range []uint16{m.lines[i].FrontSdef, m.lines[i].BackSdef} {
			s := &m.sides[sd]
			s.UpName, s.MidName, s.LoName = vName8("-"), vName8("-"), vName8("-")
		}
	}
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	vCheckSides(m, b, func(i, flip int) bool { return i >= border }, nil)
}

// lines of levels in Hexen format have no special meanings for the builder:
// every side is drawn (but for BSPNOSEG), whatever the action and arguments
//
//verif:prop C12
//verif:bound any action (but polyobject starts), any arguments, any lower texture; 2 formats
//verif:splitptr
func H_SidesHexen() {
	in := vSidesInput()
	m := vSidesMap(vInt("x0", 1024, 2000), vInt("y0", -3000, -1300))
	k := []int{m.between(0, 1), m.between(0, -1), m.between(0, 0)}[vPick("line", 3)]
	action := vU8("action")
	vAssume(vAnd(action != HEXEN_ACTION_POLY_START, action != HEXEN_ACTION_POLY_EXPLICIT))
	args := [5]uint8{vU8("arg1"), vU8("arg2"), vU8("arg3"), vU8("arg4"), vU8("arg5")}
	m.hexen = func(i int, l Linedef) HexenLinedef {
		if i != k {
			return HexenLinedef{}
		}
		return HexenLinedef{Action: action, Arg1: args[0], Arg2: args[1], Arg3: args[2], Arg4: args[3], Arg5: args[4]}
	}
	if m.lines[k].BackSdef != SIDEDEF_NONE {
		copy(m.sides[m.lines[k].BackSdef].LoName[:], vSymBytes("back", 8))
	}
	vSidesBuild(m, in, vExplicit(m, nil), nil)
}

// the same with lines that the mapper has hidden in between, and with parts of
// the sector whose border cannot be told
//
//verif:prop C12
//verif:bound one self-referencing square with any tag and action on one of its lines, with and without a doubled railing in its sector, both modes
//verif:splitptr
func H_SidesSelfRef2() {
	in := vSidesInput()
	config.CullInvisibleSegs = []int{CULL_SEGS_PROPER, CULL_SEGS_SLOPPY}[vPick("mode", 2)]
	vMapOrder(true)
	x0, y0 := vInt("x0", 1024, 2000), vInt("y0", -3000, -1300)
	xs := []int{x0, x0 + 24, x0 + 56, x0 + 80, x0 + 200, x0 + 300, x0 + 400, x0 + 420}
	ys := []int{y0, y0 + 16, y0 + 48, y0 + 96}
	m := vGrid(xs, ys, []string{"aaa.bbb", "aaa.bbb", "aaa.bbb"}, true)
	n := len(m.lines)
	doubles := vPick("doubled", 2) == 1
	if doubles {
		for k := 0; k < 2; k++ {
			m.line(5, 1, 5, 2, 1, 1)
			m.line(5, 2, 6, 2, 1, 1)
		}
	}
	doubled := len(m.lines)
	m.line(1, 1, 1, 2, 1, 1)
	m.line(1, 2, 2, 2, 1, 1)
	m.line(2, 2, 2, 1, 1, 1)
	m.line(2, 1, 1, 1, 1, 1)
	k := doubled + vPick("line", 2)
	action, tag := vU16("action"), vU16("tag")
	vAssume(vAnd(vOr(action < 1080, action > 1083), tag != 999))
	m.lines[k].Action = action
	m.lines[k].Tag = tag
	for i := n; i < len(m.lines); i++ {
		for _, sd := range []uint16{m.lines[i].FrontSdef, m.lines[i].BackSdef} {
			s := &m.sides[sd]
			s.UpName, s.MidName, s.LoName = vName8("-"), vName8("-"), vName8("-")
		}
	}
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	drawn := make([]bool, len(m.lines))
	for _, s := range b.segs {
		drawn[s.line] = true
	}
	explicit := vExplicit(m, nil)
	vCheckSides(m, b, func(i, flip int) bool {
		return explicit(i, flip) || i >= n && i < doubled && !drawn[i]
	}, nil)
}
