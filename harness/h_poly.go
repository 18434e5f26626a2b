package main

// Polyobjects of levels in Hexen format.

func vIsPoly(t int16, zdoom bool) bool {
	if zdoom {
		return vOr(t == 9301, t == 9302)
	}
	return vOr(t == 3001, t == 3002)
}

// the sectors where polyobjects are spawned are found: all lines of each (and
// no others) are kept from being split
//
//verif:prop C17
//verif:bound 3 levels, any position, any spawn point in the level, 5 thing types, another thing of 2 kinds, 3 line actions
//verif:reach spawned on-line
func H_PolySectors() {
	x0, y0 := vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	arts := [][]string{
		{"ab.", "acc", "aab"},
		{"aaa", "aba", "aaa"},
		{"a.b", "ccc"},
	}
	art := arts[vPick("map", len(arts))]
	xs := []int{x0, x0 + 64, x0 + 104, x0 + 168}
	ys := []int{y0, y0 + 56, y0 + 104, y0 + 164}[:len(art)+1]
	m := vGrid(xs, ys, art, vPick("merge", 2) == 1)
	acting := vPick("acting", 3)
	m.hexen = func(i int, l Linedef) HexenLinedef {
		if i == 3 {
			return HexenLinedef{Action: []uint8{1, 5, 20}[acting]}
		}
		return HexenLinedef{}
	}
	other := vPick("other", 3) // a thing elsewhere
	dx, dy := vInt("dx", 0, 170), vInt("dy", 0, 170)
	t := []int16{3001, 3002, 9301, 9302, 1}[vPick("type", 5)]
	if other > 0 {
		m.things = append(m.things, HexenThing{Type: []int16{3000, 9301}[other-1], XPos: int16(x0 + 20), YPos: int16(y0 + 20)})
	}
	m.things = append(m.things, HexenThing{Type: t, XPos: int16(x0 + dx), YPos: int16(y0 + dy)})
	// where it is
	ox, oy := make([]int, len(xs)), make([]int, len(ys))
	for i := range xs {
		ox[i] = xs[i] - x0
	}
	for i := range ys {
		oy[i] = ys[i] - y0
	}
	vAssume(vAnd(dx <= ox[len(ox)-1], dy <= oy[len(oy)-1]))
	zdoom := other == 2 || t > 9000
	want := make([]bool, m.nsectors)
	spawn := func(px, py int) {
		near := false
		box := make([]bool, m.nsectors)
		for _, l := range m.lines {
			ax, ay := m.vx[l.StartVertex]-x0, m.vy[l.StartVertex]-y0
			bx, by := m.vx[l.EndVertex]-x0, m.vy[l.EndVertex]-y0
			hit := vAnd(vAnd(vMax(ax, bx) >= px-10, vMin(ax, bx) <= px+10), vAnd(vMax(ay, by) >= py-10, vMin(ay, by) <= py+10))
			near = vOr(near, hit)
			for _, sd := range []uint16{l.FrontSdef, l.BackSdef} {
				if sd != SIDEDEF_NONE {
					box[m.sec(sd)] = vOr(box[m.sec(sd)], hit)
				}
			}
		}
		h := len(art)
		for j := 0; j < h; j++ {
			for i := range art[0] {
				inside := vAnd(vAnd(px >= ox[i], px < ox[i+1]), vAnd(py >= oy[j], py < oy[j+1]))
				c := art[h-1-j][i]
				if c == '.' {
					vAssume(!vAnd(inside, !near)) // in the void
					continue
				}
				want[c-'a'] = vOr(want[c-'a'], vAnd(inside, !near))
			}
		}
		for s := range want {
			want[s] = vOr(want[s], vAnd(near, box[s]))
		}
		if near {
			vReach("on-line")
		}
	}
	if acting < 2 {
		if other == 2 {
			spawn(20, 20)
		}
		if t != 1 && (t > 9000) == zdoom {
			spawn(dx, dy)
			vReach("spawned")
		}
	}
	hl := m.hexenLines()
	hl.DetectPolyobjects()
	for i, l := range m.lines {
		w := false
		for _, sd := range []uint16{l.FrontSdef, l.BackSdef} {
			if sd == SIDEDEF_NONE {
				continue
			}
			s := m.sec(sd)
			w = vOr(w, want[s])
			vAssert(hl.SectorIgnorePrecious(uint16(s)) == !want[s], "sector-of-polyobject")
		}
		vAssert(hl.IsTaggedPrecious(uint16(i)) == w, "line-of-polyobject-sector")
		// all lines of the sectors concerned are known from each
		got := hl.GetAllPolyobjLines(uint16(i))
		for k, o := range m.lines {
			shared := false
			for _, sd := range []uint16{l.FrontSdef, l.BackSdef} {
				for _, od := range []uint16{o.FrontSdef, o.BackSdef} {
					if sd != SIDEDEF_NONE && od != SIDEDEF_NONE && m.sec(sd) == m.sec(od) {
						shared = vOr(shared, want[m.sec(sd)])
					}
				}
			}
			has := false
			for _, g := range got {
				has = vOr(has, int(g) == k)
			}
			vAssert(has == shared, "lines-of-polyobject-sector")
		}
	}
}


// a sector with a polyobject stays in one piece where that is possible
//
//verif:prop C17
//verif:bound 6 levels of 4x3 cells, any position, 4 pickers, 2 formats
//verif:splitptr
//verif:reach built
func H_PolyWhole() {
	in := vNodesInput()
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_ZDOOM_EXTENDED}[vPick("format", 2)]
	in.pickNodeUser = []int{PICKNODE_TRADITIONAL, PICKNODE_VISPLANE, PICKNODE_MAELSTROM, PICKNODE_ZENLIKE}[vPick("algo", 4)]
	x0, y0 := vInt("x0", 1024, 2000), vInt("y0", -3000, -1300)
	k := vPick("map", 6)
	art := [][]string{
		{".bbc", "aadd", ".eff"},
		{"cabb", "caba", "aaaa"},
		{"abbb", "acca", "aaaa"},
		{"dddd", "a.bb", "a.cc"},
		{"aabb", "ccbb", "ccdd"},
		{"abab", "cdce", "abab"},
	}[k]
	home := []int{0, 2, 2, 1, 1, 3}[k]
	at := [][2]int{{30, 80}, {20, 135}, {80, 80}, {180, 80}, {160, 110}, {80, 80}}[k]
	xs := []int{x0, x0 + 48, x0 + 104, x0 + 168, x0 + 240}
	ys := []int{y0, y0 + 56, y0 + 104, y0 + 164}
	m := vGrid(xs, ys, art, vPick("merge", 2) == 1)
	m.hexen = func(i int, l Linedef) HexenLinedef {
		if i == 0 {
			return HexenLinedef{Action: 1}
		}
		return HexenLinedef{}
	}
	m.things = []HexenThing{{Type: 3001, XPos: int16(x0 + at[0]), YPos: int16(y0 + at[1])}}
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	vCheckBsp(m, b, nil)
	vReach("built")
	n := 0
	for _, ss := range b.ssec {
		s := b.segs[ss[0]]
		l := m.lines[s.line]
		sd := l.FrontSdef
		if s.flip != 0 {
			sd = l.BackSdef
		}
		if m.sec(sd) == home {
			n++
		}
	}
	vAssert(n == 1, "sector-with-polyobject-split")
}
