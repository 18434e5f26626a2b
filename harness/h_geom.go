package main

// The level's geometry survives node building; scroller dummies.

// lines keep their ends and everything else, unused vertices go away, all
// vertices are used; what other builders read at the same time stays as it is
//
//verif:prop C13
//verif:bound 3x2 cells of 2..40 units, any position; 1-2 unused vertices at 4 places in the list with any coordinates; any attributes; 3 formats
//verif:splitptr
func H_GeomKept() {
	in := vNodesInput()
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED}[vPick("format", 3)]
	in.stkNode = vPick("stk", 2) == 1
	in.width = -1
	m := vBspMapAt([]string{"ab.", "aab"}, vPick("merge", 2) == 1, 2, 40, vInt("x0", 1024, 2000), vInt("y0", -2000, -1300))
	// vertices nobody uses, and two at one place
	at := vPick("at", 4) * len(m.verts) / 3
	n := 1 + vPick("count", 2)
	for k := 0; k < n; k++ {
		m.verts = append(m.verts[:at], append([]Vertex{{XPos: vI16("ux"), YPos: vI16("uy")}}, m.verts[at:]...)...)
		m.vx = append(m.vx[:at], append([]int{0}, m.vx[at:]...)...)
		m.vy = append(m.vy[:at], append([]int{0}, m.vy[at:]...)...)
		m.gx = append(m.gx[:at], append([]int{-1}, m.gx[at:]...)...)
		m.gy = append(m.gy[:at], append([]int{-1}, m.gy[at:]...)...)
		for i := range m.lines {
			l := &m.lines[i]
			if int(l.StartVertex) >= at {
				l.StartVertex++
			}
			if int(l.EndVertex) >= at {
				l.EndVertex++
			}
		}
	}
	if vPick("twice", 2) == 1 {
		l := &m.lines[2]
		v := l.StartVertex
		m.verts = append(m.verts, m.verts[v])
		m.vx, m.vy = append(m.vx, m.vx[v]), append(m.vy, m.vy[v])
		m.gx, m.gy = append(m.gx, m.gx[v]), append(m.gy, m.gy[v])
		l.StartVertex = uint16(len(m.verts) - 1)
	}
	m.lines[1].Flags = vU16("flags") | m.lines[1].Flags&LF_TWOSIDED
	m.lines[0].Action = vU16("action")
	vAssume(m.lines[0].Action < 1000)
	m.lines[0].Tag = vU16("tag")
	vAssume(m.lines[0].Tag < 900)
	oldLines := append([]Linedef{}, m.lines...)
	oldVerts := append([]Vertex{}, m.verts...)
	res, lines := vRunNodes(m, in)
	same := true
	for i, v := range oldVerts {
		same = vAnd(same, vAnd(m.verts[i].XPos == v.XPos, m.verts[i].YPos == v.YPos))
	}
	for i, l := range oldLines {
		same = vAnd(same, vSameLine(l, m.lines[i]))
	}
	vAssert(same, "input-changed-while-others-read-it")
	vAssert(len(lines.linedefs) == len(oldLines), "number-of-linedefs-changed")
	used := make([]bool, len(lines.vertices))
	kept := true
	for i, l := range lines.linedefs {
		o := oldLines[i]
		vAssert(int(l.StartVertex) < len(used) && int(l.EndVertex) < len(used), "linedef-vertex-range")
		used[l.StartVertex] = true
		used[l.EndVertex] = true
		p, q := lines.vertices[l.StartVertex], lines.vertices[l.EndVertex]
		op, oq := oldVerts[o.StartVertex], oldVerts[o.EndVertex]
		kept = vAnd(kept, vAnd(vAnd(p.XPos == op.XPos, p.YPos == op.YPos), vAnd(q.XPos == oq.XPos, q.YPos == oq.YPos)))
		l.StartVertex, l.EndVertex = o.StartVertex, o.EndVertex
		kept = vAnd(kept, vSameLine(l, o))
	}
	vAssert(kept, "linedef-changed")
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	for len(used) < len(b.px) {
		used = append(used, false)
	}
	for _, s := range b.segs {
		vAssert(s.v1 >= 0 && s.v1 < len(used) && s.v2 >= 0 && s.v2 < len(used), "seg-vertex-range")
		used[s.v1] = true
		used[s.v2] = true
	}
	for _, u := range used {
		vAssert(u, "vertex-unused")
	}
}

func vSameLine(a, b Linedef) bool {
	return vAnd(vAnd(vAnd(a.StartVertex == b.StartVertex, a.EndVertex == b.EndVertex), vAnd(a.Flags == b.Flags, a.Action == b.Action)), vAnd(a.Tag == b.Tag, vAnd(a.FrontSdef == b.FrontSdef, a.BackSdef == b.BackSdef)))
}

// ---- scrolling walls ----

type vScroll struct {
	key       Linedef // ends and front side
	producers []int
}

func vScrollKey(l Linedef) Linedef {
	return Linedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, FrontSdef: l.FrontSdef}
}

// vScrollGroups: which lines make which wall scroll, as documented
func vScrollGroups(lines []Linedef, verts []Vertex) (gs []*vScroll) {
	add := func(key Linedef, i int) {
		for _, g := range gs {
			if g.key == key {
				g.producers = append(g.producers, i)
				return
			}
		}
		gs = append(gs, &vScroll{key, []int{i}})
	}
	for i, l := range lines {
		if l.Action == 48 {
			add(vScrollKey(l), i)
		}
		if l.Action == 1048 && l.Tag > 0 {
			best, at := 0, -1
			for j, o := range lines {
				if j == i || o.Tag != l.Tag {
					continue
				}
				dx := int(verts[l.StartVertex].XPos) - int(verts[o.StartVertex].XPos)
				dy := int(verts[l.StartVertex].YPos) - int(verts[o.StartVertex].YPos)
				if d := dx*dx + dy*dy; at < 0 || d < best {
					best, at = d, j
				}
			}
			if at >= 0 {
				add(vScrollKey(lines[at]), i)
			}
		}
	}
	return
}

func vScrollCheck(lines []Linedef, verts []Vertex) []Linedef {
	in := append([]Linedef{}, lines...)
	ret, dummies := RefreshScrollerSpeed(append([]Linedef{}, lines...), verts, false)
	gs := vScrollGroups(in, verts)
	if len(gs) == 0 {
		vAssert(len(ret) == len(in), "lines-added-without-scrollers")
	}
	keep := make([]bool, len(in))
	for i := range keep {
		keep[i] = true
	}
	dummy := func(i int) bool { return dummies != nil && i < len(dummies) && dummies[i] }
	for _, g := range gs {
		power, real := 0, 0
		for n, i := range g.producers {
			l := in[i]
			if n == 0 && l.Action == 48 {
				power += int(l.Tag)
			}
			if l.Action == 1048 {
				power += int(l.Tag % 100)
			}
			if n > 0 && l.Action == 48 {
				keep[i] = true
				for _, o := range in[:i] {
					if vScrollKey(o) == g.key {
						keep[i] = false // a dummy, may go or stay
					}
				}
			}
			if l.Action == 48 && keep[i] {
				real++
			}
		}
		if power == 0 {
			power = 1
		}
		// as many scrolling lines as wanted
		have, marked := 0, 0
		for i, l := range ret {
			if l.Action == 48 && vScrollKey(l) == g.key {
				have++
				if dummy(i) {
					marked++
				}
			}
		}
		vReach("group")
		vAssert(have == power, "wrong-number-of-scrolling-lines")
		vAssert(marked == power-real, "dummies-not-marked")
	}
	// all other lines stay, in their order, and are not dummies
	n := 0
	for i, l := range in {
		if !keep[i] {
			continue
		}
		for n < len(ret) && dummy(n) {
			n++
		}
		vAssert(n < len(ret), "line-lost")
		vAssert(vSameLine(l, ret[n]), "line-changed")
		n++
	}
	for ; n < len(ret); n++ {
		vAssert(dummy(n), "line-invented")
	}
	for i := len(ret); i < len(dummies); i++ {
		vAssert(!dummies[i], "mark-without-line")
	}
	// when no lines may be changed, the same lines are recognised as dummies
	ret2, dummies2 := RefreshScrollerSpeed(append([]Linedef{}, in...), verts, true)
	vAssert(len(ret2) == len(in), "dry-run-changes-lines")
	for i := range in {
		marked := dummies2 != nil && i < len(dummies2) && dummies2[i]
		vAssert(marked == !keep[i], "dry-run-marks")
	}
	return ret
}

// any lines with any speeds
//
//verif:prop C16
//verif:bound 4 lines over 2 walls, each scrolling or not, speeds 0..3, any flags
//verif:reach group
func H_Scroll() {
	verts := []Vertex{{0, 0}, {64, 0}, {64, 64}, {0, 64}}
	var lines []Linedef
	for i := 0; i < 4; i++ {
		k := vPick("wall", 2)
		l := Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1), FrontSdef: uint16(k), BackSdef: SIDEDEF_NONE, Flags: vU16("flags")}
		if vPick("scrolls", 2) == 1 {
			l.Action = 48
			l.Tag = uint16(vInt("speed", 0, 3))
		}
		lines = append(lines, l)
	}
	ret := vScrollCheck(lines, verts)
	again := vScrollCheck(ret, verts)
	vAssert(len(again) == len(ret), "second-run-changes-lines")
}

// remote scrollers
//
//verif:prop C16
//verif:bound one remote scroller at any place among 2-3 walls, tags 0..203, 0-2 dummies of an earlier run
//verif:reach group
func H_ScrollRemote() {
	verts := []Vertex{{0, 0}, {64, 0}, {64, 64}, {0, 64}, {200, 0}}
	tag := uint16(vInt("tag", 0, 2)*100 + vInt("speed", 0, 3))
	remote := Linedef{StartVertex: uint16(vPick("from", 3)), EndVertex: 3, FrontSdef: 9, BackSdef: SIDEDEF_NONE, Action: 1048, Tag: tag}
	var lines []Linedef
	for k := 0; k < 2; k++ {
		lines = append(lines, Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1), FrontSdef: uint16(k), BackSdef: SIDEDEF_NONE, Flags: vU16("flags"), Action: uint16(31 * k), Tag: uint16(vInt("wtag", 0, 2)*100 + vInt("wspeed", 0, 3))})
	}
	if vPick("other", 2) == 1 {
		lines = append(lines, Linedef{StartVertex: 3, EndVertex: 4, FrontSdef: 5, BackSdef: SIDEDEF_NONE, Action: 48, Tag: 2})
	}
	at := vPick("at", len(lines)+1)
	lines = append(lines[:at], append([]Linedef{remote}, lines[at:]...)...)
	for d := vPick("dummies", 3); d > 0; d-- { // of an earlier run
		k := vPick("wall", 2)
		lines = append(lines, Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1), FrontSdef: uint16(k), BackSdef: SIDEDEF_NONE, Action: 48})
	}
	ret := vScrollCheck(lines, verts)
	again := vScrollCheck(ret, verts)
	vAssert(len(again) == len(ret), "second-run-changes-lines")
}

// several remote scrollers, also for one wall
//
//verif:prop C16
//verif:bound two remote scrollers with tags 0-2, two walls, one of them scrolling by itself or not, 0-1 dummies of an earlier run
func H_ScrollRemote2() {
	verts := []Vertex{{0, 0}, {64, 0}, {64, 64}, {0, 64}, {200, 0}, {210, 80}}
	var lines []Linedef
	for k := 0; k < 2; k++ {
		lines = append(lines, Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1), FrontSdef: uint16(k), BackSdef: SIDEDEF_NONE, Tag: uint16(1 + k)})
	}
	if vPick("scrolls", 2) == 1 {
		lines[1].Action = 48
	}
	for k := 0; k < 2; k++ {
		from := []uint16{3, 4}[k]
		if vPick("elsewhere", 2) == 1 {
			from = 2
		}
		remote := Linedef{StartVertex: from, EndVertex: 5, FrontSdef: uint16(8 + k), BackSdef: SIDEDEF_NONE, Action: 1048, Tag: uint16(vInt("speed", 0, 2))}
		at := []int{0, len(lines)}[vPick("at", 2)]
		lines = append(lines[:at], append([]Linedef{remote}, lines[at:]...)...)
	}
	if vPick("dummies", 2) == 1 { // of an earlier run
		k := vPick("wall", 2)
		lines = append(lines, Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1), FrontSdef: uint16(k), BackSdef: SIDEDEF_NONE, Action: 48})
	}
	ret := vScrollCheck(lines, verts)
	again := vScrollCheck(ret, verts)
	vAssert(len(again) == len(ret), "second-run-changes-lines")
}
