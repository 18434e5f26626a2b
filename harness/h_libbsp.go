package main

import "math"

// Levels drawn on a grid and the reading of the BSP that was built for them.

// vLev is a level in memory: Doom format structures.
type vLev struct {
	xs, ys   []int // grid coordinates (symbolic, increasing)
	lines    []Linedef
	verts    []Vertex
	sides    []Sidedef
	sectors  []Sector
	vx, vy   []int // vertex coordinates as ints
	gx, gy   []int // grid indices of vertices
	vno      map[int]int
	nsectors int
	hexen    func(i int, l Linedef) HexenLinedef // nil: a level in Doom format
	things   []HexenThing
	unit     int // 0: lines are parallel to the axes; otherwise distance of lattice points
	loose    bool // vertices may be off by rounding where the format stores fractions
}

func (m *vLev) vertex(i, j int) int {
	if n, ok := m.vno[i*100+j]; ok {
		return n
	}
	n := len(m.verts)
	m.vno[i*100+j] = n
	m.verts = append(m.verts, Vertex{XPos: int16(m.xs[i]), YPos: int16(m.ys[j])})
	m.vx = append(m.vx, m.xs[i])
	m.vy = append(m.vy, m.ys[j])
	m.gx = append(m.gx, i)
	m.gy = append(m.gy, j)
	return n
}

func vName8(s string) (r [8]byte) {
	copy(r[:], s)
	return
}

// line from grid point to grid point; sectors on the right and left (-1: void)
func (m *vLev) line(i1, j1, i2, j2, right, left int) {
	l := Linedef{FrontSdef: SIDEDEF_NONE, BackSdef: SIDEDEF_NONE}
	if right < 0 {
		i1, j1, i2, j2 = i2, j2, i1, j1
		right, left = left, right
	}
	l.StartVertex = uint16(m.vertex(i1, j1))
	l.EndVertex = uint16(m.vertex(i2, j2))
	l.FrontSdef = uint16(len(m.sides))
	m.sides = append(m.sides, Sidedef{Sector: uint16(right), UpName: vName8("-"), LoName: vName8("-"), MidName: vName8("WALL")})
	l.Flags = 1
	if left >= 0 {
		l.Flags = 4
		l.BackSdef = uint16(len(m.sides))
		m.sides = append(m.sides, Sidedef{Sector: uint16(left), UpName: vName8("-"), LoName: vName8("-"), MidName: vName8("-")})
	}
	m.lines = append(m.lines, l)
}

// vGrid draws a level: art has one letter per cell, top row first, '.' is void,
// 'a', 'b', ... are sectors.  Every unit edge between different cells becomes a
// part of a linedef; runs of unit edges are joined if merge is set.
func vGrid(xs, ys []int, art []string, merge bool) *vLev {
	m := &vLev{xs: xs, ys: ys, vno: map[int]int{}}
	h := len(art)
	w := len(art[0])
	cell := func(i, j int) int {
		if i < 0 || j < 0 || i >= w || j >= h {
			return -1
		}
		c := art[h-1-j][i]
		if c == '.' {
			return -1
		}
		if int(c-'a')+1 > m.nsectors {
			m.nsectors = int(c-'a') + 1
		}
		return int(c - 'a')
	}
	// vertical edges, bottom to top: right is the cell (i,j), left (i-1,j)
	for i := 0; i <= w; i++ {
		for j := 0; j < h; j++ {
			r, l := cell(i, j), cell(i-1, j)
			if r == l {
				continue
			}
			k := j + 1
			for merge && k < h && cell(i, k) == r && cell(i-1, k) == l {
				k++
			}
			m.line(i, j, i, k, r, l)
			j = k - 1
		}
	}
	// horizontal edges, left to right: right is the cell (i,j-1), left (i,j)
	for j := 0; j <= h; j++ {
		for i := 0; i < w; i++ {
			r, l := cell(i, j-1), cell(i, j)
			if r == l {
				continue
			}
			k := i + 1
			for merge && k < w && cell(k, j-1) == r && cell(k, j) == l {
				k++
			}
			m.line(i, j, k, j, r, l)
			i = k - 1
		}
	}
	for i := 0; i < m.nsectors; i++ {
		m.sectors = append(m.sectors, Sector{FloorHeight: 0, CeilHeight: 128, FloorName: vName8("FLAT"), CeilName: vName8("CEIL"), LightLevel: 160 + uint16(i)})
	}
	return m
}

// vSteps returns n+1 increasing symbolic coordinates from base on, neighbours lo..hi apart
func vCoords(name string, base, n, lo, hi int) []int {
	r := []int{base}
	for i := 0; i < n; i++ {
		base = base + vInt(name, lo, hi)
		r = append(r, base)
	}
	return r
}

// ---- what was built ----

type vSeg struct {
	v1, v2 int
	line   int
	flip   int
	angle  int // -1: not stored
	off    int // -1: not stored
}
type vNode struct {
	x, y, dx, dy int
	rbox, lbox   [4]int
	r, l         int // >=0: node, <0: -1-subsector
}
type vBsp struct {
	px, py []int // vertices, scaled
	scale  int
	segs   []vSeg
	ssec   [][2]int
	nodes  []vNode
}

func vBox(b [4]int16) [4]int {
	return [4]int{int(b[0]), int(b[1]), int(b[2]), int(b[3])}
}

// vMask16 marks subsectors in vanilla nodes
var vMask16 = 0x8000

func vChild16(c int16) int {
	if vMask16 != 0x8000 {
		if int(c)&vMask16 != 0 {
			return -1 - int(c)&(vMask16-1)
		}
		return int(c)
	}
	if c < 0 {
		return -1 - int(uint16(c)&0x7fff)
	}
	return int(c)
}
func vChild32(c int32) int {
	if c < 0 {
		return -1 - int(uint32(c)&0x7fffffff)
	}
	return int(c)
}

// vRunNodes builds the nodes of the level
func vRunNodes(m *vLev, in *NodesInput) (NodesResult, *DoomLinedefs) {
	ch := make(chan NodesResult, 1)
	bcontrol := make(chan BconRequest, 4)
	bgen := make(chan BgenRequest, 4)
	lines := &DoomLinedefs{linedefs: m.lines, vertices: m.verts}
	in.lines = lines
	var hl *HexenLinedefs
	if m.hexen != nil {
		hl = m.hexenLines()
		in.lines = hl
	}
	in.sectors = m.sectors
	in.sidedefs = m.sides
	in.bcontrol = bcontrol
	in.bgenerator = bgen
	in.nodesChan = ch
	if in.pickNodeUser == PICKNODE_VISPLANE_ADV {
		solid := lines.GetSolidVersion()
		bm := CreateBlockmap(&BlockmapInput{lines: solid, bounds: LevelBounds{Xmin: int16(m.xs[0]), Ymin: int16(m.ys[0]), Xmax: int16(m.xs[len(m.xs)-1]), Ymax: int16(m.ys[len(m.ys)-1])}, internalPurpose: true})
		go func() {
			r := <-bgen
			r.ReplyTo <- bm
		}()
	}
	if in.nodeType == NODETYPE_ZDOOM_EXTENDED || in.nodeType == NODETYPE_ZDOOM_COMPRESSED {
		ZNodesGenerator(in)
	} else {
		NodesGenerator(in)
	}
	res := <-ch
	if hl != nil {
		lines = &DoomLinedefs{vertices: hl.vertices}
		for _, l := range hl.linedefs {
			lines.linedefs = append(lines.linedefs, Linedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, Flags: l.Flags, FrontSdef: l.FrontSdef, BackSdef: l.BackSdef})
		}
	}
	return res, lines
}

func (m *vLev) hexenLines() *HexenLinedefs {
	hl := &HexenLinedefs{vertices: m.verts, things: m.things, sidedefs: m.sides}
	for i, l := range m.lines {
		h := m.hexen(i, l)
		h.StartVertex, h.EndVertex, h.Flags, h.FrontSdef, h.BackSdef = l.StartVertex, l.EndVertex, l.Flags, l.FrontSdef, l.BackSdef
		hl.linedefs = append(hl.linedefs, h)
	}
	return hl
}

func vNodesInput() *NodesInput {
	return &NodesInput{
		pickNodeUser:       config.PickNodeUser,
		pickNodeFactor:     config.PickNodeFactor,
		minorIsBetterUser:  config.MinorCmpUser,
		nodeType:           config.NodeType,
		depthArtifacts:     config.DepthArtifacts,
		multiTreeMode:      config.MultiTreeMode,
		specialRootMode:    config.SpecialRootMode,
		detailFriendliness: config.NodeDetailFriendliness,
	}
}

// vReadBsp decodes the lumps
func vReadBsp(res NodesResult, lines *DoomLinedefs) *vBsp {
	b := &vBsp{scale: 1}
	for _, v := range lines.vertices {
		b.px = append(b.px, int(v.XPos))
		b.py = append(b.py, int(v.YPos))
	}
	if res.nodes != nil {
		for _, s := range res.segs {
			b.segs = append(b.segs, vSeg{v1: int(s.StartVertex), v2: int(s.EndVertex), line: int(s.Linedef), flip: int(s.Flip), angle: int(uint16(s.Angle)), off: int(s.Offset)})
		}
		for _, s := range res.subsectors {
			b.ssec = append(b.ssec, [2]int{int(s.FirstSeg), int(s.SegCount)})
		}
		for _, n := range res.nodes {
			b.nodes = append(b.nodes, vNode{int(n.X), int(n.Y), int(n.Dx), int(n.Dy), vBox(n.Rbox), vBox(n.Lbox), vChild16(n.RChild), vChild16(n.LChild)})
		}
		return b
	}
	if res.deepNodes != nil {
		for _, s := range res.deepSegs {
			b.segs = append(b.segs, vSeg{v1: int(s.StartVertex), v2: int(s.EndVertex), line: int(s.Linedef), flip: int(s.Flip), angle: int(uint16(s.Angle)), off: int(s.Offset)})
		}
		for _, s := range res.deepSubsectors {
			b.ssec = append(b.ssec, [2]int{int(s.FirstSeg), int(s.SegCount)})
		}
		for _, n := range res.deepNodes {
			b.nodes = append(b.nodes, vNode{int(n.X), int(n.Y), int(n.Dx), int(n.Dy), vBox(n.Rbox), vBox(n.Lbox), vChild32(n.RChild), vChild32(n.LChild)})
		}
		return b
	}
	if res.rawNodes != nil && !res.compressed {
		return vReadExt(res.rawNodes, b)
	}
	return nil
}

func vGetS32(b []byte, at int) int {
	return int(int32(uint32(b[at]) | uint32(b[at+1])<<8 | uint32(b[at+2])<<16 | uint32(b[at+3])<<24))
}
func vGetS16(b []byte, at int) int { return int(int16(uint16(b[at]) | uint16(b[at+1])<<8)) }
func vGetUi16(b []byte, at int) int { return int(uint16(b[at]) | uint16(b[at+1])<<8) }

// vReadExt reads uncompressed extended nodes (XNOD)
func vReadExt(raw []byte, b *vBsp) *vBsp {
	vAssert(string(raw[:4]) == "XNOD", "extended-signature")
	p := 4
	orig := vGetS32(raw, p)
	n := vGetS32(raw, p+4)
	p += 8
	vAssert(orig == len(b.px), "extended-original-vertices")
	b.scale = 65536
	for i := range b.px {
		b.px[i] *= 65536
		b.py[i] *= 65536
	}
	for i := 0; i < n; i++ {
		b.px = append(b.px, vGetS32(raw, p))
		b.py = append(b.py, vGetS32(raw, p+4))
		p += 8
	}
	n = vGetS32(raw, p)
	p += 4
	first := 0
	for i := 0; i < n; i++ {
		c := vGetS32(raw, p)
		b.ssec = append(b.ssec, [2]int{first, c})
		first += c
		p += 4
	}
	n = vGetS32(raw, p)
	p += 4
	for i := 0; i < n; i++ {
		b.segs = append(b.segs, vSeg{v1: vGetS32(raw, p), v2: vGetS32(raw, p+4), line: vGetUi16(raw, p+8), flip: int(raw[p+10]), angle: -1, off: -1})
		p += 11
	}
	n = vGetS32(raw, p)
	p += 4
	for i := 0; i < n; i++ {
		var nd vNode
		nd.x, nd.y, nd.dx, nd.dy = vGetS16(raw, p), vGetS16(raw, p+2), vGetS16(raw, p+4), vGetS16(raw, p+6)
		for k := 0; k < 4; k++ {
			nd.rbox[k] = vGetS16(raw, p+8+2*k)
			nd.lbox[k] = vGetS16(raw, p+16+2*k)
		}
		r, l := vGetS32(raw, p+24), vGetS32(raw, p+28)
		nd.r, nd.l = vChild32(int32(r)), vChild32(int32(l))
		b.nodes = append(b.nodes, nd)
		p += 32
	}
	vAssert(p == len(raw), "extended-size")
	return b
}

// ---- validity of a BSP ----

type vChecker struct {
	m     *vLev
	b     *vBsp
	seen  []bool // nodes
	sseen []bool // subsectors
	angle func(line, flip, base int) int
}

// vCheckSides asserts only that the segs are those of the sides that must have
// some, with the angles asked for
func vCheckSides(m *vLev, b *vBsp, noseg func(line, flip int) bool, angle func(line, flip, base int) int) {
	c := &vChecker{m: m, b: b, angle: angle}
	for _, s := range b.segs {
		vAssert(s.v1 >= 0 && s.v1 < len(b.px) && s.v2 >= 0 && s.v2 < len(b.px), "seg-vertex-range")
		vAssert(s.line >= 0 && s.line < len(m.lines), "seg-linedef-range")
		vAssert(s.flip == 0 || s.flip == 1, "seg-side")
	}
	for l := range m.lines {
		for flip := 0; flip < 2; flip++ {
			c.side(l, flip, noseg)
		}
	}
}

// vCheckBsp asserts that b is a valid BSP of m.  noseg(line, flip) tells the
// sides that must have no segs.
func vCheckBsp(m *vLev, b *vBsp, noseg func(line, flip int) bool) {
	c := &vChecker{m: m, b: b, seen: make([]bool, len(b.nodes)), sseen: make([]bool, len(b.ssec))}
	vAssert(len(b.nodes) > 0, "bsp-has-nodes")
	vAssert(len(b.ssec) == len(b.nodes)+1, "bsp-subsector-count")
	// subsectors share out the segs
	owner := make([]int, len(b.segs))
	for i := range owner {
		owner[i] = -1
	}
	for i, s := range b.ssec {
		vAssert(s[1] > 0, "subsector-not-empty")
		vAssert(s[0] >= 0 && s[0]+s[1] <= len(b.segs), "subsector-range")
		for k := s[0]; k < s[0]+s[1]; k++ {
			vAssert(owner[k] < 0, "seg-in-two-subsectors")
			owner[k] = i
		}
	}
	for _, o := range owner {
		vAssert(o >= 0, "seg-in-no-subsector")
	}
	for _, s := range b.segs {
		vAssert(s.v1 >= 0 && s.v1 < len(b.px) && s.v2 >= 0 && s.v2 < len(b.px), "seg-vertex-range")
		vAssert(s.line >= 0 && s.line < len(m.lines), "seg-linedef-range")
		vAssert(s.flip == 0 || s.flip == 1, "seg-side")
	}
	c.node(len(b.nodes)-1, nil)
	for _, s := range c.seen {
		vAssert(s, "node-unreachable")
	}
	for _, s := range c.sseen {
		vAssert(s, "subsector-unreachable")
	}
	// sides
	for l := range m.lines {
		for flip := 0; flip < 2; flip++ {
			c.side(l, flip, noseg)
		}
	}
}

// node checks the subtree of node n and returns the numbers of its segs
func (c *vChecker) node(n int, above []int) []int {
	vAssert(n >= 0 && n < len(c.b.nodes), "child-range")
	vAssert(!c.seen[n], "node-twice-in-tree")
	c.seen[n] = true
	nd := &c.b.nodes[n]
	r := c.child(nd.r)
	l := c.child(nd.l)
	k := c.b.scale
	slack := c.slack(nd.dx, nd.dy)
	bad := false
	for side, segs := range [][]int{r, l} {
		box := nd.rbox
		if side == 1 {
			box = nd.lbox
		}
		for _, s := range segs {
			sg := c.b.segs[s]
			x1, y1, x2, y2 := c.b.px[sg.v1], c.b.py[sg.v1], c.b.px[sg.v2], c.b.py[sg.v2]
			inx := vAnd(vAnd(x1 >= box[BB_LEFT]*k, x1 <= box[BB_RIGHT]*k), vAnd(x2 >= box[BB_LEFT]*k, x2 <= box[BB_RIGHT]*k))
			iny := vAnd(vAnd(y1 >= box[BB_BOTTOM]*k, y1 <= box[BB_TOP]*k), vAnd(y2 >= box[BB_BOTTOM]*k, y2 <= box[BB_TOP]*k))
			vAssert(vAnd(inx, iny), "bounding-box-misses-seg")
			// distance from the partition line, positive on the right
			d1 := nd.dy*(x1-nd.x*k) - nd.dx*(y1-nd.y*k)
			d2 := nd.dy*(x2-nd.x*k) - nd.dx*(y2-nd.y*k)
			dot := nd.dx*(x2-x1) + nd.dy*(y2-y1)
			on := vAnd(d1 == 0, d2 == 0)
			if side == 0 {
				bad = vOr(bad, vOr(d1 < -slack, d2 < -slack))
				bad = vOr(bad, vAnd(on, dot < 0))
			} else {
				bad = vOr(bad, vOr(d1 > slack, d2 > slack))
				// the partition seg itself moves to the left when nothing
				// else would be there
				if len(l) > 1 {
					bad = vOr(bad, vAnd(on, dot > 0))
				}
			}
		}
	}
	vAssert(!bad, "seg-on-wrong-side-of-partition")
	vAssert(vOr(nd.dx != 0, nd.dy != 0), "partition-is-a-point")
	return append(append([]int{}, r...), l...)
}

// slack is how far off a line in direction dx, dy a point may be when vertices
// are rounded to 1/65536
func (c *vChecker) slack(dx, dy int) int {
	if !c.m.loose || c.b.scale == 1 {
		return 0
	}
	return 2 * (vAbs(dx) + vAbs(dy))
}

func (c *vChecker) child(n int) []int {
	if n >= 0 {
		return c.node(n, nil)
	}
	s := -1 - n
	vAssert(s < len(c.b.ssec), "subsector-index-range")
	vAssert(!c.sseen[s], "subsector-twice-in-tree")
	c.sseen[s] = true
	var r []int
	for k := c.b.ssec[s][0]; k < c.b.ssec[s][0]+c.b.ssec[s][1]; k++ {
		r = append(r, k)
	}
	// one sector, convex
	sec := -1
	free := false
	for _, k := range r {
		x := c.sector(k)
		if x < 0 {
			continue
		}
		if c.m.sectors[x].Tag >= 900 {
			free = true
		}
		if sec < 0 {
			sec = x
		}
		if !free {
			vAssert(sec == x, "subsector-mixes-sectors")
		}
	}
	bad := false
	for _, p := range r {
		a := c.b.segs[p]
		ax, ay := c.b.px[a.v1], c.b.py[a.v1]
		dx, dy := c.b.px[a.v2]-ax, c.b.py[a.v2]-ay
		for _, q := range r {
			if p == q {
				continue
			}
			b := c.b.segs[q]
			for _, v := range []int{b.v1, b.v2} {
				bad = vOr(bad, dy*(c.b.px[v]-ax)-dx*(c.b.py[v]-ay) < -c.slack(dx, dy))
			}
		}
	}
	vAssert(!bad, "subsector-not-convex")
	return r
}

// sector of a seg
func (c *vChecker) sector(k int) int {
	s := c.b.segs[k]
	l := c.m.lines[s.line]
	sd := l.FrontSdef
	if s.flip != 0 {
		sd = l.BackSdef
	}
	vAssert(sd != SIDEDEF_NONE, "seg-of-missing-side")
	return int(c.m.sides[sd].Sector)
}

// side: the segs of this side of the linedef cover it exactly
func (c *vChecker) side(l, flip int, noseg func(line, flip int) bool) {
	ld := c.m.lines[l]
	sd := ld.FrontSdef
	v1, v2 := int(ld.StartVertex), int(ld.EndVertex)
	if flip != 0 {
		sd = ld.BackSdef
		v1, v2 = v2, v1
	}
	n := 0
	for _, s := range c.b.segs {
		if s.line == l && s.flip == flip {
			n++
		}
	}
	if sd == SIDEDEF_NONE || (noseg != nil && noseg(l, flip)) {
		vAssert(n == 0, "seg-of-absent-side")
		return
	}
	vAssert(n > 0, "side-without-seg")
	k := c.b.scale
	ex, ey := c.m.vx[v1]*k, c.m.vy[v1]*k // chain: next start
	used := make([]bool, len(c.b.segs))
	for i := 0; i < n; i++ {
		found := -1
		for j, s := range c.b.segs {
			if s.line == l && s.flip == flip && !used[j] && vConcreteBool(vAnd(c.b.px[s.v1] == ex, c.b.py[s.v1] == ey)) {
				found = j
			}
		}
		vAssert(found >= 0, "segs-do-not-cover-linedef")
		used[found] = true
		s := c.b.segs[found]
		nx, ny := c.b.px[s.v2], c.b.py[s.v2]
		// same direction as the side
		if c.m.unit != 0 {
			c.diag(v1, v2, ex, ey, nx, ny, s)
			ex, ey = nx, ny
			continue
		}
		gx, gy := c.m.gx[v2]-c.m.gx[v1], c.m.gy[v2]-c.m.gy[v1]
		if gx == 0 {
			vAssert(vOr(nx == ex, c.m.loose && k > 1 && vAbs(nx-ex) <= 2), "seg-off-linedef")
			vAssert(vOr(vAnd(gy > 0, ny > ey), vAnd(gy < 0, ny < ey)), "seg-direction")
		} else {
			vAssert(vOr(ny == ey, c.m.loose && k > 1 && vAbs(ny-ey) <= 2), "seg-off-linedef")
			vAssert(vOr(vAnd(gx > 0, nx > ex), vAnd(gx < 0, nx < ex)), "seg-direction")
		}
		if s.off >= 0 {
			vAssert(s.off*k == vAbs(ex-c.m.vx[v1]*k)+vAbs(ey-c.m.vy[v1]*k), "seg-offset")
		}
		if s.angle >= 0 {
			want := 0
			switch {
			case gy > 0:
				want = 0x4000
			case gy < 0:
				want = 0xC000
			case gx < 0:
				want = 0x8000
			}
			if c.angle != nil {
				want = c.angle(l, flip, want)
			}
			vAssert(s.angle == want, "seg-angle")
		}
		ex, ey = nx, ny
	}
	vAssert(vAnd(ex == c.m.vx[v2]*k, ey == c.m.vy[v2]*k), "segs-do-not-cover-linedef")
}

func vConcreteBool(b bool) bool {
	if b {
		return true
	}
	return false
}

// vPoly draws sectors as polygons on a lattice, clockwise; points are two
// digits.  An edge that occurs in two sectors is a two-sided line.
func vPoly(x0, y0, unit int, sectors []string) *vLev {
	m := &vLev{vno: map[int]int{}, unit: unit}
	for i := 0; i < 10; i++ {
		m.xs = append(m.xs, x0+i*unit)
		m.ys = append(m.ys, y0+i*unit)
	}
	type edge struct{ x1, y1, x2, y2, sec int }
	var edges []edge
	for n, s := range sectors {
		first := 0
		for i := 0; i < len(s); i += 3 {
			k := i + 3
			if k >= len(s) || s[k-1] == '/' {
				k = first
				first = i + 3
			}
			edges = append(edges, edge{int(s[i] - '0'), int(s[i+1] - '0'), int(s[k] - '0'), int(s[k+1] - '0'), n})
		}
		m.sectors = append(m.sectors, Sector{CeilHeight: 128, FloorName: vName8("FLAT"), CeilName: vName8("CEIL"), LightLevel: uint16(160 + n)})
	}
	m.nsectors = len(sectors)
	done := make([]bool, len(edges))
	for i, e := range edges {
		if done[i] {
			continue
		}
		back := -1
		for j := i + 1; j < len(edges); j++ {
			f := edges[j]
			if !done[j] && e.x1 == f.x2 && e.y1 == f.y2 && e.x2 == f.x1 && e.y2 == f.y1 {
				back = f.sec
				done[j] = true
				break
			}
		}
		m.line(e.x1, e.y1, e.x2, e.y2, e.sec, back)
	}
	return m
}

// diag checks a seg (ex,ey)-(nx,ny) of the side v1-v2 of a line in any direction
func (c *vChecker) diag(v1, v2, ex, ey, nx, ny int, s vSeg) {
	k := c.b.scale
	gx, gy := c.m.gx[v2]-c.m.gx[v1], c.m.gy[v2]-c.m.gy[v1]
	x1, y1 := c.m.vx[v1]*k, c.m.vy[v1]*k
	vAssert(gx*(ny-y1) == gy*(nx-x1), "seg-off-linedef")
	vAssert(gx*(nx-ex)+gy*(ny-ey) > 0, "seg-direction")
	if s.off >= 0 {
		d2 := (ex-x1)*(ex-x1) + (ey-y1)*(ey-y1)
		vAssert(vOr(s.off*s.off*k*k == d2, vAnd((s.off-1)*(s.off-1)*k*k < d2, d2 < (s.off+1)*(s.off+1)*k*k)), "seg-offset")
	}
	if s.angle >= 0 {
		a := int(math.Round(math.Atan2(float64(gy), float64(gx)) * 32768 / math.Pi))
		df := (s.angle - a) & 0xffff
		vAssert(vOr(df <= 1, df == 0xffff), "seg-angle")
	}
}

// ---- maps ----

var vArts = [][]string{
	{"aa.", "a.."},
	{"ab"},
	{"aaa", "a.a", "aaa"},
	{"aaa", "aba", "aaa"},
	{".a.", "aaa", ".a."},
	{"a.b"},
	{"a.a", "aba"},
	{"aa.", ".a.", ".aa"},
	{"ab", "ba"},
	{"aab", "acb", "ccb"},
	{"abc", "a.c"},
	{"a.a", "...", "a.a"},
}

// vBspMap draws one of the maps; lo..hi are the sizes of cells
func vBspMap(art []string, merge bool, lo, hi int) *vLev {
	return vBspMapAt(art, merge, lo, hi, vInt("x0", -2000, 1000), vInt("y0", -2000, 1000))
}

func vBspMapAt(art []string, merge bool, lo, hi, x0, y0 int) *vLev {
	xs := vCoords("x", x0, len(art[0]), lo, hi)
	ys := vCoords("y", y0, len(art), lo, hi)
	return vGrid(xs, ys, art, merge)
}

func vBspBuild(m *vLev, in *NodesInput) *vBsp {
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	vAssert(b != nil, "no-nodes-built")
	vCheckBsp(m, b, nil)
	return b
}

func vBspRun(algo, lo, hi int, in *NodesInput) {
	in.pickNodeUser = algo
	vBspBuild(vBspMap(vArts[vPick("map", len(vArts))], vPick("merge", 2) == 1, lo, hi), in)
}

// vBspSmall are maps used when options multiply
var vBspSmall = []int{0, 2, 3, 6, 10}

func vBspOpt(algo int, in *NodesInput) {
	in.pickNodeUser = algo
	vBspBuild(vBspMap(vArts[vBspSmall[vPick("map", len(vBspSmall))]], vPick("merge", 2) == 1, 2, 40), in)
}

func vBspFmtMap() *vLev {
	x0, y0 := vInt("x0", 1024, 2000), vInt("y0", 1024, 2000)
	if vPick("quadrant", 2) == 1 {
		x0, y0 = x0-4000, y0-4000
	}
	return vBspMapAt(vArts[vBspSmall[vPick("map", len(vBspSmall))]], vPick("merge", 2) == 1, 2, 40, x0, y0)
}

var vPolys = [][]string{
	{"10 01 03 14 34 43 41 30"},
	{"00 04 44 40/21 32 23 12"},
	{"00 04 44 40/21 32 23 12", "21 12 23 32"},
	{"00 24 40 22"},
	{"00 04 44 40 21", "00 21 40"},
	{"00 04 44", "00 44 40"},
	{"01 04 34 43 41 22 20"},
	{"00 04 22", "04 44 22", "44 40 22", "40 00 22"},
	{"00 02 13 04 44 32 40 21"},
}

func vDiagRun(in *NodesInput, unit int) {
	p := vPolys[vPick("map", len(vPolys))]
	x0, y0 := vInt("x0", 1024, 2000), vInt("y0", 1024, 2000)
	if vPick("quadrant", 2) == 1 {
		x0, y0 = x0-9000, y0-9000
	}
	vBspBuild(vPoly(x0, y0, unit, p), in)
}

// vLimits builds with every format while only a few subsectors or segs can be
// numbered; what is put out must be valid, and the switch must happen
func vLimits(segs, ssecs int) {
	in := vNodesInput()
	f := vPick("format", 3)
	in.nodeType = []int{NODETYPE_VANILLA, NODETYPE_VANILLA_OR_DEEP, NODETYPE_VANILLA_OR_ZEXTENDED}[f]
	in.stkNode = vPick("stk", 2) == 1
	in.width = -1
	config.NodeThreads = int16(1 + vPick("threads", 2))
	m := vBspFmtMap()
	res, lines := vRunNodes(m, in)
	b := vReadBsp(res, lines)
	if ssecs < 8 && b != nil && len(b.ssec) >= 8 {
		return // one bit of the mask is looked at
	}
	if f == 0 {
		vReach("vanilla")
		if b == nil {
			vReach("emptied")
			vAssert(len(res.segs) == 0 && len(res.subsectors) == 0 && len(res.nodes) == 0, "partly-emptied")
			return
		}
	}
	vAssert(b != nil, "no-nodes-built")
	if res.nodes == nil {
		vReach("switched")
		if f == 1 {
			most := 0
			for _, s := range b.ssec {
				most = vMax(most, s[1])
			}
			vAssert(vOr(len(b.segs)-most > segs, len(b.ssec) > ssecs), "switched-needlessly")
		}
	} else {
		vReach("kept")
		vAssert(vAnd(f >= 0, len(b.ssec) <= ssecs), "too-many-subsectors-for-format")
		for _, s := range b.ssec {
			vAssert(s[0] <= segs, "seg-index-beyond-limit")
		}
	}
	vCheckBsp(m, b, nil)
}

func vFindLine(m *vLev, f func(l Linedef) bool) int {
	for i, l := range m.lines {
		if f(l) {
			return i
		}
	}
	return -1
}

func (m *vLev) sec(side uint16) int {
	if side == SIDEDEF_NONE {
		return -1
	}
	return int(m.sides[side].Sector)
}

// the line between two sectors (-1: none)
func (m *vLev) between(a, b int) int {
	return vFindLine(m, func(l Linedef) bool {
		f, g := m.sec(l.FrontSdef), m.sec(l.BackSdef)
		return f == a && g == b || f == b && g == a
	})
}


// vRandom is a generator of numbers, for drawing level k
func vRandom(k int) func(n int) int {
	seed := uint32(k)*2654435761 + 12345
	return func(n int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>16) % n
	}
}

// vDraw draws a level of w x h cells by laying rectangles of sectors over each
// other; it also returns the number of sectors
func vDraw(rnd func(n int) int, w, h, sectors, void int) ([]string, int) {
	cells := make([]byte, w*h)
	for i := range cells {
		cells[i] = '.'
	}
	for t := rnd(2*w) + w; t > 0; t-- {
		i, j, c := rnd(w), rnd(h), byte('a'+rnd(sectors+1+void))
		if int(c) >= 'a'+sectors {
			c = '.'
		}
		wi, he := 1+rnd(w-1), 1+rnd(h-1)
		for y := j; y < h && y < j+he; y++ {
			for x := i; x < w && x < i+wi; x++ {
				cells[y*w+x] = c
			}
		}
	}
	ren := map[byte]byte{'.': '.'}
	var art []string
	for j := 0; j < h; j++ {
		var row []byte
		for i := 0; i < w; i++ {
			c := cells[j*w+i]
			if ren[c] == 0 {
				ren[c] = byte('a' + len(ren) - 1)
			}
			row = append(row, ren[c])
		}
		art = append(art, string(row))
	}
	return art, len(ren) - 1
}
