package main

// Multi-tree: which trees are made, and which one is delivered.

// vTree is what a tree is judged by, read from its lumps
type vTree struct {
	res       NodesResult
	b         *vBsp
	line      int
	precious  bool // a line that should be in one piece is not
	ssec      int
	diff, max int // heights below the root
	segs      int
	verts     int
}

// vHeights: a subsector has height 0, otherwise one more than the number of
// levels of nodes
func (t *vTree) height(n int) int {
	if n < 0 {
		return 0
	}
	return t.levels(n) + 1
}

func (t *vTree) levels(n int) int {
	if n < 0 {
		return 0
	}
	return 1 + vMax(t.levels(t.b.nodes[n].r), t.levels(t.b.nodes[n].l))
}

func vTreeRead(m *vLev, res NodesResult, lines *DoomLinedefs, line int) *vTree {
	t := &vTree{res: res, b: vReadBsp(res, lines), line: line}
	vAssert(t.b != nil, "no-nodes-built")
	t.ssec, t.segs, t.verts = len(t.b.ssec), len(t.b.segs), len(lines.vertices)
	if t.b.scale != 1 {
		t.verts = len(t.b.px)
	}
	parts := make([]int, len(m.lines))
	for _, s := range t.b.segs {
		parts[s.line]++
	}
	for i, l := range m.lines {
		whole := 1
		if l.BackSdef != SIDEDEF_NONE {
			whole = 2
		}
		if l.Tag >= 900 && l.Tag != 998 && l.Tag != 999 && parts[i] > whole {
			t.precious = true
		}
	}
	root := t.b.nodes[len(t.b.nodes)-1]
	l, r := t.height(root.l), t.height(root.r)
	t.diff, t.max = vMax(l-r, r-l), vMax(l, r)
	return t
}

// vTreeBetter: the documented order; of equal trees the earlier line's is kept
func vTreeBetter(n, o *vTree) bool {
	if n.precious != o.precious {
		return o.precious
	}
	if n.ssec != o.ssec {
		return n.ssec < o.ssec
	}
	if n.diff != o.diff {
		return n.diff < o.diff
	}
	if n.max != o.max {
		return n.max < o.max
	}
	return n.segs < o.segs
}

// vTreeRoots: the first line of each straight line, among those asked for
func vTreeRoots(m *vLev, mode int) []int {
	var r []int
	for i, l := range m.lines {
		kind := MROOT_ONESIDED
		if l.BackSdef != SIDEDEF_NONE {
			kind = MROOT_TWOSIDED
		}
		if mode&kind == 0 {
			continue
		}
		again := false
		for _, k := range r {
			o := m.lines[k]
			ax, ay := m.vx[o.StartVertex], m.vy[o.StartVertex]
			dx, dy := m.vx[o.EndVertex]-ax, m.vy[o.EndVertex]-ay
			side := func(v uint16) int { return (m.vx[v]-ax)*dy - (m.vy[v]-ay)*dx }
			if vConcreteBool(vAnd(side(l.StartVertex) == 0, side(l.EndVertex) == 0)) {
				again = true
				break
			}
		}
		if !again {
			r = append(r, i)
		}
	}
	if len(r) == 0 && mode != MROOT_EVERY {
		return vTreeRoots(m, MROOT_EVERY)
	}
	return r
}

func vSameTree(a, b *vTree) bool {
	if len(a.b.segs) != len(b.b.segs) || len(a.b.ssec) != len(b.b.ssec) || len(a.b.nodes) != len(b.b.nodes) || len(a.b.px) != len(b.b.px) {
		return false
	}
	ok := true
	for i := range a.b.px {
		ok = vAnd(ok, vAnd(a.b.px[i] == b.b.px[i], a.b.py[i] == b.b.py[i]))
	}
	for i, s := range a.b.segs {
		t := b.b.segs[i]
		ok = vAnd(ok, vAnd(vAnd(s.v1 == t.v1, s.v2 == t.v2), vAnd(s.line == t.line, s.flip == t.flip)))
		ok = vAnd(ok, vAnd(s.angle == t.angle, s.off == t.off))
	}
	for i, s := range a.b.ssec {
		ok = vAnd(ok, vAnd(s[0] == b.b.ssec[i][0], s[1] == b.b.ssec[i][1]))
	}
	for i, n := range a.b.nodes {
		o := b.b.nodes[i]
		ok = vAnd(ok, vAnd(vAnd(n.x == o.x, n.y == o.y), vAnd(n.dx == o.dx, n.dy == o.dy)))
		ok = vAnd(ok, vAnd(n.r == o.r, n.l == o.l))
		for k := 0; k < 4; k++ {
			ok = vAnd(ok, vAnd(n.lbox[k] == o.lbox[k], n.rbox[k] == o.rbox[k]))
		}
	}
	return ok
}

// vTreeLevel draws level k; mk gives its settings anew for each building
// (in one place if vTreeFixed is set)
var vTreeFixed bool

func vTreeLevel(k, w, h int) (m *vLev, mk func() *NodesInput, mode int) {
	rnd := vRandom(k)
	art, kinds := vDraw(rnd, w, h, 4, k%2*3)
	if kinds < 1 {
		return nil, nil, 0
	}
	algo := []int{0, 1, 3, 4}[rnd(4)]
	minor, detail, deep, side, factor := rnd(5), rnd(4), rnd(2) == 1, rnd(2) == 1, 1+rnd(40)
	stk := rnd(3) == 0
	format := []int{NODETYPE_VANILLA, NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_VANILLA_RELAXED, NODETYPE_VANILLA_OR_DEEP}[rnd(5)]
	config.StraightNodes = rnd(4) == 0
	mode = 1 + rnd(3)
	mk = func() *NodesInput {
		in := vNodesInput()
		in.pickNodeUser, in.minorIsBetterUser, in.detailFriendliness = algo, minor, detail
		in.depthArtifacts, in.cacheSideness, in.pickNodeFactor = deep, side, factor
		in.multiTreeMode, in.specialRootMode = MULTITREE_ROOT_ONLY, mode
		in.nodeType = format
		if stk {
			in.stkNode = true
			in.width = -1
		}
		return in
	}
	sizes := []int{64, 16, 40, 88, 5, 31}
	xs, ys := []int{rnd(6000) - 3000}, []int{rnd(6000) - 3000}
	if !vTreeFixed {
		xs[0], ys[0] = vInt("x0", -3000, 3000), vInt("y0", -3000, 3000)
	}
	for i := 0; i < w; i++ {
		xs = append(xs, xs[i]+sizes[rnd(6)])
	}
	for i := 0; i < h; i++ {
		ys = append(ys, ys[i]+sizes[rnd(6)])
	}
	m = vGrid(xs, ys, art, rnd(3) > 0)
	m.loose = true
	if rnd(2) == 0 {
		for i := range m.lines {
			if rnd(3) == 0 {
				m.lines[i].Tag = []uint16{900, 950, 999}[rnd(3)]
			}
		}
	}
	for i := len(m.lines) - 1; i > 0; i-- {
		j := rnd(i + 1)
		m.lines[i], m.lines[j] = m.lines[j], m.lines[i]
	}
	config.NodeThreads = int16(1 + rnd(3))
	config.SpeedTree = rnd(2) == 0
	return m, mk, mode
}

// vTrees builds the tree of each root alone
func vTrees(m *vLev, mk func() *NodesInput, mode int) []*vTree {
	var r []*vTree
	for _, i := range vTreeRoots(m, mode) {
		in := mk()
		li := uint16(i)
		in.linedefForMTP = &li
		res, lines := vRunNodes(m, in)
		r = append(r, vTreeRead(m, res, lines, i))
	}
	return r
}

// vMultiTree: the tree delivered is the best of those whose root is one of the
// lines asked for
func vMultiTree(k, w, h int) {
	m, mk, mode := vTreeLevel(k, w, h)
	if m == nil || len(m.lines) < 4 {
		return
	}
	vMultiTreeOf(m, mk, mode)
}

func vMultiTreeOf(m *vLev, mk func() *NodesInput, mode int) {
	var best *vTree
	trees := vTrees(m, mk, mode)
	for _, t := range trees {
		if best == nil || vTreeBetter(t, best) {
			best = t
		}
	}
	if len(trees) > 1 && best != trees[0] {
		vReach("not-the-first")
	}
	if best.precious {
		vReach("precious")
	}
	res, lines := vRunNodes(m, mk())
	got := vTreeRead(m, res, lines, -1)
	vAssert(vSameTree(got, best), "not-the-best-tree")
}

// the number of segs before the largest subsector if that comes last
func (t *vTree) before() int {
	most := 0
	for _, s := range t.b.ssec {
		most = vMax(most, s[1])
	}
	return t.segs - most
}

// vSameNode compares the trees below two nodes, wherever their parts are stored
func vSameNode(a, b *vTree, n, o int) bool {
	if (n < 0) != (o < 0) {
		return false
	}
	if n < 0 {
		s, t := a.b.ssec[-1-n], b.b.ssec[-1-o]
		if s[1] != t[1] {
			return false
		}
		ok := true
		for i := 0; i < s[1]; i++ {
			u, v := a.b.segs[s[0]+i], b.b.segs[t[0]+i]
			ok = vAnd(ok, vAnd(vAnd(u.line == v.line, u.flip == v.flip), u.off == v.off))
		}
		return ok
	}
	x, y := a.b.nodes[n], b.b.nodes[o]
	ok := vAnd(vAnd(x.x == y.x, x.y == y.y), vAnd(x.dx == y.dx, x.dy == y.dy))
	return vAnd(ok, vAnd(vSameNode(a, b, x.r, y.r), vSameNode(a, b, x.l, y.l)))
}

// vTreeLimits: trees that can be stored are preferred
func vTreeLimits(k, w, h, signed, unsigned int) {
	m, mk0, mode := vTreeLevel(k, w, h)
	if m == nil || len(m.lines) < 4 {
		return
	}
	rnd := vRandom(k + 1000000)
	format := []int{NODETYPE_VANILLA, NODETYPE_VANILLA_RELAXED, NODETYPE_VANILLA_OR_DEEP}[rnd(3)]
	detail := 1 + rnd(2)
	able := rnd(4) == 0
	config.Ableist = able
	mk := func(f int) *NodesInput {
		in := mk0()
		in.nodeType = f
		in.detailFriendliness = detail
		return in
	}
	trees := vTrees(m, func() *NodesInput { return mk(NODETYPE_DEEP) }, mode)
	limit := []int{signed, unsigned, 1 << 30}
	if able {
		limit = limit[2:]
	} else if format != NODETYPE_VANILLA {
		limit = limit[1:]
	}
	var best *vTree
	for _, lim := range limit {
		for _, t := range trees {
			if t.before() <= lim && (best == nil || vTreeBetter(t, best)) {
				best = t
			}
		}
		if best != nil {
			break
		}
	}
	for _, t := range trees {
		if vTreeBetter(t, best) {
			vReach("better-does-not-fit")
		}
	}
	res, lines := vRunNodes(m, mk(format))
	if best.before() > unsigned {
		switch format {
		case NODETYPE_VANILLA, NODETYPE_VANILLA_RELAXED:
			vReach("emptied")
			vAssert(len(res.segs) == 0 && len(res.subsectors) == 0 && len(res.nodes) == 0, "stored-what-does-not-fit")
			return
		case NODETYPE_VANILLA_OR_DEEP:
			vReach("deep")
			vAssert(res.deepNodes != nil, "not-switched-to-deep")
		}
	} else {
		vReach("vanilla")
		vAssert(res.nodes != nil && res.deepNodes == nil, "not-vanilla")
	}
	got := vTreeRead(m, res, lines, -1)
	if best.before() <= signed && format == NODETYPE_VANILLA && !able {
		vReach("strict")
		for _, s := range got.b.ssec {
			vAssert(s[0] <= signed, "beyond-signed-limit")
		}
	}
	vAssert(vSameNode(got, best, len(got.b.nodes)-1, len(best.b.nodes)-1), "not-the-best-tree-that-fits")
}

// vTreeExtended: extended nodes are made when no tree fits, with the root of
// the best
func vTreeExtended(k, w, h, unsigned int) {
	vTreeFixed = true
	m, mk0, mode := vTreeLevel(k, w, h)
	if m == nil || len(m.lines) < 4 {
		return
	}
	mk := func(f int) *NodesInput {
		in := mk0()
		in.nodeType = f
		in.detailFriendliness = 1 + k%2
		return in
	}
	config.Ableist = k%5 == 0
	first := NODETYPE_DEEP // what vanilla nodes would be
	if config.Ableist {
		first = NODETYPE_ZDOOM_EXTENDED
	}
	trees := vTrees(m, func() *NodesInput { return mk(first) }, mode)
	var best, fits *vTree
	for _, t := range trees {
		if best == nil || vTreeBetter(t, best) {
			best = t
		}
		if t.before() <= unsigned && (fits == nil || vTreeBetter(t, fits)) {
			fits = t
		}
	}
	res, lines := vRunNodes(m, mk(NODETYPE_VANILLA_OR_ZEXTENDED))
	got := vTreeRead(m, res, lines, -1)
	if fits != nil && !config.Ableist {
		vReach("vanilla")
		vAssert(res.nodes != nil && res.rawNodes == nil, "not-vanilla")
		vAssert(vSameNode(got, fits, len(got.b.nodes)-1, len(fits.b.nodes)-1), "not-the-best-tree-that-fits")
		return
	}
	vReach("extended")
	vAssert(res.rawNodes != nil, "not-extended")
	in := mk(NODETYPE_ZDOOM_EXTENDED)
	li := uint16(best.line)
	in.linedefForMTP = &li
	res, lines = vRunNodes(m, in)
	vAssert(vSameTree(got, vTreeRead(m, res, lines, best.line)), "other-root-in-extended-nodes")
}
