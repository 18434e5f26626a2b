package main

// RMB options: effects on a reject table.

// vRmbWork runs the options on a table of n x n cells, as the variants of reject do
func vRmbWork(how, n int, table []byte, dist []uint16, hasGroups bool, groups []RejGroup, fr *RMBFrame) []byte {
	if !fr.NeedDistances() {
		dist = nil
	}
	switch how {
	case 0:
		r := &RejectWork{numSectors: n, rejectTable: table, distanceTable: dist, hasGroups: hasGroups, groups: groups, rmbFrame: fr}
		fr.ProcessOptionsRMB(r)
		return r.rejectTable
	case 1:
		r := &FastRejectWork{numSectors: n, rejectTable: table, distanceTable: dist, hasGroups: hasGroups, groups: groups, rmbFrame: fr}
		fr.FastProcessOptionsRMB(r)
		return r.rejectTable
	}
	r := &SymmetricRejectWork{numSectors: n, distanceTable: dist, hasGroups: hasGroups, groups: groups, rmbFrame: fr}
	r.prepareReject()
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			*r.rejectTableIJ(i, j) = table[i*n+j]
		}
	}
	fr.SymmetricProcessOptionsRMB(r)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			table[i*n+j] = *r.rejectTableIJ(i, j)
		}
	}
	return table
}

type vBlind struct {
	set, band, inv bool // of the band
	lo, hi         int
	plain, inverse bool
	p, i           int
}

func (b *vBlind) hides(d int) bool {
	r := false
	if b.band {
		in := vAnd(d >= b.lo, d < b.hi)
		if b.inv {
			in = !in
		}
		return in
	}
	if b.plain {
		r = d >= b.p
	}
	if b.inverse {
		r = vOr(r, d < b.i)
	}
	if b.plain && b.inverse {
		r = vIte2(b.i > b.p, vAnd(d >= b.p, d < b.i), r)
	}
	return r
}

func vIte2(c, a, b bool) bool { return vOr(vAnd(c, a), vAnd(!c, b)) }

func vRmbBlind(cmds int, lists [][]int, n int) {
	how := vPick("how", 2)
	var glob, loc []RMBCommand
	var opts [2][]vBlind // blind, safe; by sector
	opts[0], opts[1] = make([]vBlind, n), make([]vBlind, n)
	group := vPick("group", 3)
	local := vPick("local", cmds+1) // how many are of the level itself
	for k := 0; k < cmds; k++ {
		c := RMBCommand{Type: []int{RMB_BLIND, RMB_SAFE}[vPick("kind", 2)], Invert: vPick("invert", 2) == 1, Band: vPick("band", 2) == 1}
		c.Data[0] = vInt("a", 0, 6)
		if c.Band {
			c.Data[1] = vInt("b", 0, 6)
			vAssume(c.Data[0] <= c.Data[1])
		}
		c.List[0] = lists[vPick("list", len(lists))]
		if k < cmds-local {
			glob = append(glob, c)
		} else {
			loc = append(loc, c)
		}
		for _, s := range c.List[0] {
			var to []int
			for t := 0; t < n; t++ {
				if vRmbGroup(group, s) == vRmbGroup(group, t) {
					to = append(to, t)
				}
			}
			for _, t := range to {
				o := &opts[0][t]
				if c.Type == RMB_SAFE {
					o = &opts[1][t]
				}
				if c.Band {
					o.band, o.inv, o.lo, o.hi = true, c.Invert, c.Data[0], c.Data[1]
				} else if c.Invert {
					o.inverse, o.i = true, c.Data[0]
				} else {
					o.plain, o.p = true, c.Data[0]
				}
			}
		}
	}
	switch group {
	case 1:
		glob = append([]RMBCommand{{Type: RMB_GROUP, Data: [2]int{0}, List: [2][]int{{2}}}}, glob...)
	case 2:
		loc = append(loc, RMBCommand{Type: RMB_GROUP, Data: [2]int{2}, List: [2][]int{{0}}})
	}
	fr := &RMBFrame{Commands: loc, Parent: &RMBFrame{Commands: glob}}
	if vPick("frames", 2) == 1 {
		fr = &RMBFrame{Commands: append(glob, loc...)}
	}
	vAssert(!fr.CompatibleWithSymmetry(), "not-symmetric")
	fr = fr.Optimize()
	hasGroups, groups := fr.LoadGroups(n)
	table := make([]byte, n*n+7)
	before := make([]bool, n*n)
	for i := range before {
		before[i] = vBool("hidden")
		table[i] = uint8(vIte(before[i], int(VIS_HIDDEN), int(VIS_VISIBLE)))
	}
	var dist []uint16
	d := make([]int, n*n)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			k := 0
			if vRmbGroup(group, i) != vRmbGroup(group, j) {
				k = vInt("dist", 1, 7)
			}
			d[i*n+j], d[j*n+i] = k, k
			dist = append(dist, uint16(k))
		}
	}
	if group > 0 {
		for j := 0; j < n; j++ {
			vAssume(d[0*n+j] == d[2*n+j])
		}
	}
	table = vRmbWork(how, n, table, dist, hasGroups, groups, fr)
	ok := true
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			want := vOr(before[i*n+j], vOr(opts[0][i].hides(d[i*n+j]), opts[1][j].hides(d[i*n+j])))
			ok = vAnd(ok, want == isHidden(table[i*n+j]))
		}
	}
	vAssert(ok, "blind-safe")
}

// vRmbGroup: 0 and 2 may be grouped
func vRmbGroup(group, s int) int {
	if group > 0 && s == 2 {
		return 0
	}
	return s
}

// BLIND and SAFE hide what they say
//
//verif:prop C15
//verif:bound 3 sectors
func H_RmbBlind() {
	vRmbBlind(2, [][]int{{0}, {1, 2}}, 3)
}

func vRmbTable(n int, symm bool) ([]byte, []bool) {
	table := make([]byte, n*n+7)
	seen := make([]bool, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k := i*n + j
			if symm && j < i {
				seen[k] = seen[j*n+i]
			} else {
				seen[k] = vOr(i == j, vBool("seen"))
			}
			table[k] = uint8(vIte(seen[k], int(VIS_VISIBLE), int(VIS_HIDDEN)))
		}
	}
	return table, seen
}

// INCLUDE and EXCLUDE set what they say, EXCLUDE first
//
//verif:prop C15
//verif:tier quick
//verif:bound 2 options, 4 sectors
func H_RmbInclude() { vRmbInclude(2) }

//verif:prop C15
//verif:tier thorough
//verif:bound 3 options, 4 sectors
func H_RmbInclude3() { vRmbInclude(3) }

func vRmbInclude(cmds int) {
	const n = 4
	lists := [][]int{{0}, {2, 7}, {0, 3}}
	how := vPick("how", 2)
	group := vPick("group", 2)
	var loc, glob []RMBCommand
	local := vPick("local", 2)
	inc, exc := make([]bool, n*n), make([]bool, n*n)
	for k := 0; k < cmds; k++ {
		c := RMBCommand{Type: []int{RMB_INCLUDE, RMB_EXCLUDE}[vPick("kind", 2)]}
		c.List[0] = lists[vPick("list", len(lists))]
		c.List[1] = lists[vPick("list", len(lists))]
		if k < local {
			loc = append(loc, c)
		} else {
			glob = append(glob, c)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if vRmbIn(c.List[0], i, group) && vRmbIn(c.List[1], j, group) {
					if c.Type == RMB_INCLUDE {
						inc[i*n+j] = true
					} else {
						exc[i*n+j] = true
					}
				}
			}
		}
	}
	if group == 1 {
		glob = append(glob, RMBCommand{Type: RMB_GROUP, Data: [2]int{0}, List: [2][]int{{2}}})
	}
	fr := &RMBFrame{Commands: loc, Parent: &RMBFrame{Commands: glob}}
	vAssert(!fr.CompatibleWithSymmetry(), "not-symmetric")
	fr = fr.Optimize()
	hasGroups, groups := fr.LoadGroups(n)
	vAssert(hasGroups == (group == 1), "has-groups")
	table, seen := vRmbTable(n, false)
	table = vRmbWork(how, n, table, nil, hasGroups, groups, fr)
	ok := true
	for k := range seen {
		want := seen[k]
		if exc[k] {
			want = false
		} else if inc[k] {
			want = true
		}
		ok = vAnd(ok, want != isHidden(table[k]))
	}
	vAssert(ok, "include-exclude")
}

// vRmbIn: sector s is meant by the list; sector 2 may be in the group of sector 0
func vRmbIn(list []int, s, group int) bool {
	for _, l := range list {
		if l == s || group == 1 && l == 0 && s == 2 {
			return true
		}
	}
	return false
}

// VORTEX passes sight on
//
//verif:prop C15
//verif:bound 1 VORTEX of lists of up to two, 4 sectors, any table
func H_RmbVortex() {
	vRmbVortex(4, 1, [][]int{{0}, {1}, {2, 3}, {3, 9}}, vPick("how", 2), vPick("group", 2))
}

//verif:prop C15
//verif:bound 2 VORTEXes of one sector each, 4 sectors, symmetric tables
func H_RmbVortex2() {
	vRmbVortex(4, 2, [][]int{{0}, {1}, {2}, {3}}, 2, 0)
}

func vRmbVortex(n, count int, lists [][]int, how, group int) {
	var cmds []RMBCommand
	var ls [][]int
	for k := 0; k < count; k++ {
		c := RMBCommand{Type: RMB_VORTEX}
		c.List[0] = lists[vPick("list", len(lists))]
		c.List[1] = lists[vPick("list", len(lists))]
		cmds = append(cmds, c)
		ls = append(ls, c.List[0], c.List[1])
	}
	if group == 1 {
		cmds = append(cmds, RMBCommand{Type: RMB_GROUP, Data: [2]int{0}, List: [2][]int{{2}}})
	}
	fr := &RMBFrame{Commands: cmds}
	vAssert(fr.CompatibleWithSymmetry(), "symmetric")
	fr = fr.Optimize()
	hasGroups, groups := fr.LoadGroups(n)
	table, seen := vRmbTable(n, how == 2)
	if group == 1 {
		for i := 0; i < n; i++ {
			vAssume(seen[i] == seen[2*n+i] || i == 0 || i == 2)
			vAssume(seen[i*n] == seen[i*n+2] || i == 0 || i == 2)
		}
		vAssume(vAnd(seen[2], seen[2*n]))
	}
	table = vRmbWork(how, n, table, nil, hasGroups, groups, fr)
	now := func(i, j int) bool { return !isHidden(table[i*n+j]) }
	member := make([]bool, n)
	touch := make([]bool, n)
	ok := true
	for v := range ls {
		for i := 0; i < n; i++ {
			if !vRmbIn(ls[v], i, group) {
				continue
			}
			member[i] = true
			for j := 0; j < n; j++ {
				if !vRmbIn(ls[v^1], j, group) {
					continue
				}
				// across the vortex
				ok = vAnd(ok, now(i, j))
				for x := 0; x < n; x++ {
					for y := 0; y < n; y++ {
						// x sees i, j sees y
						ok = vAnd(ok, vOr(now(x, y), !vAnd(seen[x*n+i], seen[j*n+y])))
					}
				}
				// to the other end of another vortex
				for w := range ls {
					if w>>1 == v>>1 {
						continue
					}
					for a := 0; a < n; a++ {
						for b := 0; b < n; b++ {
							if vRmbIn(ls[w], a, group) && vRmbIn(ls[w^1], b, group) {
								ok = vAnd(ok, vOr(!seen[j*n+a], vAnd(now(i, a), vAnd(now(j, b), now(i, b)))))
							}
						}
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		touch[i] = member[i]
		for j := 0; j < n; j++ {
			if member[j] {
				touch[i] = vOr(touch[i], vOr(seen[i*n+j], seen[j*n+i]))
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			ok = vAnd(ok, vOr(now(i, j), !seen[i*n+j]))
			ok = vAnd(ok, vOr(vAnd(touch[i], touch[j]), now(i, j) == seen[i*n+j]))
		}
	}
	vAssert(ok, "vortex")
}

// the variant for symmetric tables does the same as the others
//
//verif:prop C15
//verif:bound 1-2 VORTEX, 4 sectors, symmetric tables
func H_RmbVortexSymm() {
	const n = 4
	var cmds []RMBCommand
	if vPick("count", 2) == 0 {
		lists := [][]int{{0}, {1}, {2, 3}, {3}}
		cmds = []RMBCommand{{Type: RMB_VORTEX, List: [2][]int{lists[vPick("list", 4)], lists[vPick("list", 4)]}}}
	} else {
		// up to renaming of sectors
		two := [][4]int{{0, 1, 2, 3}, {0, 1, 1, 2}, {0, 1, 2, 1}, {1, 0, 1, 2}, {0, 0, 1, 2}, {0, 0, 0, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}}[vPick("two", 8)]
		cmds = []RMBCommand{{Type: RMB_VORTEX, List: [2][]int{{two[0]}, {two[1]}}}, {Type: RMB_VORTEX, List: [2][]int{{two[2]}, {two[3]}}}}
	}
	fr := &RMBFrame{Commands: cmds}
	hasGroups, groups := fr.LoadGroups(n)
	table, _ := vRmbTable(n, true)
	copied := append([]byte{}, table...)
	a := vRmbWork(1, n, table, nil, hasGroups, groups, fr)
	b := vRmbWork(2, n, copied, nil, hasGroups, groups, fr)
	ok := true
	for k := 0; k < n*n; k++ {
		ok = vAnd(ok, isHidden(a[k]) == isHidden(b[k]))
	}
	vAssert(ok, "symmetric-variant")
}

// options for sectors and lines that are not there do nothing
//
//verif:prop C15
//verif:bound 3 sectors; any sector numbers from -2 to 4, any line numbers up to 70000
func H_RmbOutside() {
	n := 3
	a, b := vInt("a", -2, 4), vInt("b", -2, 4)
	typ := []int{RMB_INCLUDE, RMB_EXCLUDE, RMB_GROUP, RMB_BLIND, RMB_SAFE, RMB_VORTEX, RMB_LINE}[vPick("option", 7)]
	c := RMBCommand{Type: typ}
	c.List[0], c.List[1] = []int{a}, []int{b}
	if typ == RMB_BLIND || typ == RMB_SAFE {
		c.Data[0] = vPick("distance", 3)
	} else if typ == RMB_GROUP {
		c.Data[0] = b
	}
	fr := &RMBFrame{Commands: []RMBCommand{c}}
	if typ == RMB_LINE {
		x, y, z := vInt("line", -70000, 70000), vInt("line2", -70000, 70000), vU16("of")
		fr.Commands[0].Data[0] = x
		c.Data[0] = y
		fr.Commands = append(fr.Commands, c)
		in := &RejectInternalSetup{rmbFrame: fr}
		in.RMBLoadLineEffects()
		vAssert(in.HasRMBEffectLINE(z) == vOr(x == int(z), y == int(z)), "lines")
		return
	}
	out := a < 0 || a >= n || ((typ == RMB_INCLUDE || typ == RMB_EXCLUDE || typ == RMB_GROUP || typ == RMB_VORTEX) && (b < 0 || b >= n))
	fr = fr.Optimize()
	hasGroups, groups := fr.LoadGroups(n)
	if out {
		vAssert(!hasGroups, "no-group")
	}
	for i := range groups {
		if out {
			vAssert(groups[i].parent == i && len(groups[i].sectors) == 1, "no-group")
		} else if typ == RMB_GROUP && a != b {
			vAssert(hasGroups, "group")
			vAssert(groups[i].parent == vIte(i == a, b, i), "group")
		}
	}
	table, was := vRmbTable(n, false)
	dist := make([]uint16, n*n)
	for i := range dist {
		dist[i] = 1
		if i%(n+1) == 0 {
			dist[i] = 0
		}
	}
	table = vRmbWork(vPick("how", 2), n, table, dist, hasGroups, groups, fr)

	if out {
		for i := range was {
			vAssert(isHidden(table[i]) == !was[i], "nothing")
		}
	}
}

// ASSERT accepts an old table exactly when it has what is asserted
//
//verif:prop C15
//verif:bound up to 2 ASSERTs of lists of up to two sectors, 3 sectors, any table
func H_RmbAssert() {
	n := 3
	table, seen := vRmbTable(n, false)
	lists := [][]int{{0}, {1, 2}, {3}, {-1, 0}}
	want := true
	var glob, loc []RMBCommand
	count := vPick("count", 3)
	group := vPick("group", 2)
	if group == 1 {
		loc = append(loc, RMBCommand{Type: RMB_GROUP, Data: [2]int{0}, List: [2][]int{{1, 2}}})
	}
	for k := 0; k < count; k++ {
		c := RMBCommand{Type: RMB_ASSERT}
		v := vInt("value", -1, 2)
		c.Data[0] = v
		c.List[0], c.List[1] = lists[vPick("from", len(lists))], lists[vPick("to", len(lists))]
		want = vAnd(want, vOr(v == 0, v == 1))
		for _, i := range c.List[0] {
			for _, j := range c.List[1] {
				if i < 0 || i >= n || j < 0 || j >= n {
					want = false
				} else {
					want = vAnd(want, seen[i*n+j] == (v == 0))
				}
			}
		}
		if vPick("local", 2) == 1 {
			loc = append(loc, c)
		} else {
			glob = append(glob, c)
		}
	}
	fr := &RMBFrame{Commands: loc, Parent: &RMBFrame{Commands: glob}}
	ok, any := fr.CheckASSERTions(table, n)
	vAssert(any == (count > 0), "any")
	vAssert(ok == want, "assert")
}

type vBuf struct{ b []byte }

func (w *vBuf) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

// REPORT lists the pairs that see each other over more than the distance
//
//verif:prop C15
//verif:bound 3 sectors, any distances and tables
func H_RmbReport() {
	n := 3
	table, seen := vRmbTable(n, false)
	dist := make([]uint16, n*n)
	d := vInt("distance", 0, 65535)
	how := vPick("how", 3)
	var want []byte
	buf := &vBuf{}
	r0 := &RejectWork{numSectors: n, rejectTable: table, distanceTable: dist, mapName: "MAP01"}
	r1 := &FastRejectWork{numSectors: n, rejectTable: table, distanceTable: dist, mapName: "MAP01"}
	r2 := &SymmetricRejectWork{numSectors: n, distanceTable: dist, mapName: "MAP01"}
	var rep func(uint16)
	rmb := &LoadedRMB{CRLF: vPick("crlf", 2) == 1}
	fr := &RMBFrame{RMB: rmb}
	r0.rmbFrame, r1.rmbFrame, r2.rmbFrame = fr, fr, fr
	if how == 2 {
		r2.prepareReject()
	}
	eol := "\n"
	if rmb.CRLF {
		eol = "\r\n"
	}
	switch how {
	case 0:
		rep = func(x uint16) { r0.reportDoForDistance(buf, x) }
	case 1:
		rep = func(x uint16) { r1.reportDoForDistance(buf, x) }
	case 2:
		rep = func(x uint16) { r2.reportDoForDistance(buf, x) }
	}
	head := true
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			x := vInt("of", 0, 65535)
			s, t := seen[i*n+j], seen[j*n+i]
			switch how {
			case 0:
				*r0.distanceTableIJ(i, j) = uint16(x)
			case 1:
				*r1.distanceTableIJ(i, j) = uint16(x)
			case 2:
				*r2.distanceTableIJ(i, j) = uint16(x)
				*r2.rejectTableIJ(i, j) = table[i*n+j]
				t = s
			}
			if vConcreteBool(vAnd(x > d, vAnd(s, t))) {
				want = append(want, byte('0'+i), ',', byte('0'+j))
				want = append(want, eol...)
			}
		}
	}
	rep(uint16(d))
	k := 0
	for k < len(buf.b) && buf.b[k] != '\n' {
		k++
	}
	head = k < len(buf.b) && buf.b[0] == '#'
	vAssert(head, "heading")
	if !head {
		return
	}
	got := buf.b[k+1:]
	vAssert(len(got) == len(want), "pairs")
	if len(got) == len(want) {
		for i := range got {
			vAssert(got[i] == want[i], "pairs")
		}
	}
}
