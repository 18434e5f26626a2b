package main

// Which blocks a line of sight is taken to pass through.

var vSightDirs = [][2]int{
	{300, 0}, {0, 300}, {-300, 0}, {0, -300}, {300, 300}, {-300, 300}, {300, -300}, {-257, -257},
	{300, 40}, {-300, 40}, {300, -40}, {-300, -40}, {40, 300}, {-40, 300}, {40, -300}, {-40, -300},
	{511, 129}, {-511, 130}, {384, -257}, {-300, -500}, {1, 1}, {-1, 1}, {1, -1}, {-1, -1},
	{3, 400}, {400, 3}, {-5, 390}, {-390, -7}, {900, 130}, {-900, 131}, {129, 0}, {-128, 128},
}

// every block that a line passes through is among those that are marked for it
//
//verif:prop C14
//verif:reach passes
//verif:bound lines from any point of a block in 32 directions, 1 to 900 units long; any block of the 18 x 12
func H_RejectBlockLine() {
	const W, H = 18, 12
	d := vSightDirs[vPick("dir", len(vSightDirs))]
	dx, dy := d[0], d[1]
	xmin, ymin := vInt("xmin", -20000, 20000), vInt("ymin", -20000, 20000)
	bx, by := 8, 5
	x0, y0 := bx*128+vInt("x", 0, 127), by*128+vInt("y", 0, 127)
	if dy > 128*5 || dy < -128*5 {
		panic("too long")
	}
	bounds := make([]BlockMapBounds, H)
	for i := range bounds {
		bounds[i] = BlockMapBounds{lo: W, hi: -1}
	}
	lo, hi := H, -1
	p, q := &IntVertex{X: xmin + x0, Y: ymin + y0}, &IntVertex{X: xmin + x0 + dx, Y: ymin + y0 + dy}
	drawBlockMapLine(bounds, p, q, xmin, ymin, &lo, &hi)
	// the part of the line, in units of 1/(|dx||dy|), that is inside of the column and of the row
	ax, ay := dx, dy
	if ax < 0 {
		ax = -ax
	}
	if ay < 0 {
		ay = -ay
	}
	ux, uy := 1, 1
	if ax > 0 {
		ux = ax
	}
	if ay > 0 {
		uy = ay
	}
	span := func(at, d, cell, other int) (int, int, bool) {
		l, h := cell*128-at, cell*128+128-at
		if d == 0 {
			return 0, ux * uy, vAnd(l < 0, h > 0)
		}
		if d < 0 {
			l, h = -h, -l
		}
		return l * other, h * other, true
	}
	all := true
	for r := 0; r < H; r++ {
		l2, h2, ok2 := span(y0, dy, r, ux)
		for c := 0; c < W; c++ {
			l1, h1, ok1 := span(x0, dx, c, uy)
			m := vIte(l1 > l2, l1, l2)
			m = vIte(m > 0, m, 0)
			n := vIte(h1 < h2, h1, h2)
			n = vIte(n < ux*uy, n, ux*uy)
			in := vAnd(m < n, vAnd(ok1, ok2))
			marked := vAnd(vAnd(lo <= r, r <= hi), vAnd(bounds[r].lo <= c, c <= bounds[r].hi))
			all = vAnd(all, vImp(in, marked))
		}
	}
	vReach("passes")
	vAssert(all, "block-on-the-way-not-marked")
	vAssert(lo >= 0 && hi < H, "rows")
}
