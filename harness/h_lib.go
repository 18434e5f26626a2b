package main

// Shared helpers of the harnesses.

func vMin(a, b int) int { return vIte(a < b, a, b) }
func vMax(a, b int) int { return vIte(a > b, a, b) }
func vAbs(a int) int    { return vIte(a < 0, -a, a) }

// vSegMeetsBox: the closed segment meets the closed box (L<=R, B<=T)
func vSegMeetsBox(x1, y1, x2, y2, L, B, R, T int) bool {
	return vSegMeetsBoxScaled(1, x1, y1, x2, y2, L, B, R, T)
}

// the same with the box given in units of 1/k
func vSegMeetsBoxScaled(k, x1, y1, x2, y2, L, B, R, T int) bool {
	dx := x2 - x1
	dy := y2 - y1
	bb := vAnd(vAnd(k*vMax(x1, x2) >= L, k*vMin(x1, x2) <= R), vAnd(k*vMax(y1, y2) >= B, k*vMin(y1, y2) <= T))
	c1 := dx*(B-k*y1) - dy*(L-k*x1)
	c2 := dx*(B-k*y1) - dy*(R-k*x1)
	c3 := dx*(T-k*y1) - dy*(L-k*x1)
	c4 := dx*(T-k*y1) - dy*(R-k*x1)
	allpos := vAnd(vAnd(c1 > 0, c2 > 0), vAnd(c3 > 0, c4 > 0))
	allneg := vAnd(vAnd(c1 < 0, c2 < 0), vAnd(c3 < 0, c4 < 0))
	return vAnd(bb, !vOr(allpos, allneg))
}

// a two-point linedef of a Doom-format map
func vOneLine(x1, y1, x2, y2 int) *DoomLinedefs {
	return &DoomLinedefs{
		vertices: []Vertex{{XPos: int16(x1), YPos: int16(y1)}, {XPos: int16(x2), YPos: int16(y2)}},
		linedefs: []Linedef{{StartVertex: 0, EndVertex: 1, FrontSdef: 0, BackSdef: SIDEDEF_NONE}},
	}
}

// vConfig installs the default configuration (harnesses set what they vary)
func vConfig() *ProgramConfig {
	config = &ProgramConfig{}
	return config
}

func vSameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vAnd(r, a[i] == b[i])
	}
	return r
}

func vSymBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vU8(name)
	}
	return b
}
