package main

//verif:subst os

// Wads and levels of the whole-program harnesses.

// a lump of a wad
type vLump struct {
	name string
	data []byte
}

func vPut32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func vGet32(b []byte, at int) int {
	return int(uint32(b[at]) | uint32(b[at+1])<<8 | uint32(b[at+2])<<16 | uint32(b[at+3])<<24)
}

// vWadBytes lays the lumps out: header, contents, directory
func vWadBytes(sig string, lumps []vLump) []byte {
	b := []byte(sig)
	b = vPut32(b, uint32(len(lumps)))
	pos := 12
	for _, l := range lumps {
		pos += len(l.data)
	}
	b = vPut32(b, uint32(pos))
	for _, l := range lumps {
		b = append(b, l.data...)
	}
	pos = 12
	for _, l := range lumps {
		b = vPut32(b, uint32(pos))
		b = vPut32(b, uint32(len(l.data)))
		nm := make([]byte, 8)
		copy(nm, l.name)
		b = append(b, nm...)
		pos += len(l.data)
	}
	return b
}

type vOutLump struct {
	name      string
	pos, size int
	data      []byte
}

// vWadParse reads a wad back; ok is false if it is not well formed
func vWadParse(b []byte) (sig string, dir, end int, lumps []vOutLump, ok bool) {
	if len(b) < 12 {
		return
	}
	sig = string(b[:4])
	n := vGet32(b, 4)
	dir = vGet32(b, 8)
	if dir < 0 || dir > len(b) || n > 1000 || dir+16*n > len(b) {
		return
	}
	end = dir + 16*n
	for i := 0; i < n; i++ {
		e := dir + 16*i
		pos, size := vGet32(b, e), vGet32(b, e+4)
		k := e + 8
		for k < e+16 && b[k] != 0 {
			k++
		}
		l := vOutLump{name: string(b[e+8 : k]), pos: pos, size: size}
		if size > 0 {
			if pos > len(b) || pos+size > len(b) {
				return
			}
			l.data = b[pos : pos+size]
		}
		lumps = append(lumps, l)
	}
	return sig, dir, end, lumps, true
}

// vRunMain runs the program on the simulated disk
func vRunMain(args ...string) (crashed bool) {
	vos_Args = append([]string{"vigilantbsp"}, args...)
	vos.log = nil
	return vosRun(main)
}

func vPut16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }

func vGet16(b []byte, at int) int  { return int(int16(uint16(b[at]) | uint16(b[at+1])<<8)) }
func vGetU16(b []byte, at int) int { return int(uint16(b[at]) | uint16(b[at+1])<<8) }

// vMap is a level in Doom format
type vMap struct {
	v    [][2]int // vertices
	l    [][4]int // linedefs: start, end, front sidedef, back sidedef (-1: none)
	s    []int    // sidedefs: sector
	act  []int    // actions of linedefs
	tag  []int    // tags of linedefs
	stag []int    // tags of sectors
	n    int      // sectors
	th   [][3]int // things: x, y, type
}

func (m *vMap) line(a, b, front, back int) {
	f, k := len(m.s), -1
	m.s = append(m.s, front)
	if back >= 0 {
		k = len(m.s)
		m.s = append(m.s, back)
	}
	m.l = append(m.l, [4]int{a, b, f, k})
}

func (m *vMap) lumps(marker string) []vLump {
	var th, li, si, ve, se []byte
	for _, t := range m.th {
		th = vPut16(vPut16(vPut16(vPut16(vPut16(th, t[0]), t[1]), 0), t[2]), 7)
	}
	for i, l := range m.l {
		fl, act, tag := 1, 0, 0
		if l[3] >= 0 {
			fl = 4
		}
		if i < len(m.act) {
			act = m.act[i]
		}
		if i < len(m.tag) {
			tag = m.tag[i]
		}
		li = vPut16(vPut16(vPut16(vPut16(vPut16(vPut16(vPut16(li, l[0]), l[1]), fl), act), tag), l[2]), l[3])
	}
	for _, s := range m.s {
		si = vPut16(vPut16(si, 0), 0)
		si = append(si, "-\x00\x00\x00\x00\x00\x00\x00-\x00\x00\x00\x00\x00\x00\x00WALL\x00\x00\x00\x00"...)
		si = vPut16(si, s)
	}
	for _, v := range m.v {
		ve = vPut16(vPut16(ve, v[0]), v[1])
	}
	for i := 0; i < m.n; i++ {
		tag := 0
		if i < len(m.stag) {
			tag = m.stag[i]
		}
		se = vPut16(vPut16(se, 0), 128)
		se = append(se, "FLAT\x00\x00\x00\x00CEIL\x00\x00\x00\x00"...)
		se = vPut16(vPut16(vPut16(se, 160), 0), tag)
	}
	return []vLump{{marker, nil}, {"THINGS", th}, {"LINEDEFS", li}, {"SIDEDEFS", si}, {"VERTEXES", ve}, {"SECTORS", se}}
}

