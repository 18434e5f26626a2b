package main

//verif:subst os

import "encoding/binary"

// reference model of a writer over a buffer of fixed capacity
type vWriterModel struct {
	mem    []byte
	n, off int
}

func (m *vWriterModel) write(p []byte) bool {
	if len(p) == 0 {
		return true
	}
	if m.off+len(p) > len(m.mem) {
		return false
	}
	copy(m.mem[m.off:], p)
	m.off += len(p)
	m.n = vMax(m.n, m.off)
	return true
}

func vWriterOps(maxCap, ops int) {
	c := vPick("cap", maxCap) + 1
	n := vPick("len", c+1)
	off := vPick("offset", n+1)
	// what follows the buffer in its array must survive
	back := vSymBytes("mem", c+3)
	m := vWriterModel{mem: append([]byte{}, back[:c]...), n: n, off: off}
	tail := append([]byte{}, back[c:]...)
	w := CreateFixedWriterWrapper(back[:n:c], off)
	for i := 0; i < ops; i++ {
		switch vPick("op", 4) {
		case 0:
			p := vSymBytes("byte", vPick("count", c+2))
			k, err := w.Write(p)
			ok := m.write(p)
			vAssert((err == nil) == ok, "write-error-iff-it-does-not-fit")
			vAssert(!ok || k == len(p), "write-count")
			if !ok {
				vReach("overflow")
			}
		case 1:
			words := make([]uint16, vPick("words", 3))
			var p []byte
			be := vBool("bigendian")
			for j := range words {
				words[j] = vU16("word")
				if be {
					p = append(p, byte(words[j]>>8), byte(words[j]))
				} else {
					p = append(p, byte(words[j]), byte(words[j]>>8))
				}
			}
			var err error
			if be {
				_, err = w.WriteWithOrder(binary.BigEndian, words)
			} else {
				_, err = w.WriteWithOrder(binary.LittleEndian, words)
			}
			vAssert((err == nil) == m.write(p), "words-error-iff-they-do-not-fit")
		case 2:
			o := vPick("seek", c+2)
			err := w.Seek(o)
			// the position past the last byte may be refused: nothing fits there
			vAssert(vImp(o < c, err == nil) && vImp(o > c, err != nil), "seek-error")
			if err == nil {
				m.off = o
				m.n = vMax(m.n, o)
			}
		case 3:
			v := vU16("value")
			err := binary.Write(w, binary.LittleEndian, v)
			vAssert((err == nil) == m.write([]byte{byte(v), byte(v >> 8)}), "binary-write-error")
		}
		got := w.GetBytes()
		vAssert(len(got) == m.n, "length")
		vAssert(vSameBytes(got, m.mem[:m.n]), "contents")
	}
	vAssert(vSameBytes(back[c:], tail), "wrote-past-capacity")
}

//verif:prop C04
//verif:bound buffers of capacity 1..5, any length, offset and contents; two operations out of Write (0..cap+1 bytes), WriteWithOrder (0..2 words, both byte orders), Seek (0..cap+1) and binary.Write
//verif:reach overflow
func H_Writer() { vWriterOps(5, 2) }

//verif:prop C04
//verif:tier thorough
//verif:bound the same with capacity 1..4 and three operations
//verif:reach overflow
func H_WriterDeep() { vWriterOps(4, 3) }


func vI16s(n string, k int) (r []int16) {
	for i := 0; i < k; i++ {
		r = append(r, vI16(n))
	}
	return
}

func vLE16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }

// records of every type that gets written, and their bytes
func vRecord(kind int) (data interface{}, want []byte) {
	w := func(v uint16) { want = vLE16(want, v) }
	w32 := func(v uint32) { want = vPut32(want, v) }
	u := func() uint16 { v := vU16("field"); w(v); return v }
	i := func() int16 { v := vI16("field"); w(uint16(v)); return v }
	b := func() uint8 { v := vU8("field"); want = append(want, v); return v }
	u32 := func() uint32 { v := vU32("field"); w32(v); return v }
	i32 := func() int32 { v := vI32("field"); w32(uint32(v)); return v }
	switch kind {
	case 0:
		var r []Linedef
		for k := 0; k < 2; k++ {
			l := Linedef{}
			l.StartVertex, l.EndVertex, l.Flags, l.Action, l.Tag, l.FrontSdef, l.BackSdef = u(), u(), u(), u(), u(), u(), u()
			r = append(r, l)
		}
		return r, want
	case 1:
		l := HexenLinedef{}
		l.StartVertex, l.EndVertex, l.Flags, l.Action = u(), u(), u(), b()
		l.Arg1, l.Arg2, l.Arg3, l.Arg4, l.Arg5 = b(), b(), b(), b(), b()
		l.FrontSdef, l.BackSdef = u(), u()
		return []HexenLinedef{l}, want
	case 2:
		var r []Vertex
		for k := 0; k < 3; k++ {
			v := Vertex{}
			v.XPos, v.YPos = i(), i()
			r = append(r, v)
		}
		return r, want
	case 3:
		s := Seg{}
		s.StartVertex, s.EndVertex, s.Angle, s.Linedef, s.Flip, s.Offset = u(), u(), i(), u(), i(), u()
		return []Seg{s}, want
	case 4:
		s := DeepSeg{}
		s.StartVertex, s.EndVertex, s.Angle, s.Linedef, s.Flip, s.Offset = u32(), u32(), i(), u(), i(), u()
		return []DeepSeg{s}, want
	case 5:
		s := SubSector{}
		s.SegCount, s.FirstSeg = u(), u()
		return []SubSector{s}, want
	case 6:
		s := DeepSubSector{}
		s.SegCount, s.FirstSeg = u(), u32()
		return []DeepSubSector{s}, want
	case 7:
		n := Node{}
		n.X, n.Y, n.Dx, n.Dy = i(), i(), i(), i()
		for k := range n.Rbox {
			n.Rbox[k] = i()
		}
		for k := range n.Lbox {
			n.Lbox[k] = i()
		}
		n.RChild, n.LChild = i(), i()
		return []Node{n}, want
	}
	want = append(want, "xNd4\x00\x00\x00\x00"...)
	n := DeepNode{}
	n.X, n.Y, n.Dx, n.Dy = i(), i(), i(), i()
	for k := range n.Rbox {
		n.Rbox[k] = i()
	}
	for k := range n.Lbox {
		n.Lbox[k] = i()
	}
	n.RChild, n.LChild = i32(), i32()
	return []DeepNode{n}, want
}

//verif:prop C04
//verif:bound two lumps sent through the write bus in either directory order, each of any record type (1..3 records, all fields arbitrary) or raw (0..3 arbitrary bytes or nil), after a starting position of 0..64
func H_LumpWrite() {
	vosReset()
	vConfig()
	f, err := vos_Create("/w/out.wad")
	vAssert(err == nil, "create")
	start := vU32("start")
	vAssume(start <= 64)
	le := make([]LumpEntry, 3)
	le[2] = LumpEntry{FilePos: 1, Size: 2}
	c := StartWriteBus(f, le, start)
	swap := vBool("swap")
	var file []byte
	var pos, size []uint32
	for k := 0; k < 2; k++ {
		idx := k
		if swap {
			idx = 1 - k
		}
		kind := vPick("kind", 11)
		var want []byte
		switch {
		case kind == 10:
			c.SendRawLump(nil, idx, "SEGS", "")
		case kind == 9:
			want = vSymBytes("raw", vPick("count", 4))
			c.SendRawLump(want, idx, "THINGS", "")
		default:
			var d interface{}
			d, want = vRecord(kind)
			if dn, ok := d.([]DeepNode); ok {
				c.SendDeepNodesLump(dn, idx, "NODES", "")
			} else {
				c.SendGenericLump(d, idx, "LUMP", "")
			}
		}
		c.Sync()
		pos = append(pos, start+uint32(len(file)))
		size = append(size, uint32(len(want)))
		file = append(file, want...)
	}
	c.Shutdown()
	for k := 0; k < 2; k++ {
		idx := k
		if swap {
			idx = 1 - k
		}
		vAssert(le[idx].FilePos == pos[k], "position")
		vAssert(le[idx].Size == size[k], "size")
	}
	vAssert(le[2].FilePos == 1 && le[2].Size == 2, "other-entry-changed")
	vAssert(vSameBytes(vos.find("/w/out.wad").data, file), "file-contents")
}
