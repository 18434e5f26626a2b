package main

// Lines as node building uses them: own copies, unused vertices removed.

func vPruneCheck(doom bool) {
	const nv, nl = 5, 3
	verts := []Vertex{}
	for i := 0; i < nv; i++ {
		verts = append(verts, Vertex{XPos: vI16("x"), YPos: vI16("y")})
	}
	var dl []Linedef
	var hl []HexenLinedef
	for i := 0; i < nl; i++ {
		s, e := uint16(vInt("start", 0, nv-1)), uint16(vInt("end", 0, nv-1))
		if doom {
			dl = append(dl, Linedef{StartVertex: s, EndVertex: e, Flags: vU16("flags"), Action: vU16("action"), Tag: vU16("tag"), FrontSdef: vU16("front"), BackSdef: vU16("back")})
		} else {
			hl = append(hl, HexenLinedef{StartVertex: s, EndVertex: e, Flags: vU16("flags"), Action: vU8("action"), Arg1: vU8("arg"), Arg2: vU8("arg"), Arg3: vU8("arg"), Arg4: vU8("arg"), Arg5: vU8("arg"), FrontSdef: vU16("front"), BackSdef: vU16("back")})
		}
	}
	overts := append([]Vertex{}, verts...)
	odl := append([]Linedef{}, dl...)
	ohl := append([]HexenLinedef{}, hl...)
	var w WriteableLines
	if doom {
		w = &DoomLinedefs{linedefs: dl, vertices: verts}
	} else {
		w = &HexenLinedefs{linedefs: hl, vertices: verts}
	}
	w.UnshareData()
	w.PruneUnusedVertices()
	at := w.AddVertex(11, -22) // by a split
	same := true
	for i := range overts {
		same = vAnd(same, vAnd(verts[i].XPos == overts[i].XPos, verts[i].YPos == overts[i].YPos))
	}
	for i := range odl {
		same = vAnd(same, dl[i] == odl[i])
	}
	for i := range ohl {
		same = vAnd(same, hl[i] == ohl[i])
	}
	vAssert(same, "input-changed-while-others-read-it")
	nverts := w.GetVertices().([]Vertex)
	vAssert(at == len(nverts)-1, "new-vertex-number")
	vAssert(nverts[at].XPos == 11 && nverts[at].YPos == -22, "new-vertex")
	vAssert(w.GetVerticesCount() == len(nverts), "number-of-vertices")
	nverts = nverts[:at]
	used := make([]bool, nv)
	for i := 0; i < nl; i++ {
		var s, e uint16
		if doom {
			s, e = odl[i].StartVertex, odl[i].EndVertex
		} else {
			s, e = ohl[i].StartVertex, ohl[i].EndVertex
		}
		for v := range used {
			used[v] = vOr(used[v], vOr(int(s) == v, int(e) == v))
		}
		vs, ve := w.GetLinedefVertices(uint16(i))
		vAssert(vAnd(vAnd(vs >= 0, vs < len(nverts)), vAnd(ve >= 0, ve < len(nverts))), "linedef-vertex-range")
		p, q, op, oq := nverts[vs], nverts[ve], overts[s], overts[e]
		vAssert(vAnd(vAnd(p.XPos == op.XPos, p.YPos == op.YPos), vAnd(q.XPos == oq.XPos, q.YPos == oq.YPos)), "linedef-moved")
		if doom {
			l := w.GetLinedefs().([]Linedef)
			vAssert(len(l) == nl, "number-of-linedefs-changed")
			k := l[i]
			k.StartVertex, k.EndVertex = s, e
			vAssert(k == odl[i], "linedef-changed")
		} else {
			l := w.GetLinedefs().([]HexenLinedef)
			vAssert(len(l) == nl, "number-of-linedefs-changed")
			k := l[i]
			k.StartVertex, k.EndVertex = s, e
			vAssert(k == ohl[i], "linedef-changed")
		}
	}
	n := 0
	for v := range used {
		n += vIte(used[v], 1, 0)
	}
	vAssert(n == len(nverts), "vertex-unused-or-lost")
}

// unused vertices are removed from a copy of the lines only
//
//verif:prop C13
//verif:bound 3 lines between any of 5 vertices, any coordinates and attributes, levels in Doom format
func H_PruneDoom() { vPruneCheck(true) }

// the same for levels in Hexen format
//
//verif:prop C13
//verif:bound 3 lines between any of 5 vertices, any coordinates and attributes, levels in Hexen format
func H_PruneHexen() { vPruneCheck(false) }
