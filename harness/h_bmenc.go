package main

//verif:const BBLOCKS_BUCKETS_COUNT 4
//verif:const MAX_ADDRESSABLE_BLOCKMAP_SIZE 128

// vBlocklists builds n blocklists with symbolic, strictly ascending line
// numbers below top; sizes are chosen per block
func vBlocklists(n, maxLen, top int) []BlockLines {
	r := make([]BlockLines, n)
	for b := range r {
		r[b] = BlockLines{}
		k := vPick("len", maxLen+1)
		prev := -1
		for i := 0; i < k; i++ {
			v := vInt("line", i, top-1)
			vAssume(v > prev)
			prev = v
			r[b] = append(r[b], uint16(v))
		}
	}
	return r
}

func vBmDecodeCheck(data []byte, lists []BlockLines, xb, yb int, zero bool, lineCnt int, superset bool) {
	n := len(lists)
	words := len(data) / 2
	vAssert(len(data)%2 == 0, "lump-odd-size")
	w := func(i int) int { return int(data[2*i]) | int(data[2*i+1])<<8 }
	vAssert(words >= 4+n, "lump-too-short")
	vAssert(w(2) == xb && w(3) == yb, "lump-dimensions")
	for b := 0; b < n; b++ {
		off := w(4 + b)
		vAssert(off >= 4 && off < words, "offset-outside-lump")
		off = vConcrete(off)
		if zero {
			off++ // the first word of every list is a dummy that games skip or test
		}
		// walk to the terminator
		var got []int
		for i := 0; ; i++ {
			vAssert(off+i < words, "list-without-terminator")
			v := w(off + i)
			if v == 0xFFFF {
				break
			}
			got = append(got, v)
			vAssert(len(got) <= 16, "list-without-terminator")
		}
		if zero {
			vAssert(vAnd(w(off-1) >= 0, w(off-1) < lineCnt), "dummy-line-out-of-range")
		}
		for _, l := range lists[b] {
			found := false
			for _, g := range got {
				found = vOr(found, g == int(l))
			}
			vAssert(found, "line-lost-in-encoding")
		}
		for _, g := range got {
			vAssert(g < lineCnt, "list-has-invalid-line")
		}
		if !superset {
			vAssert(len(got) == len(lists[b]), "list-has-extra-lines")
		}
	}
}

func vBmOf(lists []BlockLines, xb, yb int) *Blockmap {
	cp := make([]BlockLines, len(lists))
	for i := range lists {
		cp[i] = append(BlockLines{}, lists[i]...)
	}
	return &Blockmap{
		blocklist: cp,
		flags:     make([]uint8, len(lists)),
		header:    BlockMapHeader{XMin: -100, YMin: 50, XBlocks: uint16(xb), YBlocks: uint16(yb)},
	}
}

// vBmEncode: one encoding run checked against the lists it was given
func vBmEncode(n, maxLen, top int, arcane int, zero bool, shield *BlockmapGCShield, uniq bool) []byte {
	lists := vBlocklists(n, maxLen, top)
	bm := vBmOf(lists, n, 1)
	bm.gcShield = shield
	if shield != nil {
		bl := shield.GetBlocklist(n)
		for i := range lists {
			bl[i] = append(bl[i], lists[i]...)
		}
		bm.blocklist = bl
		bm.flags = shield.GetFlags(n)
	}
	if uniq && vBool("uniq") {
		// block 0 holds a line no other block holds, and is marked so
		u := vInt("u", 0, top-1)
		in0 := false
		for _, l := range lists[0] {
			in0 = vOr(in0, int(l) == u)
		}
		vAssume(in0)
		for b := 1; b < n; b++ {
			for _, l := range lists[b] {
				vAssume(int(l) != u)
			}
		}
		bm.flags[0] = BLOCKLIST_UNIQUE
	}
	if zero {
		bm.useZeroHeader = true
		bm.revertibleToZero = vBool("revertible")
		if vBool("steal") {
			bm.stealOneWord = true
			bm.zeroLinedef = uint16(4 + n - 1)
		} else {
			bm.zeroLinedef = uint16(vInt("zeroline", 0, top-1))
		}
	}
	var data []byte
	switch arcane {
	case 0:
		data = bm.GetBytes()
	case 1:
		data = bm.GetBytesArcane(BSUBSET_PROPER_COMPRESSION)
	case 2:
		data = bm.GetBytesArcane(BSUBSET_AGGRESSIVE_ELIMINATION)
	}
	vBmDecodeCheck(data, lists, n, 1, zero, top, arcane == 2)
	vAssert(!bm.tooBigForVanilla && !bm.tooBigForUint16, "small-lump-flagged-too-big")
	return data
}

//verif:prop C09
//verif:bound 3 blocks, lists of 0..2 lines with arbitrary line numbers below 8, plain encoding (identical lists merged); hash table of 4 buckets instead of 4096
func H_BmEncodePlain() {
	vConfig()
	vBmEncode(3, 2, 8, 0, false, nil, false)
}

//verif:prop C09
//verif:bound as H_BmEncodePlain with a dummy line at the start of every list, with and without the overlapping of the last table cell
func H_BmEncodePlainZero() {
	vConfig()
	vBmEncode(3, 2, 8, 0, true, nil, false)
}

//verif:prop C09
//verif:tier thorough
//verif:bound 3 blocks, lists of 0..3 lines (arbitrary numbers below 8), accurate subset compression, lists optionally marked unmatchable
func H_BmEncodeSubset() {
	vConfig()
	vBmEncode(3, 3, 8, 1, false, nil, true)
}

//verif:prop C09
//verif:bound 3 blocks, lists of 0..2 lines (arbitrary numbers below 8), accurate subset compression, lists optionally marked unmatchable
func H_BmEncodeSubset2() {
	vConfig()
	vBmEncode(3, 2, 8, 1, false, nil, true)
}

//verif:prop C09
//verif:bound 2 blocks, lists of 0..4 lines (arbitrary numbers below 8), accurate subset compression
func H_BmEncodeSubsetLong() {
	vConfig()
	vBmEncode(2, 4, 8, 1, false, nil, false)
}

//verif:prop C09
//verif:bound as H_BmEncodeSubset with a dummy line per list, lists of 0..2 lines
func H_BmEncodeSubsetZero() {
	vConfig()
	vBmEncode(3, 2, 8, 1, true, nil, false)
}

//verif:prop C09
//verif:bound 3 blocks, lists of 0..2 lines, subset elimination: every block keeps at least its own lines
func H_BmEncodeEliminate2() {
	vConfig()
	vBmEncode(3, 2, 8, 2, false, nil, true)
}

//verif:prop C09
//verif:tier thorough
//verif:bound 3 blocks, lists of 0..3 lines, subset elimination: every block keeps at least its own lines
func H_BmEncodeEliminate() {
	vConfig()
	vBmEncode(3, 3, 8, 2, false, nil, true)
}

//verif:prop C09
//verif:bound as H_BmEncodeEliminate with a dummy line per list, lists of 0..2 lines
func H_BmEncodeEliminateZero() {
	vConfig()
	vBmEncode(3, 2, 8, 2, true, nil, false)
}

//verif:prop C09
//verif:tier thorough
//verif:bound 4 blocks, lists of 0..3 lines, accurate subset compression
func H_BmEncodeSubset4() {
	vConfig()
	vBmEncode(4, 3, 8, 1, false, nil, true)
}

//verif:prop C09
//verif:tier thorough
//verif:bound 4 blocks, lists of 0..3 lines, plain encoding with dummy
func H_BmEncodePlain4() {
	vConfig()
	vBmEncode(4, 3, 8, 0, true, nil, true)
}

//verif:prop C09
//verif:bound two blockmaps of 2 blocks built one after another through the same recycled buffers (lists of 0..2 lines, every encoding); the first lump, kept as the best so far (or being the previous best of the collector), stays intact while one or two more are built
func H_BmEncodeRecycled() {
	vConfig()
	sh := BlockmapCreateGCShield(4, true)
	mode := vPick("mode", 3)
	d1 := vBmEncode(2, 2, 8, mode, false, sh, false)
	cp := append([]byte{}, d1...)
	if vBool("keep") {
		// this lump was handed over; the next candidate also turns out better
		// and is handed over while the first one may still be compared with,
		// and a third is built
		sh.RotateLumpPool()
		vBmEncode(2, 1, 4, mode, false, sh, false)
		if vBool("twice") {
			sh.RotateLumpPool()
			vBmEncode(2, 0, 1, mode, false, sh, false)
		}
		vAssert(len(cp) == len(d1), "kept-lump-overwritten")
		for i := range cp {
			vAssert(cp[i] == d1[i], "kept-lump-overwritten")
		}
	} else {
		vBmEncode(2, 2, 8, mode, false, sh, false)
	}
}
