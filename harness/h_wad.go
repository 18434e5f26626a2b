package main

//verif:subst os

// Whole runs of main() over in-memory wads.

var vLevelOrder = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}

func vIsMarker(s string) bool {
	return s == "MAP01" || s == "MAP02" || s == "E1M1" || s == "MAP03" || s == "E1M10" || s == "MAP10"
}

func vLevelSlot(s string) int {
	for i, n := range vLevelOrder {
		if n == s {
			return i
		}
	}
	return -1
}

// vWantWad is the specification of the directory of the output: every lump
// outside rebuilt levels is kept in its place; a level with all mandatory lumps
// gets them in the conventional order, one of each name (the last one of
// duplicates), with the lumps a nodebuilder makes added when absent.  rebuilt:
// markers of the levels that are rebuilt; skip: not to be rebuilt; zero: reject
// is filled with zeroes.
func vWantWad(in []vLump, skip []string, eject, zero bool) (out []vLump, levels int) {
	for i := 0; i < len(in); {
		l := in[i]
		if !vIsMarker(l.name) || vHas(skip, l.name) {
			if !eject {
				out = append(out, l)
			}
			i++
			continue
		}
		j := i + 1
		for j < len(in) && vLevelSlot(in[j].name) >= 0 {
			j++
		}
		have := make([]int, len(vLevelOrder))
		for k := i + 1; k < j; k++ {
			have[vLevelSlot(in[k].name)] = k
		}
		valid := true
		for _, m := range []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"} {
			if have[vLevelSlot(m)] == 0 {
				valid = false
			}
		}
		out = append(out, l)
		if !valid {
			out = append(out, in[i+1:j]...)
		} else {
			levels++
			for s, nm := range vLevelOrder {
				if nm == "REJECT" && zero {
					n := len(in[have[vLevelSlot("SECTORS")]].data) / 26
					out = append(out, vLump{nm, make([]byte, (n*n+7)/8)})
				} else if have[s] != 0 {
					out = append(out, in[have[s]])
				} else if nm != "BEHAVIOR" && nm != "SCRIPTS" {
					out = append(out, vLump{nm, nil})
				}
			}
		}
		i = j
	}
	return
}

var vCanon = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP"}

// contents of 2 symbolic bytes for everything but markers
func vNamed(names []string) (r []vLump) {
	for _, n := range names {
		l := vLump{name: n}
		if !vIsMarker(n) {
			l.data = vSymBytes(n, 2)
		}
		r = append(r, l)
	}
	return
}

func vHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// vCheckWad compares the output with the specification
func vCheckWad(in []vLump, out []byte, skip []string, eject, zero bool) {
	want, levels := vWantWad(in, skip, eject, zero)
	if levels == 0 {
		vAssert(vos.code != 0 || !vosLogged("successfully written"), "success-without-levels")
		return
	}
	vAssert(vosLogged("successfully written"), "wad-not-written")
	_, dir, end, got, ok := vWadParse(out)
	vAssert(ok, "output-wad-malformed")
	vAssert(len(got) == len(want), "lump-count")
	same := true
	for i, w := range want {
		vAssert(got[i].name == w.name, "lump-order-or-name")
		vAssert(got[i].size == len(w.data), "lump-size")
		same = vAnd(same, vSameBytes(got[i].data, w.data))
		if got[i].size > 0 && !(zero && w.name == "REJECT") {
			vAssert(got[i].pos >= 12 && (got[i].pos+got[i].size <= dir || got[i].pos >= end), "lump-overlaps-header-or-directory")
		}
	}
	vAssert(same, "lump-contents")
	vAssert(vSameBytes(vos.find("/w/in.wad").data, vWadBytes("PWAD", in)), "input-modified")
}

//verif:prop C01
//verif:bound wads FOO, MAP01 with any subset of the lumps a nodebuilder makes, one edit (insert one or two of BEHAVIOR, SCRIPTS, a duplicate, another marker or an unrelated lump, remove or swap neighbours) at any position, then BAR and a second complete level; contents of 2 arbitrary bytes per lump; nothing rebuilt (-n- -b- -r-)
//verif:reach valid invalid
func H_WadDirEdit() {
	vWadDirEdit(false)
}

func vWadDirEdit(thorough bool) {
	vosReset()
	names := []string{"FOO", "MAP01"}
	names = append(names, vCanon...)
	switch vPick("edit", 4) {
	case 0:
		ins := []string{"BEHAVIOR", "SCRIPTS", "THINGS", "SECTORS", "NODES", "REJECT", "MAP03", "BAZ"}
		s := ins[vPick("what", len(ins))]
		p := vPick("at", len(names)+1)
		tail := append([]string{}, names[p:]...)
		names = append(append([]string{}, names[:p]...), s)
		if vBool("twice") {
			names = append(names, s)
		}
		names = append(names, tail...)
	case 1:
		p := vPick("at", len(names))
		names = append(append([]string{}, names[:p]...), names[p+1:]...)
	case 2:
		p := vPick("at", len(names)-1)
		names[p], names[p+1] = names[p+1], names[p]
	case 3:
		var nn []string
		for _, s := range names {
			if (s == "SEGS" || s == "SSECTORS" || s == "NODES" || s == "REJECT" || s == "BLOCKMAP") && vBool("drop") {
				continue
			}
			nn = append(nn, s)
		}
		names = nn
	}
	names = append(names, "BAR", "MAP02", "SCRIPTS")
	names = append(names, vCanon...)
	names = append(names, "END")
	in := vNamed(names)
	vos.put("/w/in.wad", vWadBytes("PWAD", in))
	crashed := vRunMain("-n-", "-b-", "-r-", "/w/in.wad", "-o", "/w/out.wad")
	vAssert(!crashed, "crashed")
	vReach("valid")
	vReach("invalid")
	vCheckWad(in, vos.find("/w/out.wad").data, nil, false, false)
}

// vNameIs: the 8-byte name field spells s
func vNameIs(b []byte, s string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = vAnd(r, b[i] == s[i])
	}
	if len(s) < 8 {
		r = vAnd(r, b[len(s)] == 0)
	}
	return r
}

func vDigit(c, lo uint8) bool { return vAnd(c >= lo, c <= '9') }

//verif:prop C01
//verif:bound wads FOO, MAP01 with its five mandatory lumps and SEGS, then END; the name of one further lump at any position is any 8 ASCII bytes; contents of 2 arbitrary bytes per lump; nothing rebuilt
//verif:reach marker level other
func H_WadAnyName() {
	vosReset()
	names := []string{"FOO", "MAP01", "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SECTORS", "END"}
	p := vPick("at", len(names)+1)
	in := vNamed(names)
	wild := vSymBytes("name", 8)
	for _, c := range wild {
		vAssume(c < 0x80)
	}
	in = append(append(append([]vLump{}, in[:p]...), vLump{"?", vSymBytes("wild", 2)}), in[p:]...)
	b := vWadBytes("PWAD", in)
	copy(b[vGet32(b, 8)+16*p+8:], wild)
	vos.put("/w/in.wad", append([]byte{}, b...))
	crashed := vRunMain("-n-", "-b-", "-r-", "/w/in.wad", "-o", "/w/out.wad")
	vAssert(!crashed, "crashed")
	vAssert(vSameBytes(vos.find("/w/in.wad").data, b), "input-modified")
	// what the name stands for
	slot := -1
	for s, nm := range vLevelOrder {
		if vNameIs(wild, nm) {
			slot = s
		}
	}
	mapxx := vAnd(vAnd(vAnd(vAnd(wild[0] == 'M', wild[1] == 'A'), wild[2] == 'P'), true), vAnd(vAnd(vDigit(wild[3], '0'), vDigit(wild[4], '0')), wild[5] == 0))
	_ = mapxx
	exmy := vAnd(vAnd(wild[0] == 'E', vDigit(wild[1], '1')), vAnd(vAnd(wild[2] == 'M', vDigit(wild[3], '0')), vOr(wild[4] == 0, vAnd(vDigit(wild[4], '0'), wild[5] == 0))))
	marker := slot < 0 && vOr(mapxx, exmy)
	if slot >= 0 {
		in[p].name = vLevelOrder[slot]
		vReach("level")
	} else if marker {
		in[p].name = "MAP02"
		vReach("marker")
	} else {
		vReach("other")
	}
	want, levels := vWantWad(in, nil, false, false)
	if levels == 0 {
		vAssert(!vosLogged("successfully written"), "success-without-levels")
		return
	}
	out := vos.find("/w/out.wad")
	vAssert(vosLogged("successfully written") && out != nil, "wad-not-written")
	n := vGet32(out.data, 4)
	dir := vGet32(out.data, 8)
	vAssert(n == len(want), "lump-count")
	same := true
	for i, w := range want {
		e := dir + 16*i
		pos, size := vGet32(out.data, e), vGet32(out.data, e+4)
		if w.name == "?" || w.name == "MAP02" {
			same = vAnd(same, vSameBytes(out.data[e+8:e+16], wild))
		} else {
			same = vAnd(same, vNameIs(out.data[e+8:e+16], w.name))
		}
		vAssert(size == len(w.data), "lump-size")
		if size > 0 {
			same = vAnd(same, vSameBytes(out.data[pos:pos+size], w.data))
		}
	}
	vAssert(same, "lump-name-order-or-contents")
}

// a complete level
func vLevelNames(marker string) []string { return append([]string{marker}, vCanon...) }

//verif:prop C01
//verif:bound FOO or an empty lump or nothing, then MAP01 and MAP02 (the second without SEGS, REJECT and BLOCKMAP, optionally with SCRIPTS), BAR between them or not; every combination of level filter (none, -m:map01, -m:map02, -!m:map01), --eject, and output over the input or to another file
//verif:reach eject inplace
func H_WadOptions() {
	vosReset()
	var names []string
	switch vPick("first", 3) {
	case 0:
		names = append(names, "FOO")
	case 1:
		names = append(names, "EMPTY")
	}
	names = append(names, vLevelNames("MAP01")...)
	if vBool("between") {
		names = append(names, "BAR")
	}
	names = append(names, "MAP02", "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SSECTORS", "NODES", "SECTORS")
	if vBool("scripts") {
		names = append(names, "SCRIPTS")
	}
	names = append(names, "END")
	in := vNamed(names)
	if in[0].name == "EMPTY" {
		in[0].data = nil
	}
	vos.put("/w/in.wad", vWadBytes("PWAD", in))
	args := []string{"-n-", "-b-", "-r-"}
	var skip []string
	switch vPick("filter", 4) {
	case 1:
		args = append(args, "-m:map01")
		skip = []string{"MAP02"}
	case 2:
		args = append(args, "-m:map02")
		skip = []string{"MAP01"}
	case 3:
		args = append(args, "-!m:map01")
		skip = []string{"MAP01"}
	}
	eject := vBool("eject")
	if eject {
		args = append(args, "--eject")
		vReach("eject")
	}
	args = append(args, "/w/in.wad")
	inplace := !eject && vBool("inplace")
	if !inplace {
		args = append(args, "-o", "/w/out.wad")
	}
	crashed := vRunMain(args...)
	vAssert(!crashed, "crashed")
	if inplace {
		vReach("inplace")
		vAssert(len(vos.disk) == 1, "stray-files")
		out := vos.find("/w/in.wad").data
		vos.put("/w/out.wad", out)
		vos.find("/w/in.wad").data = vWadBytes("PWAD", in)
	} else {
		vAssert(len(vos.disk) == 2, "stray-files")
	}
	vCheckWad(in, vos.find("/w/out.wad").data, skip, eject, false)
}

//verif:prop C01
//verif:bound two levels without REJECT named any two of MAP01, MAP10, E1M1, E1M10; a filter naming one or two of these or E1M2, in either letter case, including (-m:) or excluding (-!m:)
//verif:reach skipped rebuilt
func H_WadFilter() {
	vosReset()
	all := []string{"MAP01", "MAP10", "E1M1", "E1M10", "E1M2"}
	low := []string{"map01", "map10", "e1m1", "e1m10", "e1m2"}
	a, b := vPick("first", 4), vPick("second", 4)
	vAssume(a != b)
	part := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "BLOCKMAP"}
	names := append(append([]string{all[a]}, part...), append(append([]string{all[b]}, part...), "END")...)
	in := vNamed(names)
	vos.put("/w/in.wad", vWadBytes("PWAD", in))
	from := all
	if vBool("lower") {
		from = low
	}
	f := vPick("filter", len(all))
	text := from[f]
	listed := []string{all[f]}
	if vBool("two") {
		g := vPick("filter2", len(all))
		text += "+" + from[g]
		listed = append(listed, all[g])
	}
	arg := "-m:" + text
	excl := vBool("exclude")
	if excl {
		arg = "-!m:" + text
	}
	var skip []string
	for _, n := range []string{all[a], all[b]} {
		if vHas(listed, n) == excl {
			skip = append(skip, n)
			vReach("skipped")
		} else {
			vReach("rebuilt")
		}
	}
	crashed := vRunMain("-n-", "-b-", "-r-", arg, "/w/in.wad", "-o", "/w/out.wad")
	vAssert(!crashed, "crashed")
	if len(skip) == 2 {
		vAssert(!vosLogged("successfully written"), "success-without-levels")
		return
	}
	vCheckWad(in, vos.find("/w/out.wad").data, skip, false, false)
}

func vZeroReject(counts []int, maxLevels int) {
	vosReset()
	var names []string
	switch vPick("first", 3) {
	case 0:
		names = append(names, "FOO")
	case 1:
		names = append(names, "EMPTY")
	}
	n := 1 + vPick("levels", maxLevels)
	var sect []int
	for i := 0; i < n; i++ {
		names = append(names, "MAP0"+string(rune('1'+i)), "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES")
		if i != 0 || vBool("nodes") {
			names = append(names, "SEGS", "SSECTORS", "NODES")
		}
		sect = append(sect, len(names))
		names = append(names, "SECTORS")
		if i != 1 {
			names = append(names, "REJECT")
		}
	}
	names = append(names, "END")
	in := vNamed(names)
	if in[0].name == "EMPTY" {
		in[0].data = nil
	}
	for _, s := range sect {
		in[s].data = make([]byte, 26*counts[vPick("sectors", len(counts))])
	}
	vos.put("/w/in.wad", vWadBytes("PWAD", in))
	crashed := vRunMain("-n-", "-b-", "-rz", "/w/in.wad", "-o", "/w/out.wad")
	vAssert(!crashed, "crashed")
	out := vos.find("/w/out.wad").data
	vCheckWad(in, out, nil, false, true)
	_, dir, end, got, _ := vWadParse(out)
	first := true
	for i, l := range got {
		if l.name != "REJECT" || l.size == 0 {
			continue
		}
		first = false
		for k := 0; k < i; k++ {
			o := got[k]
			if o.name == "REJECT" && o.size > 0 {
				vAssert(o.pos != l.pos, "rejects-at-same-offset")
			} else if o.size > 0 {
				vAssert(o.pos+o.size <= l.pos || l.pos+l.size <= o.pos, "reject-overlaps-lump")
			}
		}
		vAssert(l.pos >= 8 && l.pos <= dir+16 && l.pos+l.size <= end, "reject-outside-pool")
	}
	if !first {
		vReach("rejects")
	}
}

//verif:prop C02
//verif:bound up to 3 levels with 0, 1, 3, 8, 9 or 44 sectors each (so that the pool is 0 to 244 bytes), the first level with or without node lumps, the second without REJECT, the wad starting with a level, a non-empty or an empty lump; other lumps of 2 arbitrary bytes
//verif:reach rejects
func H_ZeroReject() { vZeroReject([]int{0, 1, 8, 9, 44}, 3) }

//verif:prop C02
//verif:tier thorough
//verif:bound up to 3 levels with 0 to 9, 43, 44, 45 or 46 sectors each, otherwise as in the quick check
//verif:reach rejects
func H_ZeroRejectDeep() {
	vZeroReject([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 43, 44, 45, 46}, 3)
}

//verif:prop C02
//verif:bound the broker of offsets: 1..4 lumps of sizes 0..5, asked for in any order
func H_Troll() {
	t := CreateTroll()
	n := 1 + vPick("lumps", 4)
	sz := make([]uint32, n)
	for i := range sz {
		sz[i] = uint32(vPick("size", 6))
		t.AddSize(sz[i])
	}
	total := t.Compile()
	left := append([]uint32{}, sz...)
	used := map[uint32]bool{}
	for len(left) > 0 {
		k := vPick("next", len(left))
		s := left[k]
		left = append(left[:k], left[k+1:]...)
		o := t.PopOffset(s)
		vAssert(o+s <= total, "offset-outside-pool")
		vAssert(!used[o], "offset-used-twice")
		used[o] = true
	}
}

// ---- faults and crashes ----

func vFileSafety(inplace bool, crash bool) {
	vosReset()
	names := append([]string{"FOO"}, vLevelNames("MAP01")...)
	in := vNamed(append(names, "END"))
	orig := vWadBytes("PWAD", in)
	args := []string{"-n-", "-b-", "-r-", "/w/in.wad"}
	target := "/w/in.wad"
	if !inplace {
		target = "/w/out.wad"
		args = append(args, "-o", target)
	}
	defaults := *config
	// the undisturbed run
	vos.put("/w/in.wad", append([]byte{}, orig...))
	crashed := vRunMain(args...)
	vAssert(!crashed && vosLogged("successfully written"), "undisturbed-run-failed")
	good := vos.find(target).data
	ops := vos.ops
	vosReset()
	vos.put("/w/in.wad", append([]byte{}, orig...))
	if !inplace && vBool("outexists") {
		vos.put(target, []byte{1, 2, 3})
	}
	config = &defaults
	at := vPick("at", ops)
	vos.short = vPick("short", 2)
	if crash {
		vos.crashAt = at
	} else {
		vos.faultAt = at
		vos.faultAll = vBool("allfail")
	}
	crashed = vRunMain(args...)
	_ = crashed
	cur := vos.find("/w/in.wad")
	intact := cur != nil && vSameBytes(cur.data, orig)
	if !inplace {
		vAssert(intact, "input-damaged")
	} else {
		saved := intact
		for _, e := range vos.disk {
			saved = vOr(saved, vSameBytes(e.node.data, good))
		}
		vAssert(saved, "input-destroyed-without-complete-copy")
	}
	if !crash {
		if vosLogged("successfully written") {
			t := vos.find(target)
			vAssert(t != nil && vSameBytes(t.data, good), "success-reported-for-incomplete-output")
			vReach("success")
		} else {
			vReach("failure")
		}
	}
}

//verif:prop C03
//verif:bound the output named like the input in 4 ways, or being another hard link to it, or a different file, which exists or not
func H_OutputIsInput() {
	vosReset()
	in := vNamed(append([]string{"FOO"}, vLevelNames("MAP01")...))
	orig := vWadBytes("PWAD", in)
	vos.put("/w/in.wad", append([]byte{}, orig...))
	out := []string{"/w/in.wad", "/w/./in.wad", "/w/sub/../in.wad", "//w/in.wad", "/w/link.wad", "/w/other.wad", "/v/in.wad"}[vPick("output", 7)]
	vos.disk = append(vos.disk, vosEntry{"/w/link.wad", vos.find("/w/in.wad")})
	if vBool("exists") {
		vos.put("/w/other.wad", []byte{1, 2, 3})
		vos.put("/v/in.wad", append([]byte{}, orig...))
	}
	crashed := vRunMain("-n-", "-b-", "-r-", "/w/in.wad", "-o", out)
	vAssert(!crashed, "crashed")
	vAssert(vSameBytes(vos.find("/w/in.wad").data, orig), "input-damaged")
	same := out != "/w/other.wad" && out != "/v/in.wad"
	vAssert(vosLogged("successfully written") != same, "output-onto-input-not-refused")
}

//verif:prop C03
//verif:bound a run that overwrites its input: any one file operation fails (or all from it on), failing writes leave 0 or 1 byte; contents of 2 arbitrary bytes per lump
//verif:reach failure
func H_FaultInPlace() { vFileSafety(true, false) }

//verif:prop C03
//verif:bound a run with -o: any one file operation fails (or all from it on), failing writes leave 0 or 1 byte; the output file exists already or not
//verif:reach success failure
func H_FaultOut() { vFileSafety(false, false) }

//verif:prop C03
//verif:bound a run that overwrites its input, the process dying at any file operation, with 0 or 1 byte of the write under way on disk
func H_CrashInPlace() { vFileSafety(true, true) }

//verif:prop C03
//verif:bound a run with -o, the process dying at any file operation
func H_CrashOut() { vFileSafety(false, true) }
