package main

// RMB options: reading them.

// vOptNames: every option of the manual, its syntax and what it is read as
var vOptNames = []struct {
	name, args string
	typ        int
}{
	{"ASSERT", "LLN", RMB_ASSERT}, {"BLIND", "NL", RMB_BLIND}, {"BLOCK", "NN", RMB_BLOCK},
	{"DISTANCE", "N", RMB_DISTANCE}, {"DOOR", "N", RMB_DOOR}, {"EXCLUDE", "LL", RMB_EXCLUDE},
	{"GROUP", "NL", RMB_GROUP}, {"INCLUDE", "LL", RMB_INCLUDE}, {"LEFT", "N", RMB_LEFT},
	{"LENGTH", "N", RMB_LENGTH}, {"LINE", "N", RMB_LINE}, {"NODOOR", "L", RMB_NODOOR},
	{"NOMAP", "", RMB_NOMAP}, {"NOPROCESS", "", RMB_NOPROCESS}, {"ONE", "NN", RMB_ONE},
	{"PERFECT", "", RMB_PERFECT}, {"PREPROCESS", "N", RMB_PREPROCESS}, {"PROCESS", "L", RMB_PROCESS},
	{"REPORT", "N", RMB_REPORT}, {"RIGHT", "N", RMB_RIGHT}, {"SAFE", "NL", RMB_SAFE},
	{"TRACE", "L", RMB_TRACE}, {"VORTEX", "LL", RMB_VORTEX},
	{"BAND BLIND", "NNL", RMB_BLIND}, {"BAND SAFE", "NNL", RMB_SAFE},
}

// vOptWords are the words a line may begin with
var vOptWords = []string{"ASSERT", "BAND", "BLIND", "BLOCK", "DISTANCE", "DOOR", "EXCLUDE", "GROUP", "INCLUDE",
	"INVERT", "LEFT", "LENGTH", "LINE", "NODOOR", "NOMAP", "NOPROCESS", "ONE", "PERFECT", "PREPROCESS", "PROCESS",
	"REPORT", "RIGHT", "SAFE", "TRACE", "VORTEX"}

func vPrefixOf(p, s string) bool { return len(p) <= len(s) && s[:len(p)] == p }

// vUnique: the prefix is of one word only
func vUnique(p string) bool {
	n := 0
	for _, w := range vOptWords {
		if vPrefixOf(p, w) {
			n++
		}
	}
	return n == 1
}

// vAnyCase: letters of either case
func vAnyCase(s string) []byte {
	b := []byte(s)
	low := vBool("lower")
	alt := vBool("alternate")
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			l := low
			if i&1 == 1 {
				l = low != alt
			}
			b[i] = byte(vIte(l, int(b[i])+32, int(b[i])))
		}
	}
	return b
}

func vIndexSp(s string) int {
	for i := range s {
		if s[i] == ' ' {
			return i
		}
	}
	return len(s)
}

// vSpaces separates words
func vSpaces() string { return []string{" ", "\t", "  "}[vPick("space", 3)] }

// vNumArg is a number of up to three digits
func vNumArg(digits int) ([]byte, int) {
	var b []byte
	v := 0
	for i := 0; i < digits; i++ {
		d := vInt("digit", 0, 9)
		b = append(b, byte('0'+d))
		v = v*10 + d
	}
	return b, v
}

// an option is read under any of its names, in either case
//
//verif:prop C15
//verif:bound all options, any abbreviation, numbers of one digit, lists of one or two
func H_RmbNames() {
	o := vOptNames[vPick("option", len(vOptNames))]
	invert := false
	if o.typ == RMB_BLIND || o.typ == RMB_SAFE {
		invert = vPick("invert", 2) == 1
	}
	sp := vIndexSp(o.name)
	cut := 1 + vPick("length", sp)
	word := o.name[:cut]
	ok := vUnique(word)
	if invert && !ok {
		return // which words count after INVERT is not said
	}
	var src []byte
	inv := "INVERT"
	if invert {
		src = append(src, inv[:3+vPick("inv", 4)]...)
		src = append(src, ' ')
	}
	src = append(src, word...)
	src = append(src, o.name[sp:]...)
	src = vAnyCase(string(src))
	space := vSpaces()
	var data [2]int
	var list [2][]int
	nd, nl := 0, 0
	for i := range o.args {
		src = append(src, space...)
		if o.args[i] == 'N' {
			b, v := vNumArg(1)
			src = append(src, b...)
			data[nd] = v
			nd++
		} else {
			b, v := vNumArg(1)
			if i+1 < len(o.args) && vPick("single", 2) == 1 {
				src = append(src, b...)
				list[nl] = []int{v}
			} else {
				b2, v2 := vNumArg(1)
				src = append(src, '(')
				src = append(src, b...)
				src = append(src, space...)
				src = append(src, b2...)
				src = append(src, ')')
				list[nl] = []int{v, v2}
			}
			nl++
		}
	}
	if len(o.args) > 0 {
		src = append(src, []string{"", "\n", "\r\n"}[vPick("end", 3)]...)
	}
	good, rmb := LoadRMB(src, "x.rej")
	if !ok {
		vAssert(!good, "ambiguous")
		return
	}
	vAssert(good, "accepted")
	if !good {
		return
	}
	fr := rmb.LookupRMBFrameForMapMarker([]byte("MAP01"))
	vAssert(fr != nil && len(fr.Commands) == 1, "one")
	if fr == nil || len(fr.Commands) != 1 {
		return
	}
	c := fr.Commands[0]
	vAssert(c.Type == o.typ, "type")
	vAssert(c.Invert == invert, "invert")
	vAssert(c.Band == (sp < len(o.name)), "band")
	if o.typ != RMB_NOPROCESS {
		vAssert(vAnd(c.Data[0] == data[0], c.Data[1] == data[1]), "numbers")
	}
	for k := range list {
		vAssert(len(c.List[k]) == len(list[k]), "list")
		if len(c.List[k]) == len(list[k]) {
			for i := range list[k] {
				vAssert(c.List[k][i] == list[k][i], "list")
			}
		}
	}
}

// the number, the list and what follows are read right, or refused, whatever the line is
//
//verif:prop C15
//verif:bound any 5 characters from six kinds after the option
func H_RmbList() { vRmbList(5) }

//verif:prop C15
//verif:tier thorough
//verif:bound any 6 characters from six kinds after the option
func H_RmbList6() { vRmbList(6) }

func vRmbList(n int) {
	var src []byte
	src = append(src, []string{"BLIND 3 ", "NODOOR "}[vPick("option", 2)]...)
	kinds := make([]int, n)
	val := make([]int, n)
	for i := range kinds {
		kinds[i] = vPick("kind", 6)
		d := vInt("digit", 0, 9)
		val[i] = d
		src = append(src, []byte{' ', '(', ')', ',', 'x', byte('0' + d)}[kinds[i]])
	}
	good, rmb := LoadRMB(src, "x.rej")
	vAssert(good == (rmb != nil), "result")
	// the list as the manual has it
	k := 0
	skip := func() {
		for k < len(kinds) && kinds[k] == 0 {
			k++
		}
	}
	skip()
	bracket := k < len(kinds) && kinds[k] == 1
	if bracket {
		k++
	}
	var list []int
	for {
		skip()
		if k >= len(kinds) || kinds[k] != 5 {
			break
		}
		v := 0
		for k < len(kinds) && kinds[k] == 5 {
			v = v*10 + val[k]
			k++
		}
		list = append(list, v)
		if k < len(kinds) && kinds[k] == 3 && (k+1 >= len(kinds) || kinds[k+1] != 3) {
			k++
		}
	}
	if bracket {
		if k < len(kinds) && kinds[k] == 2 {
			k++
		} else {
			k = 99
		}
	}
	skip()
	if k == len(kinds) && len(list) > 0 && kinds[n-1] != 3 {
		vReach("list")
		vAssert(good, "list-accepted")
		if good {
			c := rmb.LookupRMBFrameForMapMarker([]byte("E1M1")).Commands[0]
			l := c.List[0]
			vAssert(len(l) == len(list), "list-length")
			if len(l) == len(list) {
				for i := range l {
					vAssert(l[i] == list[i], "list-items")
				}
			}
		}
		return
	}
	for i := range kinds {
		if kinds[i] == 4 {
			vAssert(!good, "not-a-number")
		}
	}
	opened, open := 0, 0
	for i := range kinds {
		if kinds[i] == 1 {
			opened++
			open++
		} else if kinds[i] == 2 {
			open--
		}
	}
	if open != 0 || opened > 1 {
		vAssert(!good, "brackets")
	}
	vReach("refused")
}

// which options are of which level
//
//verif:prop C15
//verif:bound 4 lines of eleven kinds
//verif:reach local parent
func H_RmbFrames() {
	kinds := []string{"", "# BLIND 2 (1)", "LENGTH ", "  distance ", "E1M1", "map02", "MAP E1M1", "MAP MAP02", "Map other", "INV BLIND 3 (1)"}
	eol := []string{"\n", "\r\n"}[vPick("eol", 2)]
	var src []byte
	type opt struct {
		typ, val int
	}
	opts := map[string][]opt{}
	cur := ""
	for i := 0; i < 4; i++ {
		k := vPick("kind", len(kinds))
		src = append(src, kinds[k]...)
		switch k {
		case 2, 3:
			b, v := vNumArg(2)
			src = append(src, b...)
			opts[cur] = append(opts[cur], opt{[]int{RMB_LENGTH, RMB_DISTANCE}[k-2], v})
		case 4, 6:
			cur = "E1M1"
		case 5, 7:
			cur = "MAP02"
		case 8:
			cur = "OTHER"
		case 9:
			opts[cur] = append(opts[cur], opt{RMB_BLIND, 3})
		}
		src = append(src, eol...)
	}
	good, rmb := LoadRMB(src, "x.rej")
	vAssert(good, "accepted")
	if !good {
		return
	}
	for _, name := range []string{"E1M1", "MAP02", "OTHER", "E1M2"} {
		fr := rmb.LookupRMBFrameForMapMarker([]byte(name))
		want := append(append([]opt(nil), opts[""]...), opts[name]...)
		var got []RMBCommand
		if fr != nil {
			if fr.Parent != nil {
				got = append(got, fr.Parent.Commands...)
				vReach("parent")
			}
			got = append(got, fr.Commands...)
		}
		vAssert(len(got) == len(want), "options")
		if len(got) != len(want) {
			continue
		}
		for i := range got {
			vAssert(got[i].Type == want[i].typ, "type")
			vAssert(got[i].Data[0] == want[i].val, "value")
			vAssert(got[i].Invert == (want[i].typ == RMB_BLIND), "inverted")
			if len(opts[name]) > 0 {
				vReach("local")
			}
		}
		wl, wd := -1, -1
		for _, o := range want {
			if o.typ == RMB_LENGTH {
				wl = o.val
			} else if o.typ == RMB_DISTANCE {
				wd = o.val
			}
		}
		ok, l := fr.GetLENGTHValue()
		vAssert(ok == (wl >= 0), "length")
		if ok && wl >= 0 {
			vAssert(int(l) == wl, "length-last")
		}
		ok, d := fr.GetDISTANCEValue()
		vAssert(ok == (wd >= 0), "distance")
		if ok && wd >= 0 {
			vAssert(int(d) == wd*wd, "distance-last")
		}
	}
}

// a line that is no option is refused, and does nothing to the others
//
//verif:prop C15
//verif:bound a line of one of twenty kinds after another option
func H_RmbRefused() {
	lines := []string{"INVERT", "INV # BLIND 2 (1)", "INVERT LENGTH 3", "INVERT INVERT BLIND 1 (2)", "BAND", "BAND 1 2 (3)",
		"BAND LENGTH 1", "LENGTH", "LENGTH x", "LENGTH 1 2", "BLIND", "BLIND 1", "BLIND (1) 1", "INCLUDE 1", "INCLUDE (1 2) (3", "PERFECT 1",
		"E1M1 2", "MAP01 2", "MAP", "MAP # x", "MAPX", "WHAT 1", "1", "(", "BLINDS 1 (2)", "LENGTHS 1", "E1M1X", "E0M1",
		"BLIND 1 ()x", "LENGTH 1.5", "ASSERT (1) (2)", "ASSERT (1) (2) x"}
	li := vAnyCase(lines[vPick("line", len(lines))])
	var src []byte
	before := vPick("before", 2) == 1
	if before {
		src = append(src, "BLIND 2 (1)\n"...)
	}
	src = append(src, li...)
	if vPick("after", 2) == 1 {
		src = append(src, "\nLENGTH 2"...)
	}
	good, rmb := LoadRMB(src, "x.rej")
	vAssert(!good, "refused")
	vAssert(rmb == nil || good, "nothing")
}
