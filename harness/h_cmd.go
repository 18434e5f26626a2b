package main

//verif:subst os

func vAsciiBytes(name string, n int) []byte {
	b := vSymBytes(name, n)
	for _, c := range b {
		vAssume(vAnd(c >= 0x20, c < 0x7f))
	}
	return b
}

// vParse runs the option parser on the arguments
func vParse(args ...string) (ok, crashed bool) {
	vosReset()
	vos_Args = append([]string{"vigilantbsp"}, args...)
	crashed = vosRun(func() { ok = config.FromCommandLine() })
	return
}

func vCmdAny(n int) {
	a := string(vAsciiBytes("arg", n))
	var crashed bool
	switch vPick("where", 3) {
	case 0:
		_, crashed = vParse(a)
	case 1:
		_, crashed = vParse("-"+a, "in.wad")
	case 2:
		_, crashed = vParse("in.wad", "-n"+a)
	}
	vAssert(!crashed, "crashed")
}

//verif:prop C27
//verif:bound any argument of 0..3 printable characters; alone, after "-" before a file name, or after "-n" at the end
func H_CmdAny() { vCmdAny(vPick("length", 4)) }

//verif:prop C27
//verif:bound every double-hyphen option as the last, or not the last, argument, with nothing, "+", "-" or "=" and 0..2 arbitrary characters after it
func H_CmdLong() {
	opts := []string{"--cpuprofile", "--memprofile", "--unreversenodes", "--disableudmf", "--detailnodes", "--sidecache", "--zenvar:", "--zenvar", "--stknode", "--hashlump", "--eject", "--ableist", "--nosymm", "--speedtree", "--roots", "--", "--x"}
	o := opts[vPick("option", len(opts))]
	switch vPick("suffix", 4) {
	case 1:
		o += "+"
	case 2:
		o += "-"
	case 3:
		o += "=" + string(vAsciiBytes("value", vPick("length", 3)))
	}
	var crashed bool
	switch vPick("where", 3) {
	case 0:
		_, crashed = vParse(o)
	case 1:
		_, crashed = vParse("in.wad", o)
	case 2:
		_, crashed = vParse(o, "x.out", "in.wad")
	}
	vAssert(!crashed, "crashed")
}

// --- what the options mean -------------------------------------------------

// one sub-option: a letter and how its argument is written
type vOpt struct {
	letter byte
	kind   int // 0 none, 1 "+", 2 "-", 3 "=number", 4 "?"
	num    int
	num2   int // -bo=num,num2
	two    bool
}

func (o vOpt) text() string {
	t := string([]byte{o.letter})
	switch o.kind {
	case 1:
		t += "+"
	case 2:
		t += "-"
	case 3:
		t += "=" + vDec(o.num)
		if o.two {
			t += "," + vDec(o.num2)
		}
	case 4:
		t += "?"
	case 5:
		t += "=" + "vdxzDXZV"[o.num:o.num+1]
		if o.two {
			t += vDec(o.num2)
		}
	}
	return t
}

// vDec: decimal notation of 0..99 (symbolic)
func vDec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return string([]byte{byte('0' + n/10), byte('0' + n%10)})
}

func vNum(name string, lo, hi int) int {
	n := int(vU8(name))
	vAssume(vAnd(n >= lo, n <= hi))
	return n
}

func vOnOff(name string) (kind int) { return vPick(name, 3) }

func vPickOpt(group byte) vOpt {
	var o vOpt
	switch group {
	case 'b':
		o.letter = "saztero"[vPick("letter", 7)]
		switch o.letter {
		case 's', 'a':
			o.kind = vPick("kind", 4)
			if o.kind == 3 {
				o.kind = 4
			}
		case 'r':
			o.kind = vOnOff("kind")
		case 'z', 'e':
			o.kind = vPick("kind", 4)
			o.num = 0
			if o.kind == 3 {
				o.num = vNum("value", 0, 2)
			}
		case 't':
			o.kind = vPick("kind", 4)
			if o.kind == 3 {
				o.num = vNum("value", 0, 99)
			}
		case 'o':
			o.kind = vPick("kind", 4)
			if o.kind == 3 {
				o.two = vPick("two", 2) == 1
				if o.two {
					o.num, o.num2 = vNum("x", 0, 99), vNum("y", 0, 99)
				} else {
					o.num = vNum("value", 0, 4)
				}
			}
		}
	case 'n':
		o.letter = "apmticfd"[vPick("letter", 8)]
		o.kind = 3
		switch o.letter {
		case 'a':
			o.num = vNum("value", 0, 4)
		case 'p':
			o.num = vNum("value", 0, 2)
		case 'm':
			o.num = vNum("value", 0, 3)
		case 't':
			o.kind = []int{0, 1, 3}[vPick("kind", 3)]
			if o.kind == 3 {
				o.num = vNum("value", 0, 99)
			}
		case 'i':
			o.kind = vPick("kind", 4)
			if o.kind == 3 {
				o.num = vNum("value", 0, 2)
			}
		case 'f':
			o.num = vNum("value", 1, 99)
		case 'd':
			o.kind = vPick("kind", 4)
			if o.kind == 3 {
				o.num = vNum("value", 0, 99)
			}
		case 'c':
			o.kind = 5
			o.num = vPick("format", 8)
			if "vdxzDXZV"[o.num] == 'z' || "vdxzDXZV"[o.num] == 'Z' {
				o.two = vPick("level", 2) == 1
				if o.two {
					o.num2 = vNum("level", 1, 9)
				}
			}
		}
	case 'r':
		o.letter = "zgms"[vPick("letter", 4)]
		o.kind = vOnOff("kind")
		if o.letter == 's' && vPick("number", 2) == 1 {
			o.kind = 3
			o.num = vNum("value", 0, 3)
		}
	}
	return o
}

// vOptSpec: the documented meaning of a sub-option
func vOptSpec(c *ProgramConfig, group byte, o vOpt) {
	on := o.kind != 2
	switch group {
	case 'b':
		c.RebuildBlockmap = true
		switch o.letter {
		case 's':
			if o.kind == 4 {
				c.BlockmapTryConditionally |= BM_TRYCOND_PROPER_SUBSET_COMPRESSION
			} else {
				c.SubsetCompressBlockmap = on || c.AggressiveSubsets // a overrides s
			}
		case 'a':
			if o.kind == 4 {
				c.BlockmapTryConditionally |= BM_TRYCOND_AGGRESSIVE_SUBSET_ELIMINATION
			} else {
				c.AggressiveSubsets = on
				c.SubsetCompressBlockmap = on || c.SubsetCompressBlockmap
			}
		case 'r':
			c.RemoveNonCollideable = on
		case 'z':
			c.UseZeroHeader = vOr(o.kind < 2, vAnd(o.kind == 3, o.num > 0))
			if c.UseZeroHeader {
				c.ZeroHeaderIsZero = vAnd(o.kind == 3, o.num == 2)
			}
		case 't':
			c.BlockmapThreads = int16(vIte(o.kind == 3, o.num, vIte(o.kind == 2, 1, 0)))
		case 'e':
			v := vIte(o.kind == 3, o.num, vIte(o.kind == 2, 0, 1))
			c.BlockmapSearchAbortion = vIte(v == 0, BM_OFFSET_NOABORT, vIte(v == 1, BM_OFFSET_FITS_VANILLA, BM_OFFSET_FITS_ANYPORT))
		case 'o':
			v := vIte(o.kind == 3, o.num, vIte(o.kind == 2, 0, 2))
			if o.two {
				c.BlockmapOffsetMode = BM_OFFSET_FIXED
				c.BlockmapXOffset, c.BlockmapYOffset = int16(o.num), int16(o.num2)
				return
			}
			switch v {
			case 0:
				c.BlockmapOffsetMode = BM_OFFSET_FIXED
				c.BlockmapXOffset, c.BlockmapYOffset = 0, 0
			case 1:
				c.BlockmapOffsetMode = BM_OFFSET_FIXED
				c.BlockmapXOffset, c.BlockmapYOffset = 8, 8
			case 2:
				c.BlockmapOffsetMode = BM_OFFSET_THIRTYSIX
			case 3:
				c.BlockmapOffsetMode = BM_OFFSET_HEURISTIC
			case 4:
				c.BlockmapOffsetMode = BM_OFFSET_BRUTEFORCE
			}
		}
	case 'n':
		c.RebuildNodes = true
		switch o.letter {
		case 'a':
			c.PickNodeUser = []int{PICKNODE_TRADITIONAL, PICKNODE_VISPLANE, PICKNODE_VISPLANE_ADV, PICKNODE_MAELSTROM, PICKNODE_ZENLIKE}[o.num]
		case 'p':
			c.SecondaryPriority = []int{SECONDARY_PRIORITY_SEGS, SECONDARY_PRIORITY_SUBSECTORS, SECONDARY_PRIORITY_BALANCE}[o.num]
		case 'm':
			c.MultiTreeMode = []int{MULTITREE_NOTUSED, MULTITREE_ROOT_ONLY, MULTITREE_ROOT_ONLY, MULTITREE_ROOT_ONLY}[o.num]
			if o.num > 0 {
				c.SpecialRootMode = []int{0, MROOT_ONESIDED, MROOT_TWOSIDED, MROOT_EVERY}[o.num]
			}
		case 't':
			c.NodeThreads = int16(vIte(o.kind == 3, o.num, 0))
		case 'i':
			v := vIte(o.kind == 3, o.num, vIte(o.kind == 2, 0, 2))
			c.CullInvisibleSegs = []int{CULL_SEGS_DONT, CULL_SEGS_SLOPPY, CULL_SEGS_PROPER}[v]
		case 'f':
			c.PickNodeFactor = o.num
		case 'd':
			c.PenalizeDiagonality = vIte(on && (o.kind != 3 || o.num > 0), PENALIZE_DIAGONALITY_ALWAYS, PENALIZE_DIAGONALITY_NEVER)
			if o.kind == 3 {
				c.DiagonalPenalty = o.num
			}
		case 'c':
			c.NodeType = []int{NODETYPE_VANILLA, NODETYPE_DEEP, NODETYPE_ZDOOM_EXTENDED, NODETYPE_ZDOOM_COMPRESSED, NODETYPE_VANILLA_OR_DEEP, NODETYPE_VANILLA_OR_ZEXTENDED, NODETYPE_VANILLA_OR_ZCOMPRESSED, NODETYPE_VANILLA_RELAXED}[o.num]
			if o.two {
				c.ZdoomCompression = o.num2
			}
		}
	case 'r':
		switch o.letter {
		case 'z':
			c.Reject = vIte(on, REJECT_ZEROFILLED, REJECT_NORMAL)
		case 'g':
			c.UseGraphsForLOS = on
		case 'm':
			c.UseRMB = on
		case 's':
			v := vIte(o.kind == 3, o.num, vIte(on, 1, 0))
			c.RejectSelfRefMode = []int{REJ_SELFREF_TRIVIAL, REJ_SELFREF_CHECK, REJ_SELFREF_PEDANTIC, REJ_SELFREF_IGNORE_ALWAYS}[v]
		}
	}
}

// vOptDerive: settings that follow from the others
func vOptDerive(c *ProgramConfig) {
	c.UseRMB = c.UseRMB && c.Reject == REJECT_NORMAL
	c.EffectiveSecondary = c.SecondaryPriority
	if c.SecondaryPriority == SECONDARY_PRIORITY_AUTO {
		c.EffectiveSecondary = vIte(c.PickNodeUser == PICKNODE_ZENLIKE, SECONDARY_PRIORITY_BALANCE, SECONDARY_PRIORITY_SEGS)
	}
	if c.RootsReadPending {
		c.Roots = vIte(c.TreeWidth < 1, 2, c.TreeWidth)
	}
	c.MinorCmpUser = vIte(c.EffectiveSecondary == SECONDARY_PRIORITY_BALANCE, MINOR_CMP_DEPTH, MINOR_CMP_BALANCE)
	c.PenalizeSectorSplits = c.EffectiveSecondary == SECONDARY_PRIORITY_SEGS
	if !c.SpeedTreeExplicit {
		c.SpeedTree = vOr(vOr(c.PickNodeUser == PICKNODE_VISPLANE, c.PickNodeUser == PICKNODE_VISPLANE_ADV), c.PickNodeUser == PICKNODE_ZENLIKE)
	}
	c.SpeedTree = vAnd(c.SpeedTree, c.MultiTreeMode != MULTITREE_NOTUSED)
}

func vCfgSame(a, b *ProgramConfig) bool {
	r := a.BlockmapXOffset == b.BlockmapXOffset
	r = vAnd(r, a.BlockmapYOffset == b.BlockmapYOffset)
	r = vAnd(r, a.BlockmapOffsetMode == b.BlockmapOffsetMode)
	r = vAnd(r, a.BlockmapThreads == b.BlockmapThreads)
	r = vAnd(r, a.UseZeroHeader == b.UseZeroHeader)
	r = vAnd(r, a.ZeroHeaderIsZero == b.ZeroHeaderIsZero)
	r = vAnd(r, a.SubsetCompressBlockmap == b.SubsetCompressBlockmap)
	r = vAnd(r, a.AggressiveSubsets == b.AggressiveSubsets)
	r = vAnd(r, a.BlockmapTryConditionally == b.BlockmapTryConditionally)
	r = vAnd(r, a.BlockmapSearchAbortion == b.BlockmapSearchAbortion)
	r = vAnd(r, a.RemoveNonCollideable == b.RemoveNonCollideable)
	r = vAnd(r, a.RebuildBlockmap == b.RebuildBlockmap)
	r = vAnd(r, a.RebuildNodes == b.RebuildNodes)
	r = vAnd(r, a.Reject == b.Reject)
	r = vAnd(r, a.UseGraphsForLOS == b.UseGraphsForLOS)
	r = vAnd(r, a.UseRMB == b.UseRMB)
	r = vAnd(r, a.RejectSelfRefMode == b.RejectSelfRefMode)
	r = vAnd(r, a.PickNodeUser == b.PickNodeUser)
	r = vAnd(r, a.PickNodeFactor == b.PickNodeFactor)
	r = vAnd(r, a.MinorCmpUser == b.MinorCmpUser)
	r = vAnd(r, a.PenalizeSectorSplits == b.PenalizeSectorSplits)
	r = vAnd(r, a.CullInvisibleSegs == b.CullInvisibleSegs)
	r = vAnd(r, a.NodeType == b.NodeType)
	r = vAnd(r, a.ZdoomCompression == b.ZdoomCompression)
	r = vAnd(r, a.DiagonalPenalty == b.DiagonalPenalty)
	r = vAnd(r, a.PenalizeDiagonality == b.PenalizeDiagonality)
	r = vAnd(r, a.MultiTreeMode == b.MultiTreeMode)
	r = vAnd(r, vOr(a.MultiTreeMode == MULTITREE_NOTUSED, a.SpecialRootMode == b.SpecialRootMode))
	r = vAnd(r, a.NodeThreads == b.NodeThreads)
	r = vAnd(r, a.SecondaryPriority == b.SecondaryPriority)
	r = vAnd(r, a.EffectiveSecondary == b.EffectiveSecondary)
	r = vAnd(r, a.SpeedTree == b.SpeedTree)
	r = vAnd(r, a.Roots == b.Roots)
	r = vAnd(r, a.TreeWidth == b.TreeWidth)
	r = vAnd(r, a.TreeReach == b.TreeReach)
	r = vAnd(r, a.StraightNodes == b.StraightNodes)
	r = vAnd(r, a.NodeDetailFriendliness == b.NodeDetailFriendliness)
	r = vAnd(r, a.CacheSideness == b.CacheSideness)
	r = vAnd(r, a.DepthArtifacts == b.DepthArtifacts)
	r = vAnd(r, a.StkNode == b.StkNode)
	r = vAnd(r, a.Deterministic == b.Deterministic)
	r = vAnd(r, a.Eject == b.Eject)
	r = vAnd(r, a.Ableist == b.Ableist)
	r = vAnd(r, a.NoSymm == b.NoSymm)
	r = vAnd(r, a.DisableUDMF == b.DisableUDMF)
	r = vAnd(r, a.HashLumps == b.HashLumps)
	r = vAnd(r, a.Profile == b.Profile)
	r = vAnd(r, a.MemProfile == b.MemProfile)
	r = vAnd(r, a.VerbosityLevel == b.VerbosityLevel)
	r = vAnd(r, a.PersistThroughInsanity == b.PersistThroughInsanity)
	r = vAnd(r, a.FilterProhibitsLevels == b.FilterProhibitsLevels)
	r = vAnd(r, len(a.FilterLevel) == len(b.FilterLevel))
	return r
}

func vCmdGroup(group byte, opts int) {
	want := *config
	args := []string{"in.wad"}
	arg := "-" + string([]byte{group})
	for i := 0; i < opts; i++ {
		o := vPickOpt(group)
		arg += o.text()
		vOptSpec(&want, group, o)
		if i+1 < opts && vPick("separate", 2) == 1 {
			args = append(args, arg)
			arg = "-" + string([]byte{group})
		}
	}
	args = append(args, arg)
	vOptDerive(&want)
	ok, crashed := vParse(args...)
	vAssert(!crashed, "crashed")
	vAssert(ok, "rejected")
	vAssert(vCfgSame(config, &want), "settings")
	vAssert(config.InputFileName == "in.wad" && config.OutputFileName == "", "files")
}

//verif:prop C27
//verif:bound one -b sub-option, any documented value (numbers up to 99)
func H_CmdBlockmap1() { vCmdGroup('b', 1) }

//verif:prop C27
//verif:bound two -b sub-options, together or in two arguments, any documented value (numbers up to 99)
func H_CmdBlockmap2() { vCmdGroup('b', 2) }

//verif:prop C27
//verif:bound two -n sub-options, together or in two arguments, any documented value (numbers up to 99)
func H_CmdNodes2() { vCmdGroup('n', 2) }

//verif:prop C27
//verif:bound three -r sub-options, together or in several arguments, any documented value
func H_CmdReject3() { vCmdGroup('r', 3) }

// vRest: every other option
func vCmdRest(want *ProgramConfig, args []string, i int) []string {
	onoff := []string{"", "+", "-"}
	k := vOnOff("kind")
	num := func(hi int) (string, int) { // =number; -1: none
		if vPick("number", 2) == 0 {
			return onoff[k], -1
		}
		v := vNum("value", 0, hi)
		return "=" + vDec(v), v
	}
	val := func(v int, plus, minus int) int { return vIte(v >= 0, v, vIte(k == 2, minus, plus)) }
	switch i {
	case 0:
		want.Deterministic = k != 2
		args = append(args, "-d"+onoff[k])
	case 1:
		n := 1 + vPick("vs", 4)
		want.VerbosityLevel += n
		args = append(args, "-vvvv"[:n+1])
	case 2:
		want.RebuildBlockmap = k != 2
		args = append(args, "-b"+onoff[k])
	case 3:
		want.RebuildNodes = k != 2
		args = append(args, "-n"+onoff[k])
	case 4:
		if k == 2 {
			want.Reject = REJECT_DONTTOUCH
		}
		args = append(args, "-r"+onoff[k])
	case 5:
		args = append(args, "--unreversenodes")
		want.StraightNodes = true
	case 6:
		args = append(args, "--hashlump")
		want.HashLumps = true
	case 7:
		args = append(args, "--ableist")
		want.Ableist = true
	case 8:
		args = append(args, "--nosymm")
		want.NoSymm = true
	case 9:
		args = append(args, "--eject", "-o", "x.wad")
		want.Eject = true
		want.OutputFileName = "x.wad"
	case 10:
		t, v := num(3)
		args = append(args, "--detailnodes"+t)
		want.NodeDetailFriendliness = []int{NODE_DETAIL_AUTO, NODE_DETAIL_SUPPRESS, NODE_DETAIL_ALWAYS, NODE_DETAIL_HEURISTIC}[val(v, 2, 1)]
	case 11:
		t, v := num(2)
		args = append(args, "--sidecache"+t)
		want.CacheSideness = []int{CACHE_SIDENESS_AUTO, CACHE_SIDENESS_NEVER, CACHE_SIDENESS_ALWAYS}[val(v, 2, 1)]
	case 12:
		t, v := num(1)
		args = append(args, "--stknode"+t)
		want.StkNode = val(v, 1, 0) == 1
	case 13:
		t, v := num(1)
		args = append(args, "--speedtree"+t)
		want.SpeedTreeExplicit = true
		want.SpeedTree = val(v, 1, 0) == 1
	case 14:
		t, v := num(99)
		args = append(args, "--roots"+t)
		want.Roots = val(v, 0, 0)
		want.RootsReadPending = vAnd(v < 0, k != 2)
	case 15:
		v := vNum("value", 2, 99)
		args = append(args, "-nw="+vDec(v))
		want.RebuildNodes = true
		want.TreeWidth = v
	case 16:
		v := vNum("value", 1, 99)
		args = append(args, "-nr="+vDec(v))
		want.RebuildNodes = true
		want.TreeReach = v
	case 17:
		args = append(args, "--cpuprofile", "x.prof")
		want.Profile, want.ProfilePath = true, "x.prof"
	case 18:
		args = append(args, "--memprofile", "x.prof")
		want.MemProfile, want.MemProfilePath = true, "x.prof"
	case 19:
		args = append(args, "-o", "-x.wad")
		want.OutputFileName = "-x.wad"
	case 20:
		args = append(args, "--disableudmf")
		want.DisableUDMF = true
	case 21:
		o := vPickOpt('b')
		args = append(args, "-b"+o.text())
		vOptSpec(want, 'b', o)
	case 22:
		o := vPickOpt('n')
		args = append(args, "-n"+o.text())
		vOptSpec(want, 'n', o)
	case 23:
		o := vPickOpt('r')
		args = append(args, "-r"+o.text())
		vOptSpec(want, 'r', o)
	case 24:
		args = append(args, "in.wad")
		want.InputFileName = "in.wad"
	}
	return args
}

func vCmdAll(first, second int) {
	a := vPick("first", 25)
	b := vPick("second", 25)
	vAssume(a != b && a >= first && a < second)
	// options that are refused together
	vAssume(!(a == 9 && b == 19 || a == 19 && b == 9))
	// -r- is final
	vAssume(!(a == 4 && b == 23))
	want := *config
	args := vCmdRest(&want, nil, a)
	args = vCmdRest(&want, args, b)
	vOptDerive(&want)
	ok, crashed := vParse(args...)
	vAssert(!crashed, "crashed")
	vAssert(ok, "rejected")
	vAssert(vCfgSame(config, &want), "settings")
	vAssert(config.InputFileName == want.InputFileName && config.OutputFileName == want.OutputFileName, "files")
	vAssert(config.ProfilePath == want.ProfilePath && config.MemProfilePath == want.MemProfilePath, "files")
}

//verif:prop C27
//verif:bound any two different options (long and short, any documented value) in either order
func H_CmdPairs1() { vCmdAll(0, 10) }

//verif:prop C27
//verif:bound any two different options (long and short, any documented value) in either order
func H_CmdPairs2() { vCmdAll(10, 25) }

//verif:prop C27
//verif:bound -m: or -!m: with one or two names, each MAPxx or ExMy in upper or lower case, or an arbitrary name of 1..3 characters
func H_CmdMaps() {
	n := 1 + vPick("names", 2)
	not := vPick("not", 2) == 1
	arg := "-m:"
	if not {
		arg = "-!m:"
	}
	good := true
	var want [][]byte
	for i := 0; i < n; i++ {
		if i > 0 {
			arg += "+"
		}
		d1, d2 := byte('0'+vNum("digit", 0, 9)), byte('0'+vNum("digit", 0, 9))
		switch vPick("name", 5) {
		case 0:
			arg += string([]byte{'M', 'A', 'P', d1, d2})
			want = append(want, []byte{'M', 'A', 'P', d1, d2})
		case 1:
			arg += string([]byte{'e', d1, 'm', d2})
			good = vAnd(good, d1 != '0') // there is no episode 0
			want = append(want, []byte{'E', d1, 'M', d2})
		case 2:
			arg += string([]byte{'m', 'a', 'p', d1, d2})
			want = append(want, []byte{'M', 'A', 'P', d1, d2})
		case 3:
			arg += string([]byte{'m', 'a', 'p', d1})
			good = false
		case 4:
			a := vAsciiBytes("any", 1+vPick("length", 3))
			for _, c := range a {
				vAssume(c != '+')
			}
			arg += string(a)
			good = false
		}
	}
	// marker names the program knows
	ok, crashed := vParse("in.wad", arg)
	vAssert(!crashed, "crashed")
	if !good {
		vAssert(!ok, "bad level name accepted")
		return
	}
	vAssert(ok, "rejected")
	vAssert(config.FilterProhibitsLevels == not, "not")
	vAssert(len(config.FilterLevel) == n, "count")
	for i := range want {
		vAssert(vSameBytes(config.FilterLevel[i], want[i]), "level name")
	}
}

//verif:prop C27
//verif:bound one or two zen variables, of any index, either case, values 0..99
func H_CmdZen() {
	vars := []*int{&ZEN_X1, &ZEN_X2, &ZEN_X3, &ZEN_X4, &ZEN_Y1, &ZEN_Y2, &ZEN_Y3, &ZEN_Y4}
	var before [8]int
	for i, p := range vars {
		before[i] = *p
	}
	names := []string{"x1", "X2", "x3", "x4", "y1", "y2", "Y3", "y4"}
	n := 1 + vPick("count", 2)
	arg := "--zenvar:"
	y := false
	want := before
	last := -1
	for i := 0; i < n; i++ {
		v := vPick("variable", 8)
		vAssume(v != last)
		last = v
		x := vNum("value", 0, 99)
		want[v] = x
		y = y || v >= 4
		if i > 0 {
			arg += ","
		}
		arg += names[v] + "=" + vDec(x)
	}
	ok, crashed := vParse(arg, "in.wad")
	var got [8]int
	for i, p := range vars {
		got[i] = *p
		*p = before[i] // the replay runs many cases in one process
	}
	vAssert(!crashed, "crashed")
	vAssert(ok, "rejected")
	vAssert(got == want, "variables")
	vAssert(config.DepthArtifacts == !y, "depth artifacts")
}
