package main

//verif:prop C20
//verif:bound 1000 drawn levels of 4x3 cells and up to 4 sectors, anywhere on the map, settings, threads, kind of roots and format chosen by level
//verif:reach not-the-first precious
//verif:splitptr
//verif:steps 400000000
func H_MultiTree() {
	vMultiTree(vPick("level", 1000), 4, 3)
}

//verif:prop C20
//verif:tier thorough
//verif:bound 8000 drawn levels of 4x3 cells, 500 of 6x5, as H_MultiTree
//verif:splitptr
//verif:steps 400000000
func H_MultiTreeAll() {
	k := vPick("level", 8500)
	if k < 8000 {
		vMultiTree(1000+k, 4, 3)
	} else {
		vMultiTree(1000+k, 6, 5)
	}
}

//verif:prop C20
//verif:bound 2 levels of 4x3 cells with 3 roots, 2 threads, with and without option speedtree, every order in which the threads run
//verif:reach not-the-first
//verif:splitptr
//verif:steps 400000000
func H_MultiTreeOrder() { vMultiTreeOrder(2*vPick("level", 2), 2) }

//verif:prop C20
//verif:tier thorough
//verif:bound 4 levels of 4x3 cells, as H_MultiTreeOrder
//verif:reach not-the-first
//verif:splitptr
//verif:steps 400000000
func H_MultiTreeOrderAll() { vMultiTreeOrder(vPick("level", 4), 2) }

func vMultiTreeOrder(k, threads int) {
	art := [][]string{{"aabb", "aacb", "aaca"}, {"abbb", "aacb", "daca"}, {"abbc", "ab.c", "aabc"}, {"aaaa", "abca", "aaaa"}}[k]
	m := vGrid([]int{0, 64, 80, 120, 184}, []int{-64, 0, 40, 128}, art, true)
	m.loose = true
	config.NodeThreads = int16(threads)
	config.SpeedTree = vPick("speedtree", 2) == 1
	mk := func() *NodesInput {
		in := vNodesInput()
		in.pickNodeUser, in.pickNodeFactor = 0, 17
		in.multiTreeMode, in.specialRootMode = MULTITREE_ROOT_ONLY, MROOT_TWOSIDED
		return in
	}
	vSchedules(0)
	vMultiTreeOf(m, mk, MROOT_TWOSIDED)
}

// vShape makes a tree of nodes: "(lr)" is a node, "." a subsector
func vShape(s string) (*NodeInProcess, string) {
	if s[0] == '.' {
		return nil, s[1:]
	}
	n := new(NodeInProcess)
	n.nextL, s = vShape(s[1:])
	n.nextR, s = vShape(s)
	return n, s[1:]
}

func vShapeHeight(n *NodeInProcess) int {
	if n == nil {
		return 0
	}
	return 1 + vMax(vMax(vShapeHeight(n.nextL), vShapeHeight(n.nextR)), 1)
}

var vShapes = []string{"(..)", "((..).)", "(.(..))", "((..)(..))", "((.(..)).)", "((.(..))(..))", "((..)((..)(..)))", "((.(..))((..).))", "((((..).).).)"}

//verif:prop C20
//verif:bound any two trees of 9 shapes, any numbers of subsectors, segs and split precious lines up to 2000000000, any two places in the order of trees
//verif:reach better worse
func H_MultiTreeOrderOfTrees() {
	mk := func(name string) (*MTPWorker_Result, *vTree) {
		root, _ := vShape(vShapes[vPick(name+"shape", len(vShapes))])
		t := &NodesTotals{preciousSplit: vInt(name+"precious", 0, 2000000000), numSegs: uint32(vInt(name+"segs", 0, 2000000000)), numSSectors: vInt(name+"subsectors", 0, 2000000000)}
		l, r := vShapeHeight(root.nextL), vShapeHeight(root.nextR)
		v := &vTree{precious: t.preciousSplit > 0, ssec: int(t.numSSectors), segs: int(t.numSegs), diff: vMax(l-r, r-l), max: vMax(l, r)}
		return &MTPWorker_Result{workData: &NodesWork{totals: t}, bspTree: root, id: vInt(name+"place", 0, 1<<30)}, v
	}
	o, vo := mk("old")
	n, vn := mk("new")
	better, worse := vTreeBetter(vn, vo), vTreeBetter(vo, vn)
	if better {
		vReach("better")
	}
	if worse {
		vReach("worse")
	}
	vAssert(MTP_IsBSPTreeBetter(o, n) == (better || !worse && n.id < o.id), "order-of-trees")
}
