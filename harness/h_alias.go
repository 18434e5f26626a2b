package main

//verif:const ALIAS_ROW_SIZE 8

//verif:prop C06
//verif:bound alias counter anywhere in 0..72 (rows of the bit array shortened from 8192 to 8 bytes) in the shape the real operations build (bit array grown exactly when needed); arbitrary prior marks on two arbitrary aliases; one operation of {generate, mark, unvisit all, clone then mutate the clone, mutate the original after cloning}; then any alias queried, compared with a reference set
//verif:reach clone grown gen mark unvisit
func H_SegAlias() {
	var s SegAliasHolder
	s.Init()
	// near the first element, or across the boundary where the array grows
	lo := 0
	if vBool("high") {
		lo = 56
	}
	n0 := lo + vInt("n0", 1, 16)
	s.maxAlias = lo
	for i := lo; i < lo+16; i++ {
		if i >= n0 {
			break
		}
		vAssert(s.Generate() == i+1, "alias-unique")
	}
	// now: aliases lo+1..n0 are marked (a freshly generated alias counts as
	// visited); start over with arbitrary marks on a and b
	marked := make([]bool, 24)
	s.UnvisitAll()
	a := vInt("a", lo+1, n0)
	b := vInt("b", lo+1, n0)
	vAssert(!s.MarkAndRecall(a), "alias-unvisited")
	marked[a-lo] = true
	vAssert(s.MarkAndRecall(b) == (a == b), "alias-recall")
	marked[b-lo] = true
	n := n0
	switch vPick("op", 5) {
	case 0:
		g := s.Generate()
		vAssert(g == n0+1, "alias-unique")
		n = n0 + 1
		marked[g-lo] = true
		vReach("gen")
		if g > 64 {
			vReach("grown")
		}
	case 1:
		c := vInt("c", lo+1, n0)
		vAssert(s.MarkAndRecall(c) == marked[c-lo], "alias-recall")
		marked[c-lo] = true
		vReach("mark")
	case 2:
		s.UnvisitAll()
		for i := range marked {
			marked[i] = false
		}
		vReach("unvisit")
	case 3:
		c := s.Clone()
		vAssert(c.Generate() == n0+1, "alias-clone-counter")
		d := vInt("d", lo+1, n0)
		vAssert(c.MarkAndRecall(d) == marked[d-lo], "alias-clone-copies")
		c.UnvisitAll()
		vReach("clone")
	case 4:
		c := s.Clone()
		s.UnvisitAll()
		vAssert(s.Generate() == n0+1, "alias-unique")
		d := vInt("d", lo+1, n0)
		vAssert(c.MarkAndRecall(d) == marked[d-lo], "alias-clone-independent")
		return
	}
	q := vInt("q", lo+1, n)
	vAssert(s.MarkAndRecall(q) == marked[q-lo], "alias-recall-final")
	vAssert(s.MarkAndRecall(q), "alias-recall-twice")
}
