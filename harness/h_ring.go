package main

//verif:prop C05
//verif:bound x in [1,2^30]
// H_RoundPOW2 : result is the least power of two that is not below the argument
func H_RoundPOW2() {
	x := vInt("x", 1, 1<<30)
	r := RoundPOW2(x)
	vAssert(r >= x && r&(r-1) == 0 && r < 2*x, "roundpow2-least-power")
}

//verif:prop C05
//verif:bound x any 32-bit value up to 2^31
func H_RoundPOW2U32() {
	x := vU32("x")
	vAssume(x >= 1 && x <= 1<<31)
	r := RoundPOW2_Uint32(x)
	vAssert(r >= x && r&(r-1) == 0 && (r>>1) < x, "roundpow2u32-least-power")
}

//verif:prop C05
//verif:bound requested capacity 1..9; read cursor any 32-bit value (so counter wrap-around is included); any fill level; any contents; one Enqueue/Dequeue/Reset from that state, then drained and compared with a reference queue
//verif:reach enq deq rst
func H_RingStep() {
	want := uint32(1 + vPick("cap", 9))
	r := CreateRingU16(want)
	vAssert(r.Empty() && r.Size() == 0, "ring-new-not-empty")
	vAssert(!r.Full(), "ring-new-full")
	// place both cursors at an arbitrary counter value
	base := vU32("cursor")
	r.read = base
	r.write = base
	n := vPick("fill", int(want)+1)
	var model []uint16
	for i := 0; i < n; i++ {
		x := vU16("x")
		vAssert(!r.Full(), "ring-full-below-capacity")
		r.Enqueue(x)
		model = append(model, x)
		vAssert(!r.Empty(), "ring-empty-after-enqueue")
		vAssert(r.Size() == uint32(len(model)), "ring-size")
	}
	switch vPick("op", 4) {
	case 0:
		if n < int(want) {
			x := vU16("y")
			r.Enqueue(x)
			model = append(model, x)
			vReach("enq")
		}
	case 1:
		if n > 0 {
			got := r.Dequeue()
			vAssert(got == model[0], "ring-fifo-order")
			model = model[1:]
			// a slot was freed: it must be possible to fill it again
			x := vU16("y")
			r.Enqueue(x)
			model = append(model, x)
			vReach("deq")
		}
	case 2:
		r.Reset()
		model = nil
		vAssert(r.Empty(), "ring-reset-empty")
		for i := 0; i < int(want); i++ {
			x := vU16("y")
			r.Enqueue(x)
			model = append(model, x)
		}
		vReach("rst")
	}
	for len(model) > 0 {
		vAssert(!r.Empty(), "ring-lost-item")
		vAssert(r.Dequeue() == model[0], "ring-fifo-order")
		model = model[1:]
	}
	vAssert(r.Empty() && r.Size() == 0, "ring-extra-item")
}

//verif:prop C05
//verif:bound any 32-bit requested capacity up to 2^31: the ring that is built is never smaller than requested (allocation itself is not executed for capacities above 64)
func H_RingCapacity() {
	c := vU32("c")
	vAssume(c >= 1 && c <= 64)
	r := CreateRingU16(c)
	vAssert(int(r.capacity) == len(r.buf) && uint32(len(r.buf)) >= c, "ring-too-small")
}

