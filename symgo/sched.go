package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduler: every simulated goroutine is a Go goroutine, exactly
// one of which runs at any time.

type G struct {
	id       int
	resume   chan struct{}
	fin      chan struct{}
	ready    func() bool // nil: runnable
	done     bool
	cur      *Frame
	depth    int
	failMode int
}

type waiter struct {
	v    Val
	done bool
}

type Sched struct {
	it       *Interp
	gs       []*G
	cur      *G
	explore  bool
	preempts int
	killed   bool
	err      any
	wg       sync.WaitGroup
}

func newSched(it *Interp) *Sched {
	s := &Sched{it: it}
	g := &G{id: 0, resume: make(chan struct{})}
	s.gs = []*G{g}
	s.cur = g
	return s
}

func (s *Sched) runnable() []*G {
	var r []*G
	for _, g := range s.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

func (s *Sched) switchTo(g *G) {
	me := s.cur
	if g == me {
		return
	}
	it := s.it
	me.cur, me.depth, me.failMode = it.cur, it.depth, it.failMode
	s.cur = g
	it.cur, it.depth, it.failMode = g.cur, g.depth, g.failMode
	g.resume <- struct{}{}
	<-me.resume
	s.afterResume(me)
}

func (s *Sched) afterResume(me *G) {
	if s.killed && me.id != 0 {
		panic(killedG{})
	}
	s.it.cur, s.it.depth, s.it.failMode = me.cur, me.depth, me.failMode
	if me.id == 0 && s.err != nil {
		e := s.err
		s.err = nil
		panic(e)
	}
}

// park blocks the current goroutine until ready holds.
func (s *Sched) park(ready func() bool) {
	it := s.it
	if it.spec > 0 {
		it.abort("blocking operation in merged region")
	}
	me := s.cur
	me.ready = ready
	for {
		rs := s.runnable()
		if len(rs) == 0 {
			me.ready = nil
			if me.id == 0 {
				panic(targetPanic{msg: "deadlock", v: it.rtErr("all goroutines are asleep - deadlock!")})
			}
			s.err = targetPanic{msg: "deadlock", v: it.rtErr("all goroutines are asleep - deadlock!")}
			s.toMainForever(me)
		}
		g := rs[0]
		if s.explore && len(rs) > 1 {
			g = rs[it.choice(len(rs))]
		} else {
			// round robin: first runnable after me
			for _, c := range rs {
				if c.id > me.id {
					g = c
					break
				}
			}
		}
		if g == me {
			break
		}
		s.switchTo(g)
		if me.ready == nil || me.ready() {
			break
		}
	}
	me.ready = nil
}

func (s *Sched) toMainForever(me *G) {
	s.cur = s.gs[0]
	s.gs[0].resume <- struct{}{}
	<-me.resume
	panic(killedG{})
}

// point is a potential preemption point.
func (s *Sched) point() {
	if !s.explore || s.preempts <= 0 || len(s.gs) == 1 {
		return
	}
	rs := s.runnable()
	if len(rs) <= 1 {
		return
	}
	// option 0: continue; others: switch
	var others []*G
	for _, g := range rs {
		if g != s.cur {
			others = append(others, g)
		}
	}
	k := s.it.choice(len(others) + 1)
	if k == 0 {
		return
	}
	s.preempts--
	s.switchTo(others[k-1])
}

func (it *Interp) goStmt(fr *Frame, f Val, cc *ssa.CallCommon, args []Val) {
	if it.spec > 0 {
		it.abort("go statement in merged region")
	}
	s := it.sched
	g := &G{id: len(s.gs), resume: make(chan struct{}), fin: make(chan struct{})}
	s.gs = append(s.gs, g)
	go func() {
		defer close(g.fin)
		<-g.resume
		if s.killed {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killedG); ok {
						return
					}
					if tp, ok := r.(targetPanic); ok && tp.msg != "deadlock" {
						tp.msg = "goroutine panic: " + tp.msg
						r = tp
					}
					if u, ok := r.(unsupportedErr); ok {
						u.msg += " [goroutine at " + it.where() + "]"
						r = u
					}
					if s.err == nil {
						s.err = r
					}
				}
			}()
			it.cur, it.depth = nil, 0
			it.callVal(nil, f, cc, args, nil)
		}()
		g.done = true
		if s.killed {
			return
		}
		if s.err != nil {
			s.cur = s.gs[0]
			s.gs[0].resume <- struct{}{}
			return
		}
		rs := s.runnable()
		var n *G
		if len(rs) == 0 {
			s.err = targetPanic{msg: "deadlock", v: it.rtErr("all goroutines are asleep - deadlock!")}
			n = s.gs[0]
		} else {
			n = rs[0]
			if s.explore && len(rs) > 1 {
				func() {
					defer func() {
						if r := recover(); r != nil {
							s.err = r
							n = s.gs[0]
						}
					}()
					n = rs[it.choice(len(rs))]
				}()
			}
		}
		s.cur = n
		it.cur, it.depth, it.failMode = n.cur, n.depth, n.failMode
		n.resume <- struct{}{}
	}()
	s.point()
}

func (s *Sched) killAll() {
	s.killed = true
	for _, g := range s.gs[1:] {
		if g.done {
			<-g.fin
			continue
		}
		g.resume <- struct{}{}
		<-g.fin
	}
}

// settle lets the other goroutines run until they finish or block; returns the
// number still alive.
func (s *Sched) settle() int {
	me := s.cur
	for {
		var g *G
		for _, c := range s.runnable() {
			if c != me {
				g = c
				break
			}
		}
		if g == nil {
			break
		}
		s.switchTo(g)
	}
	n := 0
	for _, g := range s.gs {
		if g != me && !g.done {
			n++
		}
	}
	return n
}

func (it *Interp) chanOf(c Val) *ChanObj {
	ch, _ := c.r.(*ChanObj)
	if ch == nil && c.r != nil {
		panic(unsupported("channel %T", c.r))
	}
	if it.spec > 0 {
		it.abort("channel operation in merged region")
	}
	return ch
}

func (it *Interp) chanUndo(ch *ChanObj) {
	// channels live only within a path; nothing to restore unless created at init
}

func (it *Interp) chanSend(c, v Val) {
	ch := it.chanOf(c)
	it.sched.point()
	if ch == nil {
		it.sched.park(func() bool { return false })
	}
	if ch.closed {
		panic(targetPanic{msg: "send on closed channel", v: it.rtErr("send on closed channel")})
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return
	}
	w := &waiter{v: v}
	ch.sendq = append(ch.sendq, w)
	it.sched.park(func() bool { return w.done || ch.closed })
	if !w.done {
		panic(targetPanic{msg: "send on closed channel", v: it.rtErr("send on closed channel")})
	}
}

func (ch *ChanObj) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (ch *ChanObj) take() (Val, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Val(nil), ch.buf[1:]...)
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = append([]*waiter(nil), ch.sendq[1:]...)
			ch.buf = append(ch.buf, w.v)
			w.done = true
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = append([]*waiter(nil), ch.sendq[1:]...)
		w.done = true
		return w.v, true
	}
	return Val{}, false
}

func (it *Interp) chanRecv(c Val, elem types.Type) (Val, bool) {
	ch := it.chanOf(c)
	it.sched.point()
	if ch == nil {
		it.sched.park(func() bool { return false })
	}
	if !ch.canRecv() {
		ch.recvW++
		it.sched.park(ch.canRecv)
		ch.recvW--
	}
	return ch.take()
}

func (it *Interp) chanClose(c Val) {
	ch := it.chanOf(c)
	if ch == nil || ch.closed {
		panic(targetPanic{msg: "close of nil or closed channel", v: it.rtErr("close of closed channel")})
	}
	it.sched.point()
	ch.closed = true
}

type selCase struct {
	ch   *ChanObj
	send bool
	v    Val
}

func (it *Interp) selectOp(fr *Frame, in *ssa.Select, ii *insInfo) Val {
	if it.spec > 0 {
		it.abort("select in merged region")
	}
	it.sched.point()
	var ss []selCase
	k := 0
	for _, s := range in.States {
		c := it.get(fr, ii.ops[k])
		k++
		e := selCase{ch: it.chanOf(c), send: s.Dir == types.SendOnly}
		if ii.ops[k].k != 3 {
			e.v = it.get(fr, ii.ops[k])
		}
		k++
		ss = append(ss, e)
	}
	idx, v, ok := it.selectCore(ss, in.Blocking)
	out := Tuple{cint(idx), cbool(ok)}
	for i, s := range ss {
		if s.send {
			continue
		}
		if i == idx {
			out = append(out, v)
		} else {
			out = append(out, Val{})
		}
	}
	return Val{r: out}
}

func (it *Interp) selectCore(ss []selCase, blocking bool) (idx int, v Val, ok bool) {
	ready := func() []int {
		var r []int
		for i, s := range ss {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap || s.ch.recvW > len(s.ch.sendq) {
					r = append(r, i)
				}
			} else if s.ch.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	idx = -1
	if len(rs) == 0 && blocking {
		for _, s := range ss {
			if s.ch != nil && !s.send {
				s.ch.recvW++
			}
		}
		it.sched.park(func() bool { return len(ready()) > 0 })
		for _, s := range ss {
			if s.ch != nil && !s.send {
				s.ch.recvW--
			}
		}
		rs = ready()
	}
	if len(rs) > 0 {
		idx = rs[0]
		if it.sched.explore && len(rs) > 1 {
			idx = rs[it.choice(len(rs))]
		}
	}
	if idx < 0 {
		return
	}
	s := ss[idx]
	if !s.send {
		v, ok = s.ch.take()
		return
	}
	if s.ch.closed {
		panic(targetPanic{msg: "send on closed channel", v: it.rtErr("send on closed channel")})
	}
	if len(s.ch.buf) < s.ch.cap {
		s.ch.buf = append(s.ch.buf, s.v)
	} else {
		s.ch.sendq = append(s.ch.sendq, &waiter{v: s.v})
	}
	return
}

// A reflect.Value made by reflect.ValueOf is an aggregate of three slots, the
// first of which holds the interface value.
func reflectValue(i Val) Val { return Val{r: Agg{i, Val{}, Val{}}} }

func (it *Interp) reflectSelect(cases Val) Val {
	if it.spec > 0 {
		it.abort("select in merged region")
	}
	it.sched.point()
	var ss []selCase
	var elem []types.Type
	if cases.r != nil {
		s := cases.r.(*SliceV)
		for i := 0; i < s.len; i++ {
			at := s.off + i*s.es
			switch dir := s.obj.get(at); dir.u {
			case 2:
				f, _ := s.obj.get(at + 1).r.(*Iface)
				if f == nil {
					ss = append(ss, selCase{})
					elem = append(elem, nil)
					continue
				}
				ss = append(ss, selCase{ch: it.chanOf(f.v)})
				elem = append(elem, f.t.Underlying().(*types.Chan).Elem())
			default:
				panic(unsupported("reflect.Select direction %d", dir.u))
			}
		}
	}
	idx, v, ok := it.selectCore(ss, true)
	r := Val{}
	if idx >= 0 && elem[idx] != nil {
		if types.IsInterface(elem[idx]) {
			r = reflectValue(v)
		} else {
			r = reflectValue(Val{r: &Iface{t: elem[idx], v: v}})
		}
	}
	return Val{r: Tuple{cint(idx), r, cbool(ok)}}
}
