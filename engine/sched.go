package main

import (
	"fmt"
	"sync"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Gor is an interpreted goroutine, run as a coroutine.
type Gor struct {
	id    int
	vc    []uint32
	wake  chan struct{}
	ready func() bool
	done  bool
	depth int
}

type Sched struct {
	m       *Machine
	gors    []*Gor
	cur     *Gor
	abort   any
	killing bool
	wg      sync.WaitGroup
	addrVC  map[Ptr][]uint32
}

type shadow struct {
	wg    int
	wc    uint32
	reads []uint32
}

type ChanObj struct {
	cap    int
	buf    []chanMsg
	closed bool
	vc     []uint32 // close
	recvVC []uint32
	// Unbuffered rendezvous.
	recvWaiting int
	id          int
}

type chanMsg struct {
	v  Value
	vc []uint32
}

type lockState struct {
	held    bool
	readers int
	vc      []uint32
	n       int
	onceRun bool
	pool    []Iface
	aux     Ptr
	done    bool
}

func (m *Machine) newSched() *Sched {
	s := &Sched{m: m, addrVC: map[Ptr][]uint32{}}
	g := &Gor{id: 0, vc: []uint32{1}, wake: make(chan struct{})}
	s.gors = []*Gor{g}
	s.cur = g
	return s
}

func joinVC(dst *[]uint32, src []uint32) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

func copyVC(v []uint32) []uint32 { return append([]uint32(nil), v...) }

func (g *Gor) tick() { g.vc[g.id]++ }

func (g *Gor) clock(i int) uint32 {
	if i < len(g.vc) {
		return g.vc[i]
	}
	return 0
}

func (m *Machine) goStart(fr *Frame, f Value, args []Value) {
	if m.inInit {
		panic(engineError("go statement during initialisation"))
	}
	cl, _ := f.(*Closure)
	if cl == nil {
		m.nilDeref()
	}
	s := m.sched
	m.conc = true
	if len(s.gors) >= 64 {
		panic(engineError("too many goroutines"))
	}
	g := &Gor{id: len(s.gors), wake: make(chan struct{})}
	g.vc = copyVC(s.cur.vc)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	s.cur.tick()
	s.gors = append(s.gors, g)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(sigKill); ok || s.killing {
				return
			}
			if gp, ok := r.(*goPanic); ok {
				m.violation = &Violation{Kind: "panic", Msg: "panic in goroutine: " + m.panicText(gp)}
				r = sigViolation{}
			}
			if r != nil {
				s.abort = r
				s.gors[0].wake <- struct{}{}
				return
			}
			s.handover(g)
		}()
		if s.killing {
			panic(sigKill{})
		}
		m.call(&Frame{m: m, g: g}, cl.fn, args, cl.env)
	}()
	s.yield()
}

// handover passes the baton on when g has finished; errors go to main.
func (s *Sched) handover(g *Gor) {
	defer func() {
		if r := recover(); r != nil {
			s.abort = r
			s.gors[0].wake <- struct{}{}
		}
	}()
	n := s.pick(nil)
	s.resume(n)
}

func (s *Sched) resume(n *Gor) {
	s.cur = n
	s.m.depth = n.depth
	n.wake <- struct{}{}
}

func (s *Sched) runnable(except *Gor) []*Gor {
	var r []*Gor
	for _, g := range s.gors {
		if g != except && !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine to run (a forking, symbolic choice).
func (s *Sched) pick(except *Gor) *Gor {
	c := s.runnable(except)
	if len(c) == 0 {
		s.m.fail("deadlock", "all goroutines are asleep")
	}
	if len(c) == 1 || s.m.cfg.Sched == 0 {
		return c[0]
	}
	return c[s.m.choose("sched", "sched", len(c))]
}

func (s *Sched) switchTo(n *Gor) {
	g := s.cur
	if n == g {
		return
	}
	g.depth = s.m.depth
	s.resume(n)
	<-g.wake
	if s.killing {
		panic(sigKill{})
	}
	if g.id == 0 && s.abort != nil {
		a := s.abort
		s.abort = nil
		panic(a)
	}
}

// yield is a scheduling point that does not block.
func (s *Sched) yield() {
	if !s.m.conc {
		return
	}
	if s.m.preempts >= s.m.cfg.Sched {
		return
	}
	c := s.runnable(s.cur)
	if len(c) == 0 {
		return
	}
	k := s.m.choose("sched", "sched", len(c)+1)
	if k == 0 {
		return
	}
	s.m.preempts++
	s.switchTo(c[k-1])
}

// block parks the current goroutine until ready holds.
func (s *Sched) block(ready func() bool) {
	g := s.cur
	if ready() {
		return
	}
	g.ready = ready
	n := s.pick(nil)
	s.switchTo(n)
	g.ready = nil
}

// finish kills the goroutines still alive at the end of the path.
func (s *Sched) finish() {
	s.killing = true
	for _, g := range s.gors[1:] {
		if !g.done {
			g.wake <- struct{}{}
		}
	}
	s.wg.Wait()
}

func (s *Sched) access(p Ptr, n int, write bool) {
	o := p.o
	if o.sh == nil || len(o.sh) < len(o.cells) || o.gen != s.m.gen {
		if o.gen != s.m.gen {
			// Pre-path objects: shadow kept per path.
			sh, ok := s.m.initShadow[o]
			if !ok {
				sh = make([]*shadow, len(o.cells))
				s.m.initShadow[o] = sh
			}
			s.touch(sh[p.off:p.off+n], write, func(i int) string { return fmt.Sprintf("package-level cell %d", p.off+i) })
			return
		}
		o.sh = make([]*shadow, len(o.cells))
	}
	s.touch(o.sh[p.off:p.off+n], write, func(i int) string { return fmt.Sprintf("object %d cell %d", o.id, p.off+i) })
}

func (s *Sched) touch(sh []*shadow, write bool, desc func(i int) string) {
	g := s.cur
	for i := range sh {
		c := sh[i]
		if c == nil {
			c = &shadow{wg: -1}
			sh[i] = c
		}
		s.touch1(g, c, write, func() string { return desc(i) })
	}
}

func (s *Sched) touch1(g *Gor, c *shadow, write bool, desc func() string) {
	if c.wg >= 0 && c.wg != g.id && c.wc > g.clock(c.wg) {
		kind := "read"
		if write {
			kind = "write"
		}
		s.m.fail("race", fmt.Sprintf("data race: %s of %s by goroutine %d after unsynchronised write by goroutine %d", kind, desc(), g.id, c.wg))
	}
	if write {
		for r, clk := range c.reads {
			if r != g.id && clk > g.clock(r) {
				s.m.fail("race", fmt.Sprintf("data race: write of %s by goroutine %d after unsynchronised read by goroutine %d", desc(), g.id, r))
			}
		}
		c.wg = g.id
		c.wc = g.vc[g.id]
		c.reads = c.reads[:0]
		return
	}
	for len(c.reads) <= g.id {
		c.reads = append(c.reads, 0)
	}
	c.reads[g.id] = g.vc[g.id]
}

func (s *Sched) accessMap(mo *MapObj, write bool) {
	if mo.sh == nil {
		mo.sh = &shadow{wg: -1}
	}
	s.touch1(s.cur, mo.sh, write, func() string { return "map" })
}

// acquire/release on a synchronisation address.
func (s *Sched) acqRel(p Ptr) {
	vc := s.addrVC[p]
	joinVC(&s.cur.vc, vc)
	joinVC(&vc, s.cur.vc)
	s.addrVC[p] = vc
	s.cur.tick()
}

func (m *Machine) lock(p Ptr) *lockState {
	if p.o == nil {
		m.nilDeref()
	}
	if m.locks == nil {
		m.locks = map[Ptr]*lockState{}
	}
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

// --- channels ---

func (m *Machine) chanSend(fr *Frame, ch *ChanObj, v Value) {
	s := m.sched
	if s == nil {
		panic(engineError("channel operation during initialisation"))
	}
	s.yield()
	if ch == nil {
		s.block(func() bool { return false })
	}
	for {
		if ch.closed {
			panic(&goPanic{val: m.runtimeErrorText("send on closed channel"), runtime: true, text: "send on closed channel"})
		}
		if len(ch.buf) < ch.cap || ch.cap == 0 && len(ch.buf) < ch.recvWaiting {
			break
		}
		s.block(func() bool {
			return ch.closed || len(ch.buf) < ch.cap || ch.cap == 0 && len(ch.buf) < ch.recvWaiting
		})
	}
	joinVC(&s.cur.vc, ch.recvVC)
	ch.buf = append(ch.buf, chanMsg{v, copyVC(s.cur.vc)})
	s.cur.tick()
}

func (m *Machine) chanRecv(fr *Frame, ch *ChanObj) (Value, bool) {
	s := m.sched
	if s == nil {
		panic(engineError("channel operation during initialisation"))
	}
	s.yield()
	if ch == nil {
		s.block(func() bool { return false })
	}
	if len(ch.buf) == 0 && !ch.closed {
		ch.recvWaiting++
		s.block(func() bool { return len(ch.buf) > 0 || ch.closed })
		ch.recvWaiting--
	}
	if len(ch.buf) > 0 {
		msg := ch.buf[0]
		ch.buf = append([]chanMsg(nil), ch.buf[1:]...)
		joinVC(&s.cur.vc, msg.vc)
		joinVC(&ch.recvVC, s.cur.vc)
		s.cur.tick()
		return msg.v, true
	}
	joinVC(&s.cur.vc, ch.vc)
	return nil, false
}

func (m *Machine) chanClose(fr *Frame, ch *ChanObj) {
	if ch == nil {
		panic(&goPanic{val: m.runtimeErrorText("close of nil channel"), runtime: true, text: "close of nil channel"})
	}
	if ch.closed {
		panic(&goPanic{val: m.runtimeErrorText("close of closed channel"), runtime: true, text: "close of closed channel"})
	}
	ch.closed = true
	joinVC(&ch.vc, m.sched.cur.vc)
	m.sched.cur.tick()
	m.sched.yield()
}

func (c *compiler) sel(ins *ssa.Select) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   *RType
	}
	var sts []st
	for _, s := range ins.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: m.elemOf(m.rt(s.Chan.Type()))}
		if x.send {
			x.v = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := ins.Blocking
	return func(fr *Frame) {
		m := fr.m
		s := m.sched
		s.yield()
		ready := func(i int) bool {
			ch := sts[i].ch.get(fr).(*ChanObj)
			if ch == nil {
				return false
			}
			if sts[i].send {
				return ch.closed || len(ch.buf) < ch.cap || ch.cap == 0 && len(ch.buf) < ch.recvWaiting
			}
			return len(ch.buf) > 0 || ch.closed
		}
		any := func() bool {
			for i := range sts {
				if ready(i) {
					return true
				}
			}
			return false
		}
		pick := -1
		if !any() && blocking {
			for i := range sts {
				if ch := sts[i].ch.get(fr).(*ChanObj); ch != nil && !sts[i].send {
					ch.recvWaiting++
				}
			}
			s.block(any)
			for i := range sts {
				if ch := sts[i].ch.get(fr).(*ChanObj); ch != nil && !sts[i].send {
					ch.recvWaiting--
				}
			}
		}
		var cand []int
		for i := range sts {
			if ready(i) {
				cand = append(cand, i)
			}
		}
		if len(cand) > 0 {
			pick = cand[m.choose("select", "sched", len(cand))]
		}
		res := Tuple{mkConst(64, uint64(pick)), tFalse}
		for i, x := range sts {
			if x.send {
				if i == pick {
					m.chanSend(fr, x.ch.get(fr).(*ChanObj), x.v.get(fr))
				}
				continue
			}
			if i == pick {
				v, ok := m.chanRecv(fr, x.ch.get(fr).(*ChanObj))
				if !ok {
					v = x.et.zeroValue()
				}
				res[1] = mkBool(ok)
				res = append(res, v)
			} else {
				res = append(res, x.et.zeroValue())
			}
		}
		fr.regs[dst] = res
	}
}
