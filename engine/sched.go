package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative goroutines: each interpreted goroutine is a host goroutine, and a
// baton guarantees that exactly one runs.  Scheduling is run-to-block, FIFO.

type G struct {
	wake chan bool // true: run, false: die
	ack  chan bool
	done bool
}

type Sched struct {
	runq []*G
	all  []*G
	main *G
	end  chan any // panic from a goroutine to be re-raised by main
	fail any
}

type killed struct{}

func (m *Machine) runMain(fn *ssa.Function) (end pathEnd) {
	s := &Sched{}
	m.sched = s
	s.main = &G{wake: make(chan bool, 1)}
	m.curG = s.main
	defer func() {
		// terminate the other goroutines
		for _, g := range s.all {
			if !g.done {
				g.wake <- false
				<-g.ack
			}
		}
		s.all = nil
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case pathEnd:
			end = e
		case targetPanic:
			msg := "panic: " + m.panicText(e.v)
			m.violation("panic", msg, e.where)
			end = pathEnd{"violation", msg}
		default:
			panic(r)
		}
		if end.kind == "budget" {
			m.violation("hang", end.msg, "")
		}
	}()
	m.callSSA(nil, fn, nil, nil)
	return pathEnd{kind: "ok"}
}

func (m *Machine) spawn(fr *Frame, fn Value, args []Value) {
	s := m.sched
	g := &G{wake: make(chan bool, 1), ack: make(chan bool, 1)}
	s.all = append(s.all, g)
	s.runq = append(s.runq, g)
	go func() {
		if !<-g.wake {
			g.done = true
			g.ack <- true
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(killed); ok {
				g.ack <- true
				return
			}
			if r != nil && s.fail == nil {
				s.fail = r
			}
			// hand over
			if s.fail != nil {
				m.curG = s.main
				s.main.wake <- true
				return
			}
			m.switchAway(nil)
		}()
		m.call(nil, fn, args)
	}()
}

// switchAway picks the next runnable goroutine; if self != nil it then blocks until woken.
func (m *Machine) switchAway(self *G) {
	s := m.sched
	if len(s.runq) == 0 {
		// nothing runnable: deadlock. Tell main.
		if self == s.main {
			m.violation("hang", "all goroutines are asleep - deadlock", "")
			panic(pathEnd{"violation", "deadlock"})
		}
		s.fail = deadlock{}
		m.curG = s.main
		s.main.wake <- true
	} else {
		n := s.runq[0]
		s.runq = s.runq[1:]
		if n == self {
			m.curG = n
			return
		}
		m.curG = n
		n.wake <- true
	}
	if self == nil {
		return
	}
	ok := <-self.wake
	if !ok {
		panic(killed{})
	}
	m.curG = self
	if self == s.main && s.fail != nil {
		f := s.fail
		s.fail = nil
		if _, d := f.(deadlock); d {
			m.violation("hang", "all goroutines are asleep - deadlock", "")
			panic(pathEnd{"violation", "deadlock"})
		}
		panic(f)
	}
}

type deadlock struct{}

// yield requeues the current goroutine and runs another.
func (m *Machine) yield() {
	g := m.curG
	if len(m.sched.runq) == 0 {
		// only this goroutine can make progress
		m.switchAway(g)
		return
	}
	m.sched.runq = append(m.sched.runq, g)
	m.switchAway(g)
}

// blockUntil repeatedly yields until cond holds; detects deadlock when no other
// goroutine makes progress.
func (m *Machine) blockUntil(cond func() bool) {
	idle := 0
	for !cond() {
		if len(m.sched.runq) == 0 {
			m.switchAway(m.curG) // deadlock path
			continue
		}
		idle++
		if idle > 10000 {
			panic(pathEnd{"budget", "goroutines spinning (livelock/deadlock)"})
		}
		m.yield()
	}
}

func (m *Machine) chanSend(fr *Frame, c *Chan, v Value) {
	if c == nil {
		m.blockUntil(func() bool { return false })
	}
	if c.closed {
		panic(targetPanic{v: m.mkError("send on closed channel"), where: m.where(fr)})
	}
	if c.cap > 0 {
		m.blockUntil(func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			panic(targetPanic{v: m.mkError("send on closed channel"), where: m.where(fr)})
		}
		c.buf = append(c.buf, copyVal(v))
		return
	}
	// unbuffered: hand over when a receiver takes it
	m.blockUntil(func() bool { return len(c.buf) == 0 || c.closed })
	if c.closed {
		panic(targetPanic{v: m.mkError("send on closed channel"), where: m.where(fr)})
	}
	taken := false
	c.buf = append(c.buf, &pending{v: copyVal(v), taken: &taken})
	m.blockUntil(func() bool { return taken })
}

type pending struct {
	v     Value
	taken *bool
}

func (c *Chan) take() Value {
	v := c.buf[0]
	c.buf = c.buf[1:]
	if p, ok := v.(*pending); ok {
		*p.taken = true
		return p.v
	}
	return v
}

func (m *Machine) chanRecv(fr *Frame, c *Chan) (Value, bool) {
	if c == nil {
		m.blockUntil(func() bool { return false })
	}
	c.recvq++
	m.blockUntil(func() bool { return len(c.buf) > 0 || c.closed })
	c.recvq--
	if len(c.buf) > 0 {
		return c.take(), true
	}
	return nil, false
}

func (m *Machine) doSelect(fr *Frame, in *ssa.Select, ops []opnd) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	var states []st
	for i, s := range in.States {
		c, _ := m.get(fr, &ops[2*i]).(*Chan)
		x := st{c: c, send: s.Dir == types.SendOnly}
		if x.send {
			x.v = m.get(fr, &ops[2*i+1])
		}
		states = append(states, x)
	}
	ready := func() []int {
		var r []int
		for i, s := range states {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap || (s.c.cap == 0 && s.c.recvq > 0 && len(s.c.buf) == 0) {
					r = append(r, i)
				}
			} else if len(s.c.buf) > 0 || s.c.closed {
				r = append(r, i)
			}
		}
		return r
	}
	sel := -1
	if r := ready(); len(r) > 0 {
		sel = r[m.choose(len(r))]
	} else if in.Blocking {
		for _, s := range states {
			if s.c != nil && !s.send {
				s.c.recvq++
			}
		}
		m.blockUntil(func() bool { return len(ready()) > 0 })
		for _, s := range states {
			if s.c != nil && !s.send {
				s.c.recvq--
			}
		}
		r := ready()
		sel = r[m.choose(len(r))]
	}
	res := Tuple{mkConst(64, uint64(int64(sel))), tFalse}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			v := zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			if i == sel {
				if len(states[i].c.buf) > 0 {
					v = states[i].c.take()
					res[1] = tTrue
				}
			}
			res = append(res, v)
		}
	}
	if sel >= 0 && states[sel].send {
		m.chanSend(fr, states[sel].c, states[sel].v)
	}
	return res
}
