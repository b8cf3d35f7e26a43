package main

import "fmt"

// Threads and synchronisation. Every goroutine of the program is run by a goroutine of the engine, one
// at a time. A thread may be preempted where it takes a lock, at an operation of sync.Map, sync.Once or
// sync/atomic in the module's code and at vs.Gate; each choice of the thread to go on with is explored.
// Between these points a program without data races cannot tell, and whether it has data races is
// decided from vector clocks on each of its schedules.

const maxThreads = 6

type vclock [maxThreads]int32

func (c *vclock) join(d *vclock) {
	for i := range c {
		if d[i] > c[i] {
			c[i] = d[i]
		}
	}
}

type thread struct {
	id                     int
	f                      Value
	args                   []Value
	resume                 chan struct{}
	exited                 chan struct{}
	started, done, killed  bool
	blocked                func() bool // whether it can go on
	vc                     vclock
	regStack               [][]Value
	chunk, sp, depth, spec int
	pureDepth              int
	where                  []*Fn
	deferTo                *Frame
}

type shadow struct {
	wt int8 // the last write
	wc int32
	wf *Fn
	r  vclock // the last read of each thread
	rf [maxThreads]*Fn
}

type sched struct {
	threads         []*thread
	cur             *thread
	order           []int // the threads passing a point of preemption
	cells           map[*Value]*shadow
	objs            map[any]*shadow
	syncs           map[any]*vclock
	fatal           any
	clock           int
	preempts, bound int
	wgs             map[*Value]int
}

type killToken struct{}

var tKill = &killToken{}

func (m *Machine) startSched() *sched {
	main := &thread{started: true, resume: make(chan struct{})}
	main.vc[0] = 1
	s := &sched{threads: []*thread{main}, cur: main, cells: map[*Value]*shadow{}, objs: map[any]*shadow{}, syncs: map[any]*vclock{}, wgs: map[*Value]int{}, bound: 1 << 30}
	m.goState = s
	return s
}

func (s *sched) live() bool {
	for _, t := range s.threads[1:] {
		if !t.done {
			return true
		}
	}
	return false
}

func (t *thread) runnable() bool { return !t.done && (t.blocked == nil || t.blocked()) }

func (m *Machine) goStart(f Value, args []Value) {
	if !m.journaling {
		m.callClosure(f, args, nil) // while initialising: at once
		return
	}
	s := m.goState
	if s == nil {
		s = m.startSched()
	}
	if len(s.threads) == maxThreads {
		m.fail("more than %d goroutines", maxThreads)
	}
	t := &thread{id: len(s.threads), f: f, args: args, resume: make(chan struct{}), exited: make(chan struct{})}
	t.vc = s.cur.vc
	t.vc[t.id] = 1
	s.cur.vc[s.cur.id]++
	s.threads = append(s.threads, t)
}

func (m *Machine) saveThread(t *thread) {
	t.regStack, t.chunk, t.sp, t.depth, t.spec, t.pureDepth, t.where, t.deferTo = m.regStack, m.chunk, m.sp, m.depth, m.spec, m.pureDepth, m.where, m.deferTo
}

func (m *Machine) loadThread(t *thread) {
	if t.regStack == nil {
		if n := len(m.stacks); n > 0 {
			t.regStack = m.stacks[n-1]
			m.stacks = m.stacks[:n-1]
		} else {
			t.regStack = [][]Value{make([]Value, 1<<14)}
		}
	}
	m.regStack, m.chunk, m.sp, m.depth, m.spec, m.pureDepth, m.where, m.deferTo = t.regStack, t.chunk, t.sp, t.depth, t.spec, t.pureDepth, t.where, t.deferTo
}

// give hands the machine to another thread.
func (m *Machine) give(t *thread) {
	s := m.goState
	s.cur = t
	m.loadThread(t)
	if t.started {
		t.resume <- struct{}{}
		return
	}
	t.started = true
	go m.threadMain(t)
}

func (m *Machine) threadMain(t *thread) {
	s := m.goState
	defer func() {
		r := recover()
		if r == any(tKill) {
			close(t.exited)
			return
		}
		t.done = true
		next := s.threads[0]
		if r == nil {
			if c := s.candidates(); len(c) > 0 {
				func() {
					defer func() { r = recover() }()
					next = c[m.choose(len(c))]
				}()
			} else {
				r = &pathEnd{"budget", "deadlock"}
			}
		}
		if tp, ok := r.(*targetPanic); ok {
			r = &pathEnd{"panic", tp.msg + " at " + tp.where + m.callStack()}
		}
		if r != nil {
			s.fatal, next = r, s.threads[0]
		}
		close(t.exited)
		m.give(next)
	}()
	s.order = append(s.order, t.id)
	if t.f.X != nil {
		m.callClosure(t.f, t.args, nil)
	}
}

// candidates are the threads that can run, the current one first.
func (s *sched) candidates() []*thread {
	var c []*thread
	if s.cur.runnable() {
		c = append(c, s.cur)
	}
	for _, t := range s.threads {
		if t != s.cur && t.runnable() {
			c = append(c, t)
		}
	}
	return c
}

func (m *Machine) switchTo(t *thread) {
	s := m.goState
	me := s.cur
	if t == me {
		return
	}
	m.saveThread(me)
	m.give(t)
	<-me.resume
	if me.killed {
		panic(tKill)
	}
	if s.fatal != nil && me.id == 0 {
		f := s.fatal
		panic(f)
	}
}

// yield is a point of preemption.
func (m *Machine) yield() {
	s := m.goState
	if s == nil || !s.live() {
		return
	}
	me := s.cur
	if s.preempts < s.bound || me.done {
		c := s.candidates()
		t := c[m.choose(len(c))]
		if t != me && me.id != 0 {
			s.preempts++
		}
		m.switchTo(t)
	}
	if me.id != 0 {
		s.order = append(s.order, me.id)
	}
}

// inModule tells whether the module's code is what is being run.
func (m *Machine) inModule() bool { return len(m.where) > 0 && m.where[len(m.where)-1].inMod }

// block waits for a condition.
func (m *Machine) block(cond func() bool) {
	s := m.goState
	if s == nil {
		if !cond() {
			panic(&pathEnd{"budget", "deadlock"})
		}
		return
	}
	me := s.cur
	for !cond() {
		me.blocked = cond
		c := s.candidates()
		if len(c) == 0 {
			panic(&pathEnd{"budget", "deadlock"})
		}
		m.switchTo(c[m.choose(len(c))])
		me.blocked = nil
		if me.id != 0 {
			s.order = append(s.order, me.id)
		}
	}
}

// goWait lets the main thread wait for all others.
func (m *Machine) goWait() {
	s := m.goState
	if s == nil {
		return
	}
	m.block(func() bool { return !s.live() })
	for _, t := range s.threads[1:] {
		s.cur.vc.join(&t.vc)
	}
}

// killThreads ends the threads of a path that is over.
func (m *Machine) killThreads() {
	s := m.goState
	if s == nil {
		return
	}
	if s.cur != s.threads[0] {
		panic("internal: a path ends in another thread")
	}
	regs := m.regStack
	for _, t := range s.threads[1:] {
		if t.started {
			if !t.done {
				t.killed = true
				t.resume <- struct{}{}
			}
			<-t.exited
		}
		if t.regStack != nil {
			m.stacks = append(m.stacks, t.regStack[:1])
		}
	}
	m.regStack = regs
}

// acquire and release are the edges of happens-before at an object used for synchronisation.
func (m *Machine) acquire(o any) {
	if s := m.goState; s != nil {
		if c := s.syncs[o]; c != nil {
			s.cur.vc.join(c)
		}
	}
}

func (m *Machine) release(o any) {
	if s := m.goState; s != nil {
		c := s.syncs[o]
		if c == nil {
			c = &vclock{}
			s.syncs[o] = c
		}
		c.join(&s.cur.vc)
		s.cur.vc[s.cur.id]++
	}
}

func (s *sched) touch(m *Machine, sh *shadow, write bool) {
	t := s.cur
	var other *Fn
	if sh.wf != nil && int(sh.wt) != t.id && sh.wc > t.vc[sh.wt] {
		other = sh.wf
	}
	if write && other == nil {
		for i := range sh.r {
			if i != t.id && sh.r[i] > t.vc[i] {
				other = sh.rf[i]
			}
		}
	}
	fn := m.where[len(m.where)-1]
	if other != nil {
		msg := fmt.Sprintf("data race between %s and %s", other.name, fn.name)
		if !m.replaying() {
			m.violation(msg, m.model)
		}
		panic(&pathEnd{"violation", msg})
	}
	if write {
		sh.wt, sh.wc, sh.wf = int8(t.id), t.vc[t.id], fn
	} else {
		sh.r[t.id], sh.rf[t.id] = t.vc[t.id], fn
	}
}

// access records that the current thread reads or writes a cell, with all that it consists of.
func (s *sched) access(m *Machine, p *Value, write bool) {
	if !s.live() {
		return
	}
	if a, ok := p.X.(*Agg); ok {
		for i := range a.f {
			s.access(m, &a.f[i], write)
		}
		return
	}
	sh := s.cells[p]
	if sh == nil {
		sh = &shadow{}
		s.cells[p] = sh
	}
	s.touch(m, sh, write)
}

func (s *sched) accessObj(m *Machine, o any, write bool) {
	if !s.live() {
		return
	}
	sh := s.objs[o]
	if sh == nil {
		sh = &shadow{}
		s.objs[o] = sh
	}
	s.touch(m, sh, write)
}

type lockState struct {
	w       bool
	r       int
	waiting int // writers
	p       *Value
}

type readSide struct{ p *Value }

func (m *Machine) lockOf(p Value) *lockState {
	q, ok := p.X.(*Value)
	if !ok {
		m.throw("invalid memory address or nil pointer dereference")
	}
	l := m.locks[q]
	if l == nil {
		l = &lockState{p: q}
		m.locks[q] = l
	}
	return l
}

func (m *Machine) lock(p Value, write bool) {
	l := m.lockOf(p)
	if m.inModule() {
		m.yield()
	}
	if write {
		l.waiting++
		m.block(func() bool { return !l.w && l.r == 0 })
		l.waiting--
		l.w = true
		m.acquire(readSide{l.p})
	} else {
		m.block(func() bool { return !l.w && l.waiting == 0 })
		l.r++
	}
	m.acquire(l.p)
}

func (m *Machine) tryLock(p Value, write bool) bool {
	l := m.lockOf(p)
	if m.inModule() {
		m.yield()
	}
	if l.w || write && l.r > 0 || !write && l.waiting > 0 {
		return false
	}
	if write {
		l.w = true
		m.acquire(readSide{l.p})
	} else {
		l.r++
	}
	m.acquire(l.p)
	return true
}

func (m *Machine) unlock(p Value, write bool) {
	l := m.lockOf(p)
	if write && !l.w || !write && l.r == 0 {
		panic(&targetPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	if write {
		l.w = false
		m.release(l.p)
	} else {
		l.r--
		m.release(readSide{l.p})
	}
}

// syncPoint is an operation of sync/atomic on p; it is ordered with all others there.
func (m *Machine) syncPoint(p Value) {
	if m.goState == nil {
		return
	}
	if m.inModule() {
		m.yield()
	}
	if q, ok := p.X.(*Value); ok {
		m.acquire(q)
		m.release(q)
	}
}

const (
	onceRunning = 1
	onceDone    = 2
)

func (m *Machine) onceDo(o, f Value) {
	p := o.X.(*Value)
	if m.inModule() {
		m.yield()
	}
	if m.onces[p] != 0 {
		m.block(func() bool { return m.onces[p] == onceDone })
		m.acquire(p)
		return
	}
	m.onces[p] = onceRunning
	if m.journaling {
		m.jfun = append(m.jfun, func() { delete(m.onces, p) })
	}
	defer func() {
		if r := recover(); r != nil {
			m.onces[p] = onceDone
			panic(r)
		}
	}()
	m.callClosure(f, nil, nil)
	m.release(p)
	m.onces[p] = onceDone
}

func (m *Machine) wgAdd(p Value, n int) {
	q := p.X.(*Value)
	if m.goState == nil {
		m.startSched()
	}
	m.goState.wgs[q] += n
	if m.goState.wgs[q] < 0 {
		m.throw("sync: negative WaitGroup counter")
	}
	if n < 0 {
		m.release(q)
	}
}

func (m *Machine) wgWait(p Value) {
	q := p.X.(*Value)
	if m.goState == nil {
		return
	}
	m.block(func() bool { return m.goState.wgs[q] == 0 })
	m.acquire(q)
}

// chanV is a channel. Sending on one without room hands the value over and waits until it is taken.
type chanV struct {
	buf    []Value
	cap    int
	closed bool
	taken  int // how many values were received
	sent   int

	waiting int // threads that are about to receive
}

type selCase struct {
	send bool
	c    Value
	v    Value
	elem *TI
}

// chanSelect gives the index of a case that can go on, -1 for the default, and what was received.
func (m *Machine) chanSelect(cases []selCase, blocking bool) (int, Value, bool) {
	ready := func() []int {
		var r []int
		for i, x := range cases {
			ch, ok := x.c.X.(*chanV)
			switch {
			case !ok:
			case ch.closed:
				r = append(r, i)
			case x.send:
				if len(ch.buf) < ch.cap || ch.cap == 0 && ch.waiting > len(ch.buf) {
					r = append(r, i)
				}
			case len(ch.buf) > 0:
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	if len(r) == 0 {
		if !blocking {
			return -1, Value{}, false
		}
		for _, x := range cases {
			if ch, ok := x.c.X.(*chanV); ok && !x.send {
				ch.waiting++
			}
		}
		m.block(func() bool { return len(ready()) > 0 })
		for _, x := range cases {
			if ch, ok := x.c.X.(*chanV); ok && !x.send {
				ch.waiting--
			}
		}
		r = ready()
	}
	i := r[m.choose(len(r))]
	x := cases[i]
	if x.send {
		m.chanSend(x.c, x.v)
		return i, Value{}, false
	}
	v, ok := m.chanRecv(x.c, x.elem)
	return i, v, ok
}

func (m *Machine) makeChan(n int) Value {
	if n < 0 {
		m.throw("makechan: size out of range")
	}
	return Value{X: &chanV{cap: n}}
}

// chanUndo notes what a channel is, to be as it was on the next path if it was made before.
func (m *Machine) chanUndo(c *chanV) {
	if m.journaling {
		old := *c
		m.jfun = append(m.jfun, func() { *c = old })
	}
}

func (m *Machine) chanSync(c *chanV) { m.acquire(c); m.release(c) }

func (m *Machine) chanSend(c, v Value) {
	ch, ok := c.X.(*chanV)
	if !ok {
		m.block(func() bool { return false })
		return
	}
	m.block(func() bool { return ch.closed || ch.cap == 0 || len(ch.buf) < ch.cap })
	if ch.closed {
		m.throw("send on closed channel")
	}
	m.chanUndo(ch)
	m.chanSync(ch)
	ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], copyVal(v))
	ch.sent++
	if n := ch.sent; ch.cap == 0 {
		m.block(func() bool { return ch.taken >= n })
		m.chanSync(ch)
	}
}

func (m *Machine) chanRecv(c Value, t *TI) (Value, bool) {
	ch, ok := c.X.(*chanV)
	if !ok {
		m.block(func() bool { return false })
	}
	ch.waiting++
	m.block(func() bool { return ch.closed || len(ch.buf) > 0 })
	ch.waiting--
	m.chanUndo(ch)
	m.chanSync(ch)
	if len(ch.buf) == 0 {
		return zero(t), false
	}
	v := ch.buf[0]
	ch.buf = ch.buf[1:]
	ch.taken++
	return v, true
}

func (m *Machine) chanClose(c Value) {
	ch, ok := c.X.(*chanV)
	if !ok {
		m.throw("close of nil channel")
	}
	if ch.closed {
		m.throw("close of closed channel")
	}
	m.chanUndo(ch)
	m.chanSync(ch)
	ch.closed = true
}

func chanLen(c Value) int {
	if ch, ok := c.X.(*chanV); ok {
		return len(ch.buf)
	}
	return 0
}

// sync.Map is modelled as a map from interface values to interface values.
func syncMapIntrinsics() map[string]intrinsic {
	type I = intrinsic
	// The contents are held in the first field of the struct, so that assigning to it replaces them.
	var first func(p *Value) *Value
	first = func(p *Value) *Value {
		a, ok := p.X.(*Agg)
		if !ok {
			return p
		}
		for i := range a.f {
			if q := first(&a.f[i]); q != nil {
				return q
			}
		}
		return nil
	}
	get := func(m *Machine, p Value) *MapV {
		q, ok := p.X.(*Value)
		if !ok {
			m.throw("invalid memory address or nil pointer dereference")
		}
		if m.goState != nil {
			if m.inModule() {
				m.yield()
			}
			m.goState.access(m, q, false)
			m.acquire(q)
			m.release(q)
		}
		c := first(q)
		mv, ok := c.X.(*MapV)
		if !ok {
			mv = newMap(m.epoch)
			m.store(c, Value{X: mv})
		}
		return mv
	}
	return map[string]I{
		"Load": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			if i := m.mapFind(mv, m.P.tAny, a[1]); i >= 0 {
				return tuple(mv.ents[i].v, mkBool(true))
			}
			return tuple(Value{}, Value{})
		},
		"Store": func(m *Machine, fn *Fn, a []Value) Value {
			m.mapSet(get(m, a[0]), m.P.tAny, a[1], a[2])
			return Value{}
		},
		"Swap": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			i := m.mapFind(mv, m.P.tAny, a[1])
			r := tuple(Value{}, Value{})
			if i >= 0 {
				r = tuple(mv.ents[i].v, mkBool(true))
			}
			m.mapSet(mv, m.P.tAny, a[1], a[2])
			return r
		},
		"LoadOrStore": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			if i := m.mapFind(mv, m.P.tAny, a[1]); i >= 0 {
				return tuple(mv.ents[i].v, mkBool(true))
			}
			m.mapSet(mv, m.P.tAny, a[1], a[2])
			return tuple(a[2], Value{})
		},
		"LoadAndDelete": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			if i := m.mapFind(mv, m.P.tAny, a[1]); i >= 0 {
				v := mv.ents[i].v
				m.mapDelete(mv, m.P.tAny, a[1])
				return tuple(v, mkBool(true))
			}
			return tuple(Value{}, Value{})
		},
		"Delete": func(m *Machine, fn *Fn, a []Value) Value {
			m.mapDelete(get(m, a[0]), m.P.tAny, a[1])
			return Value{}
		},
		"CompareAndSwap": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			if i := m.mapFind(mv, m.P.tAny, a[1]); i >= 0 && m.truth(m.equal(m.P.tAny, mv.ents[i].v, a[2])) {
				m.mapSet(mv, m.P.tAny, a[1], a[3])
				return mkBool(true)
			}
			return mkBool(false)
		},
		"CompareAndDelete": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			if i := m.mapFind(mv, m.P.tAny, a[1]); i >= 0 && m.truth(m.equal(m.P.tAny, mv.ents[i].v, a[2])) {
				m.mapDelete(mv, m.P.tAny, a[1])
				return mkBool(true)
			}
			return mkBool(false)
		},
		"Clear": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			m.touchMap(mv)
			mv.ents, mv.idx, mv.nsym, mv.live = nil, map[any]int{}, 0, 0
			return Value{}
		},
		"Range": func(m *Machine, fn *Fn, a []Value) Value {
			mv := get(m, a[0])
			n := len(mv.ents)
			for i := 0; i < n && i < len(mv.ents); i++ {
				if mv.ents[i].dead {
					continue
				}
				if !m.truth(m.callClosure(a[1], []Value{mv.ents[i].k, mv.ents[i].v}, nil)) {
					break
				}
			}
			return Value{}
		},
	}
}
