package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   types.Type
	id     int
	timer  bool
}

type waitGroup struct{ fired bool }
type waiter struct {
	g    *waitGroup // shared by all cases of one select
	idx  int
	val  Value
	ok   bool
	done *waiter // which case fired is stored on g.sel
	th   *Thread
}

type Thread struct {
	id      int
	resume  chan struct{}
	ready   func() bool // nil: runnable
	done    bool
	why     string
	fired   *waiter
	frames  int
	call    *Frame
	started bool
	body    func()
}

type threadMsg struct {
	th   *Thread
	end  *pathEnd
	done bool
}

type pathEnd struct {
	kind string // done, infeasible, violation, panic, unsupported, limit, deadlock, kill
	msg  string
	id   string
	pos  string
}

func (m *Machine) spawn(body func()) *Thread {
	th := &Thread{id: len(m.threads), resume: make(chan struct{}), body: body}
	m.threads = append(m.threads, th)
	return th
}

func (m *Machine) startThread(th *Thread) {
	th.started = true
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		<-th.resume
		if m.killed {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(*pathEnd); ok {
					if pe.kind == "kill" {
						return
					}
					m.yieldCh <- threadMsg{th: th, end: pe}
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					m.yieldCh <- threadMsg{th: th, end: &pathEnd{kind: "panic", msg: m.panicText(tp.v), pos: tp.pos}}
					return
				}
				m.yieldCh <- threadMsg{th: th, end: &pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v at %s", r, m.where())}}
				if debugEngine {
					panic(r)
				}
				return
			}
		}()
		th.body()
		th.done = true
		m.yieldCh <- threadMsg{th: th, done: true}
	}()
}

// pause hands control to the scheduler and returns when rescheduled.
func (m *Machine) pause() {
	th := m.cur
	m.yieldCh <- threadMsg{th: th}
	<-th.resume
	if m.killed {
		panic(&pathEnd{kind: "kill"})
	}
}

// block suspends the current thread until cond holds.
func (m *Machine) block(cond func() bool, why string) {
	th := m.cur
	for !cond() {
		th.ready, th.why = cond, why
		m.pause()
	}
	th.ready = nil
}

// schedPoint is a place where another thread may be scheduled.
func (m *Machine) schedPoint(what string) {
	if m.preempt <= 0 || m.atomicDepth > 0 || len(m.threads) < 2 {
		return
	}
	var others []*Thread
	for _, t := range m.threads {
		if t != m.cur && !t.done && (t.ready == nil || t.ready()) {
			others = append(others, t)
		}
	}
	if len(others) == 0 {
		return
	}
	k := m.choose(len(others)+1, "sched")
	if k == 0 {
		return
	}
	m.preempt--
	m.schedNote(fmt.Sprintf("preempt t%d -> t%d at %s %s", m.cur.id, others[k-1].id, what, m.where()))
	m.next = others[k-1]
	m.pause()
}

func (m *Machine) schedNote(s string) { m.schedule = append(m.schedule, s) }

type timer struct {
	when   *Term
	period *Term
	fire   func()
	dead   bool
	seq    int
}

// run drives the scheduler until the path ends.
func (m *Machine) run(main func()) *pathEnd {
	m.spawn(main)
	defer func() {
		m.killed = true
		for _, t := range m.threads {
			if t.started && !t.done {
				close(t.resume)
			}
		}
		m.wg.Wait()
	}()
	m.cur = m.threads[0]
	for {
		// pick
		var runnable []*Thread
		if m.next != nil && !m.next.done && (m.next.ready == nil || m.next.ready()) {
			runnable = []*Thread{m.next}
			m.next = nil
		} else {
			m.next = nil
			for _, t := range m.threads {
				if !t.done && (t.ready == nil || t.ready()) {
					runnable = append(runnable, t)
				}
			}
		}
		if len(runnable) == 0 {
			fired := false
			if pe := m.guard(func() { fired = m.fireTimers() }); pe != nil {
				return pe
			}
			if !fired {
				if m.forceEnd != nil {
					return m.forceEnd
				}
				msg := "all goroutines blocked:"
				for _, t := range m.threads {
					if !t.done {
						msg += fmt.Sprintf(" t%d(%s)", t.id, t.why)
					}
				}
				return &pathEnd{kind: "deadlock", msg: msg}
			}
			continue
		}
		th := runnable[0]
		if len(runnable) > 1 {
			if m.schedFork {
				k := 0
				if pe := m.guard(func() { k = m.choose(len(runnable), "sched") }); pe != nil {
					return pe
				}
				th = runnable[k]
				m.schedNote(fmt.Sprintf("run t%d", th.id))
			} else {
				// prefer the current thread, then round-robin
				for _, t := range runnable {
					if t.id > m.cur.id {
						th = t
						break
					}
				}
				for _, t := range runnable {
					if t == m.cur {
						th = t
					}
				}
			}
		}
		m.cur = th
		if !th.started {
			m.startThread(th)
		}
		th.resume <- struct{}{}
		msg := <-m.yieldCh
		if msg.end != nil {
			msg.th.done = true
			return msg.end
		}
		if msg.done && msg.th.id == 0 {
			return &pathEnd{kind: "done"}
		}
	}
}

func (m *Machine) guard(f func()) (pe *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*pathEnd); ok {
				pe = p
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// before decides a < b for points in (virtual) time, which never overflow.
func (m *Machine) before(a, b *Term) bool {
	split := func(t *Term) (*Term, int64) {
		if t.isConst() {
			return nil, int64(t.k)
		}
		if t.op == OBvAdd {
			for i := range t.args {
				if t.args[i].isConst() {
					return t.args[1-i], int64(t.args[i].k)
				}
			}
		}
		return t, 0
	}
	x, k := split(a)
	y, l := split(b)
	if x == y {
		return k < l
	}
	return m.decide(m.c.BvCmp(OBvSlt, a, b))
}

// fireTimers advances the virtual clock to the earliest pending timer.
func (m *Machine) fireTimers() bool {
	var best *timer
	for _, t := range m.timers {
		if t.dead {
			continue
		}
		if best == nil || m.before(t.when, best.when) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	m.timerFires++
	if m.timerFires > m.maxTimerFires {
		panicEnd := &pathEnd{kind: "limit", msg: "virtual time bound"}
		m.forceEnd = panicEnd
		return false
	}
	if !m.before(best.when, m.clock) {
		m.clock = best.when
	}
	if best.period != nil {
		best.when = m.c.BvBin(OBvAdd, best.when, best.period)
	} else {
		best.dead = true
	}
	best.fire()
	var live []*timer
	for _, t := range m.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	m.timers = live
	return true
}

func (m *Machine) addTimer(d *Term, period *Term, fire func()) *timer {
	if m.decide(m.c.BvCmp(OBvSlt, d, m.c.Int(0))) {
		d = m.c.Int(0)
	}
	m.timerSeq++
	t := &timer{when: m.c.BvBin(OBvAdd, m.clock, d), period: period, fire: fire, seq: m.timerSeq}
	m.timers = append(m.timers, t)
	return t
}

// ---- channels

func (m *Machine) newChan(cap int, elem types.Type) *ChanV {
	m.chanSeq++
	return &ChanV{cap: cap, elem: elem, id: m.chanSeq}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.g.fired {
			return w
		}
	}
	return nil
}
func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.g.fired {
			return true
		}
	}
	return false
}
func (w *waiter) fire() {
	w.g.fired = true
	w.th.fired = w
}

func (ch *ChanV) sendReady() bool {
	return ch != nil && (ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap)
}
func (ch *ChanV) recvReady() bool {
	return ch != nil && (len(ch.buf) > 0 || hasWaiter(ch.sendq) || ch.closed)
}

// trySend/tryRecv assume readiness.
func (m *Machine) doSend(ch *ChanV, v Value) {
	if ch.closed {
		m.goPanicStr("send on closed channel")
	}
	if w := popWaiter(&ch.recvq); w != nil {
		w.val, w.ok = v, true
		w.fire()
		return
	}
	ch.buf = append(ch.buf, v)
}
func (m *Machine) doRecv(ch *ChanV) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.fire()
		}
		return v, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.fire()
		return w.val, true
	}
	return m.zero(ch.elem), false
}

func (m *Machine) chanSend(ch *ChanV, v Value) {
	m.schedPoint("chan send")
	if ch == nil {
		m.block(func() bool { return false }, "send on nil channel")
	}
	if ch.sendReady() {
		m.doSend(ch, v)
		return
	}
	w := &waiter{g: &waitGroup{}, val: v, th: m.cur}
	ch.sendq = append(ch.sendq, w)
	m.block(func() bool { return w.g.fired || ch.closed }, "chan send")
	if !w.g.fired {
		m.goPanicStr("send on closed channel")
	}
}
func (m *Machine) chanRecv(ch *ChanV) (Value, bool) {
	m.schedPoint("chan recv")
	if ch == nil {
		m.block(func() bool { return false }, "receive on nil channel")
	}
	if ch.recvReady() {
		return m.doRecv(ch)
	}
	w := &waiter{g: &waitGroup{}, th: m.cur}
	ch.recvq = append(ch.recvq, w)
	m.block(func() bool { return w.g.fired || ch.closed }, "chan receive")
	if !w.g.fired {
		w.g.fired = true
		return m.zero(ch.elem), false
	}
	return w.val, w.ok
}
func (m *Machine) chanClose(ch *ChanV) {
	if ch == nil {
		m.goPanicStr("close of nil channel")
	}
	if ch.closed {
		m.goPanicStr("close of closed channel")
	}
	m.schedPoint("close")
	ch.closed = true
}

type selCase struct {
	ch   *ChanV
	send bool
	val  Value
}

// selectStmt returns chosen index, value, ok.
func (m *Machine) selectStmt(cases []selCase, blocking bool) (int, Value, bool) {
	m.schedPoint("select")
	exec := func(i int) (int, Value, bool) {
		c := cases[i]
		if c.send {
			m.doSend(c.ch, c.val)
			return i, nil, false
		}
		v, ok := m.doRecv(c.ch)
		return i, v, ok
	}
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if (c.send && c.ch.sendReady()) || (!c.send && c.ch.recvReady()) {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = m.choose(len(r), "select")
		}
		return exec(r[k])
	}
	if !blocking {
		return -1, nil, false
	}
	g := &waitGroup{}
	m.cur.fired = nil
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, idx: i, th: m.cur, val: c.val}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	anyClosed := func() bool {
		for _, c := range cases {
			if c.ch != nil && c.ch.closed {
				return true
			}
		}
		return false
	}
	m.block(func() bool { return g.fired || anyClosed() }, "select")
	if g.fired {
		w := m.cur.fired
		m.cur.fired = nil
		if cases[w.idx].send {
			return w.idx, nil, false
		}
		return w.idx, w.val, w.ok
	}
	g.fired = true // withdraw
	r = ready()
	k := 0
	if len(r) > 1 {
		k = m.choose(len(r), "select")
	}
	return exec(r[k])
}

var _ = ssa.Function{}
