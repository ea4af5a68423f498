//go:build go1.21

package sim

import (
	"reflect"
	"strconv"
	"unsafe"
)

type chanState struct {
	p        unsafe.Pointer
	keep     interface{}
	cap      int
	buf      []interface{}
	slots    []slot // happens-before edges of the buffer slots
	head, n  int
	closed   bool
	released bool
	recvq    []*waiter
	sendq    []*waiter
	sync     uint64
	poll     func() (interface{}, bool, bool) // real channel: value, open, ready
	put      func(interface{}) bool           // sends to the real channel, if it has room
	foreign  bool
	id       int
}

type waiter struct {
	t    *Task
	c    *chanState
	send bool
	val  interface{}
	ok   bool
	idx  int
	a, b uint64 // happens-before words of a rendez-vous
	rdv  bool
}

//go:norace
func chanPtr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func chanPtrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func stateOf(p unsafe.Pointer, capacity int, keep interface{}) *chanState {
	for i := len(w.chans) - 1; i >= 0; i-- {
		if w.chans[i].p == p {
			return w.chans[i]
		}
	}
	n := capacity
	if n == 0 {
		n = 1
	}
	c := &chanState{p: p, keep: keep, cap: capacity, buf: make([]interface{}, n), slots: make([]slot, n), id: len(w.chans)}
	w.chans = append(w.chans, c)
	return c
}

// SelCase is one case of a select
type SelCase struct {
	c    *chanState
	send bool
	val  interface{}
	nilc bool
	real *reflect.SelectCase // outside of a simulated world (initialisation of packages)
}

// Sel is the outcome of a select
type Sel struct {
	I  int
	v  interface{}
	ok bool
}

// SC is the sending side of a channel
type SC[T any] struct{ ch chan<- T }

// ChanS wraps the sending side of a channel
//
//go:norace
func ChanS[T any](ch chan<- T) SC[T] { return SC[T]{ch} }

// Send sends a value
//
//go:norace
func (s SC[T]) Send(v T) {
	if !InWorld() {
		s.ch <- v
		return
	}
	Select(false, []SelCase{s.Case(v)})
}

// Case is the select case which sends a value
//
//go:norace
func (s SC[T]) Case(v T) SelCase {
	if s.ch == nil {
		return SelCase{nilc: true, send: true}
	}
	if w == nil {
		return SelCase{real: &reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: reflect.ValueOf(&v).Elem()}}
	}
	c := stateOf(chanPtr(s.ch), cap(s.ch), s.ch)
	if c.put == nil && c.cap > 0 {
		ch := s.ch
		c.put = func(v interface{}) bool {
			var tv T
			if v != nil {
				tv = v.(T)
			}
			select {
			case ch <- tv:
				return true
			default:
				return false
			}
		}
	}
	return SelCase{c: c, send: true, val: v}
}

// RecvCase is the select case which receives a value
//
//go:norace
func RecvCase[T any](ch <-chan T) SelCase {
	if ch == nil {
		return SelCase{nilc: true}
	}
	if w == nil {
		return SelCase{real: &reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}}
	}
	c := stateOf(chanPtrR(ch), cap(ch), ch)
	if c.poll == nil {
		c.poll = func() (interface{}, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}
	}
	return SelCase{c: c}
}

// Recv receives a value
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives a value and whether it was sent
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !InWorld() {
		v, ok := <-ch
		return v, ok
	}
	s := Select(false, []SelCase{RecvCase(ch)})
	if s.v == nil {
		var zero T
		return zero, s.ok
	}
	return s.v.(T), s.ok
}

// RangeInit starts a range over a channel
func RangeInit[T any](ch <-chan T) (<-chan T, T) {
	var zero T
	return ch, zero
}

// SelRecv is the value received by a select
//
//go:norace
func SelRecv[T any](s Sel, ch <-chan T) T {
	if s.v == nil {
		var zero T
		return zero
	}
	return s.v.(T)
}

// SelRecv2 is the value received by a select
//
//go:norace
func SelRecv2[T any](s Sel, ch <-chan T) (T, bool) {
	return SelRecv(s, ch), s.ok
}

// Close closes a channel
//
//go:norace
func Close[T any](ch chan<- T) {
	if !InWorld() {
		close(ch)
		return
	}
	Hot()
	if ch == nil {
		panic("close of nil channel")
	}
	c := stateOf(chanPtr(ch), cap(ch), ch)
	closeState(c)
}

//go:norace
func closeState(c *chanState) {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.sync))
	for len(c.recvq) > 0 {
		wt := c.recvq[0]
		c.recvq = c.recvq[1:]
		if wt.t.fired != nil {
			continue
		}
		wt.val, wt.ok = nil, false
		wt.rdv = false
		fire(wt)
	}
	for len(c.sendq) > 0 {
		wt := c.sendq[0]
		c.sendq = c.sendq[1:]
		if wt.t.fired != nil {
			continue
		}
		wt.ok = false
		fire(wt)
	}
}

// Len is the number of elements in a channel
//
//go:norace
func Len[T any](ch <-chan T) int {
	if !InWorld() || ch == nil {
		return len(ch)
	}
	return stateOf(chanPtrR(ch), cap(ch), ch).n
}

//go:norace
func fire(wt *waiter) {
	wt.t.fired = wt
	makeRunnable(wt.t)
}

//go:norace
func firstWaiter(q *[]*waiter, self *Task) *waiter {
	for len(*q) > 0 {
		wt := (*q)[0]
		if wt.t.fired != nil || wt.t.status != stBlocked || wt.t == self {
			*q = (*q)[1:]
			continue
		}
		return wt
	}
	return nil
}

//go:norace
func ready(sc *SelCase) bool {
	if sc.nilc {
		return false
	}
	c := sc.c
	if sc.send {
		return c.closed || c.n < c.cap || firstWaiter(&c.recvq, cur) != nil
	}
	if c.n > 0 || c.closed || firstWaiter(&c.sendq, cur) != nil {
		return true
	}
	// somebody outside of the simulator may own the other side
	if v, ok, got := c.poll(); got {
		if ok {
			if c.n == len(c.buf) {
				c.buf = append(c.buf, nil)
				c.slots = append(c.slots, slot{})
			}
			c.buf[(c.head+c.n)%len(c.buf)] = v
			c.n++
		} else {
			c.closed = true
		}
		return true
	}
	return false
}

// slot is a buffer slot: the word of its happens-before edges, and the waiting
// task on whose behalf it was last used
type slot struct {
	w    uint64
	prev *waiter
}

// acqrel is what the race detector is told about a buffer slot
//
//go:norace
func acqrel(p *slot, handoff *waiter) {
	if p.prev != nil {
		RaceAcquire(unsafe.Pointer(&p.prev.a))
		p.prev = nil
	}
	RaceAcquire(unsafe.Pointer(&p.w))
	RaceRelease(unsafe.Pointer(&p.w))
	if handoff != nil {
		RaceRelease(unsafe.Pointer(&handoff.b))
		handoff.rdv = true
		p.prev = handoff
	}
}

// perform executes a ready case
//
//go:norace
func perform(sc *SelCase) (interface{}, bool) {
	c := sc.c
	if sc.send {
		if c.closed {
			panic("send on closed channel")
		}
		if wt := firstWaiter(&c.recvq, cur); wt != nil {
			c.recvq = c.recvq[1:]
			wt.val, wt.ok = sc.val, true
			if c.cap > 0 {
				s := &c.slots[c.head]
				c.head = (c.head + 1) % len(c.buf)
				acqrel(s, wt)
			} else {
				RaceAcquire(unsafe.Pointer(&wt.a))
				RaceRelease(unsafe.Pointer(&wt.b))
				wt.rdv = true
			}
			fire(wt)
			return nil, true
		}
		i := (c.head + c.n) % len(c.buf)
		acqrel(&c.slots[i], nil)
		c.buf[i] = sc.val
		c.n++
		return nil, true
	}
	if c.n > 0 {
		v := c.buf[c.head]
		s := &c.slots[c.head]
		c.buf[c.head] = nil
		c.head = (c.head + 1) % len(c.buf)
		c.n--
		wt := firstWaiter(&c.sendq, cur)
		acqrel(s, wt)
		if wt != nil {
			c.sendq = c.sendq[1:]
			c.buf[(c.head+c.n)%len(c.buf)] = wt.val
			c.n++
			wt.ok = true
			fire(wt)
		}
		return v, true
	}
	if wt := firstWaiter(&c.sendq, cur); wt != nil {
		c.sendq = c.sendq[1:]
		RaceAcquire(unsafe.Pointer(&wt.a))
		RaceRelease(unsafe.Pointer(&wt.b))
		wt.rdv = true
		wt.ok = true
		fire(wt)
		return wt.val, true
	}
	// closed
	RaceAcquire(unsafe.Pointer(&c.sync))
	return nil, false
}

// Select executes a select statement
//
//go:norace
func Select(hasDefault bool, cases []SelCase) Sel {
	if w == nil {
		return realSelect(hasDefault, cases)
	}
	Hot()
	if w.over {
		park()
	}
	n, k := 0, -1
	for i := range cases {
		if ready(&cases[i]) {
			n++
			if n == 1 {
				k = i
			}
		}
	}
	if n > 1 {
		w.SelectMulti++
		r := int(taskRand() % uint64(n))
		if w.Cfg.Strategy == StratFIFO {
			r = 0
		}
		for i := range cases {
			if ready(&cases[i]) {
				if r == 0 {
					k = i
					break
				}
				r--
			}
		}
	}
	if n > 0 {
		v, ok := perform(&cases[k])
		return Sel{I: k, v: v, ok: ok}
	}
	if hasDefault {
		return Sel{I: -1}
	}
	t := cur
	t.fired = nil
	what := ""
	for i := range cases {
		sc := &cases[i]
		if sc.nilc {
			what += " nil channel"
			continue
		}
		wt := &waiter{t: t, c: sc.c, send: sc.send, val: sc.val, idx: i}
		RaceRelease(unsafe.Pointer(&wt.a))
		if sc.send {
			sc.c.sendq = append(sc.c.sendq, wt)
			what += " send to channel #" + strconv.Itoa(sc.c.id)
		} else {
			sc.c.recvq = append(sc.c.recvq, wt)
			what += " receive from channel #" + strconv.Itoa(sc.c.id)
		}
	}
	if len(cases) == 0 {
		what = " empty select"
	}
	t.status = stBlocked
	t.What = what[1:]
	switchAway(t)
	wt := t.fired
	t.fired = nil
	// forget the other cases
	for i := range cases {
		if !cases[i].nilc {
			forget(&cases[i].c.recvq, t)
			forget(&cases[i].c.sendq, t)
		}
	}
	if wt.rdv {
		RaceAcquire(unsafe.Pointer(&wt.b))
	}
	if wt.send {
		if !wt.ok {
			panic("send on closed channel")
		}
		return Sel{I: wt.idx}
	}
	if !wt.ok {
		RaceAcquire(unsafe.Pointer(&wt.c.sync))
	}
	return Sel{I: wt.idx, v: wt.val, ok: wt.ok}
}

func realSelect(hasDefault bool, cases []SelCase) Sel {
	var rc []reflect.SelectCase
	var idx []int
	for i, c := range cases {
		if c.real != nil {
			rc = append(rc, *c.real)
			idx = append(idx, i)
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		idx = append(idx, -1)
	}
	i, v, ok := reflect.Select(rc)
	s := Sel{I: idx[i], ok: ok}
	if ok {
		s.v = v.Interface()
	}
	return s
}

//go:norace
func forget(q *[]*waiter, t *Task) {
	j := 0
	for _, wt := range *q {
		if wt.t != t {
			(*q)[j] = wt
			j++
		}
	}
	*q = (*q)[:j]
}

// pollForeign looks for values on channels whose other side is not simulated
//
//go:norace
func (wd *World) pollForeign() bool {
	for _, t := range wd.tasks {
		if t.status != stBlocked {
			continue
		}
		for _, c := range wd.chans {
			for _, wt := range c.recvq {
				if wt.t == t && t.fired == nil && c.poll != nil {
					if v, ok, got := c.poll(); got {
						if !ok {
							c.closed = true
						}
						wt.val, wt.ok = v, ok
						fire(wt)
						return true
					}
				}
			}
		}
	}
	return false
}

// flush puts what is left in the channels into the real ones: a channel held in
// a package-level variable (a pool, a semaphore) keeps its content from one
// world to the next
//
//go:norace
func (wd *World) flush() {
	for _, c := range wd.chans {
		for c.n > 0 && c.put != nil && !c.released && !c.closed && c.put(c.buf[c.head]) {
			c.head = (c.head + 1) % len(c.buf)
			c.n--
		}
	}
}

// Block parks the current task until WakeUp is called on it
//
//go:norace
func Block(what string) {
	t := cur
	t.status = stBlocked
	t.What = what
	switchAway(t)
}

// WakeUp makes a task blocked in Block runnable
//
//go:norace
func WakeUp(t *Task) {
	if t.status == stBlocked {
		makeRunnable(t)
	}
}

// Gosched lets another task run
//
//go:norace
func Gosched() {
	if !InWorld() {
		return
	}
	account()
	checkBudget()
	t := cur
	if t.nopre > 0 {
		return
	}
	next := w.oldest(t)
	if next == nil {
		return
	}
	w.stampSeq++
	t.stamp = w.stampSeq
	w.record(t, next, true)
	handoff(next)
	wait(t)
}

// Timer is a simulated timer
type Timer struct {
	at  int64
	seq int64
	f   func()
	on  bool
}

// AddTimer registers a function called by the scheduler at a simulated instant
//
//go:norace
func AddTimer(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	w.timerSeq++
	t := &Timer{at: w.now + d, seq: w.timerSeq, f: f, on: true}
	w.timers = append(w.timers, t)
	return t
}

// StopTimer cancels a timer
//
//go:norace
func StopTimer(t *Timer) bool {
	was := t.on
	t.on = false
	return was
}

//go:norace
func (wd *World) fireTimer(within int64) bool {
	k := -1
	for i, t := range wd.timers {
		if t.on && (k < 0 || t.at < wd.timers[k].at || (t.at == wd.timers[k].at && t.seq < wd.timers[k].seq)) {
			k = i
		}
	}
	if k < 0 || wd.timers[k].at-wd.now > within {
		return false
	}
	t := wd.timers[k]
	t.on = false
	wd.timers[k] = wd.timers[len(wd.timers)-1]
	wd.timers = wd.timers[:len(wd.timers)-1]
	if t.at > wd.now {
		wd.now = t.at
	}
	t.f()
	return true
}

// Spawn starts a task from the scheduler (timer callbacks)
//
//go:norace
func Spawn(f func()) {
	w.timerSeq++
	t := newTask(nil, "timer."+strconv.FormatInt(w.timerSeq, 10))
	go taskMain(w, t, f)
}

// Poke makes the scheduler look at the real channels of the blocked tasks
//
//go:norace
func Poke() {}
