//go:build go1.21

// Package sim is a deterministic cooperative scheduler.  Every goroutine of the
// system under test is a task; exactly one task runs at any time, and every
// decision about which one runs next, which ready case a select takes, in which
// order a map is visited or whether a pool hands out a pooled object is drawn
// from one seed, so that a run is a pure function of (code, scenario, seed).
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"unsafe"
)

// Strategy names
const (
	StratFIFO     = "fifo"     // canonical: run until blocked, then the task that has been runnable for the longest time
	StratRandom   = "random"   // random quantum, random next
	StratPCT      = "pct"      // priorities with a few change points
	StratLockstep = "lockstep" // constant quantum, round robin
	StratStarve   = "starve"   // random, but one task only runs when nothing else can
	StratLIFO     = "lifo"     // run until blocked, then the task that became runnable last
	StratTrace    = "trace"    // explicit preemptions (minimised replays)
)

// Sched is the scheduling part of a scenario
type Sched struct {
	Strategy string   `json:"strategy"`
	Seed     uint64   `json:"seed"`
	Quantum  int64    `json:"quantum,omitempty"`  // mean quantum (random, starve), exact quantum (lockstep)
	HotP     int      `json:"hot_p,omitempty"`    // per mille: probability of a preemption at a hot point (package-level variable, channel operation, file operation)
	Depth    int      `json:"depth,omitempty"`    // pct: number of change points
	Horizon  int64    `json:"horizon,omitempty"`  // pct: steps over which the change points are spread
	Victim   int      `json:"victim,omitempty"`   // starve: which task
	Maps     string   `json:"maps,omitempty"`     // "" seeded permutation, "sorted", "reversed"
	PoolNew  int      `json:"pool_new,omitempty"` // per mille: probability that a pool forgets its object
	Stall    int      `json:"stall,omitempty"`    // per mille: probability, at a hot point, that a timer fires although tasks can run
	Switches []Switch `json:"switches,omitempty"` // trace
}

// Switch is one scheduling decision: when task T reaches local step L, run N
type Switch struct {
	T string `json:"t"`
	L int64  `json:"l"`
	N string `json:"n"`
	B bool   `json:"b,omitempty"` // T was blocked or ended (not a preemption)
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is a simulated goroutine
type Task struct {
	ID       int
	Name     string
	parent   *Task
	children int
	wake     chan struct{}
	status   int
	local    int64
	prio     uint64
	stamp    int64 // when it became runnable
	nopre    int
	rnd      uint64
	hotRnd   uint64
	stallRnd uint64
	sw       []Switch // trace strategy: decisions of this task
	fired    *waiter
	What     string // what it is blocked on
	Data     interface{}
	IsOp     bool
}

const bigQuantum = int64(1) << 60

var (
	quantum int64 = bigQuantum
	granted int64 = bigQuantum
	cur     *Task
	w       *World
)

// World is one simulated execution
type World struct {
	Cfg      Sched
	MaxSteps int64
	Record   bool

	tasks    []*Task
	live     int
	steps    int64
	rng      uint64
	stampSeq int64
	chans    []*chanState
	mainWake chan struct{}
	over     bool
	killed   bool
	end      uint64

	// results
	Hash        uint64
	Switches    int64
	Preemptions int64
	Crash       string // panic outside of an operation
	CrashStack  string
	Abort       string // budget exceeded
	Exited      bool
	ExitCode    int
	Trace       []Switch
	TraceTrunc  bool
	Occupancy   [1 << 12]uint64
	SelectMulti int64 // selects with several ready cases
	MapIters    int64 // iterations over maps with several entries
	PoolMiss    int64
	Stalls      int64  // timers which fired although tasks could run
	OnSwitch    func() // invariant checked at each switch (non-race builds only)
	KillStep    int64  // abort the world at this step (crash injection)
	changeAt    []int64
	now         int64 // simulated nanoseconds
	timers      []*Timer
	timerSeq    int64
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

//go:norace
func (wd *World) rand() uint64 {
	wd.rng += 0x9e3779b97f4a7c15
	z := wd.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// taskRand is a per-task stream, so that choices made by a task do not depend
// on how many preemptions happened elsewhere
//
//go:norace
func taskRand() uint64 {
	if w == nil || cur == nil {
		return 0
	}
	cur.rnd += 0x9e3779b97f4a7c15
	z := cur.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Y is a potential preemption point
//
//go:norace
func Y() {
	quantum--
	if quantum < 0 {
		yieldSlow()
	}
}

// YV is a potential preemption point next to an access to a package-level variable
//
//go:norace
func YV() {
	quantum--
	if quantum < 0 {
		yieldSlow()
	} else if w != nil {
		hot()
	}
}

// Hot is a preemption point of higher probability (I/O, channel operations)
//
//go:norace
func Hot() {
	if w != nil {
		if len(w.timers) > 0 {
			stall()
		}
		quantum--
		if quantum < 0 {
			yieldSlow()
		} else {
			hot()
		}
	}
}

// maxStall is the longest stall (of simulated time)
const maxStall = int64(60e9)

// stall injects a slow or stalled task: now and then the time a timer needs to
// fire passes while the current task makes a single step
//
//go:norace
func stall() {
	if cur == nil || w.over || cur.nopre > 0 || w.Cfg.Stall == 0 {
		return
	}
	cur.stallRnd = cur.stallRnd*6364136223846793005 + 1442695040888963407
	if int((cur.stallRnd>>33)%1000) < w.Cfg.Stall {
		if !w.fireTimer(maxStall) {
			return
		}
		w.Stalls++
		w.pollForeign()
	}
}

//go:norace
func hot() {
	if cur == nil || w.Cfg.HotP == 0 || w.Cfg.Strategy == StratTrace {
		return
	}
	cur.hotRnd = cur.hotRnd*6364136223846793005 + 1442695040888963407
	if int((cur.hotRnd>>33)%1000) < w.Cfg.HotP {
		account()
		preempt(cur)
	}
}

// account adds the steps consumed in the current slice
//
//go:norace
func account() {
	used := granted - quantum
	w.steps += used
	cur.local += used
	granted = quantum
}

//go:norace
func setQuantum(q int64) {
	if rem := w.MaxSteps - w.steps; q > rem {
		q = rem + 1
	}
	if w.KillStep > 0 {
		if rem := w.KillStep - w.steps; q > rem {
			q = rem + 1
		}
	}
	if q < 0 {
		q = 0
	}
	quantum, granted = q, q
}

//go:norace
func yieldSlow() {
	if w == nil || cur == nil {
		quantum, granted = bigQuantum, bigQuantum
		return
	}
	if w.over {
		park()
	}
	account()
	checkBudget()
	preempt(cur)
}

//go:norace
func checkBudget() {
	if w.KillStep > 0 && w.steps >= w.KillStep {
		w.killed = true
		stop()
		park()
	}
	if w.steps > w.MaxSteps {
		w.Abort = "step budget of " + strconv.FormatInt(w.MaxSteps, 10) + " exceeded in task " + cur.Name
		w.CrashStack = string(debug.Stack())
		stop()
		park()
	}
}

// stop ends the world: the main goroutine takes over, no task runs any more
//
//go:norace
func stop() {
	if w.over {
		return
	}
	w.over = true
	raceDisable()
	w.mainWake <- struct{}{}
	raceEnable()
}

// park blocks the current goroutine forever (its world is over)
//
//go:norace
func park() {
	RaceReleaseMerge(unsafe.Pointer(&w.end))
	raceDisable()
	select {}
}

// AbortRun ends the current world from within a task (e.g. operation budget exceeded)
//
//go:norace
func AbortRun(reason string) {
	if w == nil || cur == nil || w.over {
		return
	}
	w.Abort = reason + " in task " + cur.Name
	w.CrashStack = string(debug.Stack())
	stop()
	park()
}

// Kill ends the current world: simulated crash of the process
//
//go:norace
func Kill() {
	if w == nil || cur == nil || w.over {
		return
	}
	w.killed = true
	stop()
	park()
}

// NoPreempt disables preemption of the current task until the returned count drops to zero
//
//go:norace
func NoPreempt(d int) {
	if cur != nil {
		cur.nopre += d
	}
}

//go:norace
func preempt(t *Task) {
	if t.nopre > 0 {
		setQuantum(w.nextQuantum(t))
		return
	}
	next := w.pickPreempt(t)
	if next == t {
		setQuantum(w.nextQuantum(t))
		return
	}
	w.Preemptions++
	w.stampSeq++
	t.stamp = w.stampSeq
	w.record(t, next, false)
	handoff(next)
	wait(t)
}

// switchAway is called by a task that cannot go on
//
//go:norace
func switchAway(t *Task) {
	account()
	checkBudget()
	for {
		next := w.pickBlocked(t)
		if next != nil {
			w.record(t, next, true)
			if next == t {
				setQuantum(w.nextQuantum(t))
				return
			}
			handoff(next)
			if t.status == stDone {
				return
			}
			wait(t)
			return
		}
		if w.pollForeign() || w.fireTimer(1<<62) {
			continue
		}
		// nothing can run any more
		stop()
		if t.status == stDone {
			return
		}
		park()
	}
}

//go:norace
func (wd *World) record(t, next *Task, blocked bool) {
	wd.Switches++
	wd.Hash = mix(wd.Hash, uint64(t.ID)<<32^uint64(t.local)^uint64(next.ID)<<48)
	var occ uint64
	n := 0
	for i := len(wd.chans) - 1; i >= 0 && n < 12; i-- {
		c := wd.chans[i]
		if c.cap == 0 || c.released {
			continue
		}
		occ = occ*31 + uint64(c.n)
		n++
	}
	occ = mix(occ, uint64(n))
	wd.Occupancy[(occ>>6)%(1<<12)] |= 1 << (occ & 63)
	if wd.Record {
		if len(wd.Trace) < 400000 {
			wd.Trace = append(wd.Trace, Switch{T: t.Name, L: t.local, N: next.Name, B: blocked})
		} else {
			wd.TraceTrunc = true
		}
	}
	if !RaceEnabled && wd.OnSwitch != nil {
		wd.OnSwitch()
	}
}

//go:norace
func handoff(next *Task) {
	cur = next
	setQuantum(w.nextQuantum(next))
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

//go:norace
func wait(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (wd *World) nextQuantum(t *Task) int64 {
	switch wd.Cfg.Strategy {
	case StratRandom, StratStarve:
		q := wd.Cfg.Quantum
		if q <= 1 {
			q = 1
		}
		// between 0 and 2q, uniformly
		return int64(wd.rand() % uint64(2*q+1))
	case StratLockstep:
		return wd.Cfg.Quantum
	case StratPCT:
		if len(wd.changeAt) > 0 {
			d := wd.changeAt[0] - wd.steps
			if d < 0 {
				d = 0
			}
			return d
		}
		return 1000000
	case StratTrace:
		for len(t.sw) > 0 && t.sw[0].L < t.local {
			t.sw = t.sw[1:]
		}
		for _, s := range t.sw {
			if s.L == t.local {
				continue
			}
			if !s.B {
				d := s.L - t.local - 1 // quantum -1 triggers the slow path
				if d < 0 {
					d = 0
				}
				return d
			}
		}
		return 1000000
	default:
		return 1000000
	}
}

//go:norace
func (wd *World) oldest(except *Task) *Task {
	var best *Task
	for _, t := range wd.tasks {
		if t.status == stRunnable && t != except && (best == nil || t.stamp < best.stamp) {
			best = t
		}
	}
	return best
}

//go:norace
func (wd *World) newest(except *Task) *Task {
	var best *Task
	for _, t := range wd.tasks {
		if t.status == stRunnable && t != except && (best == nil || t.stamp > best.stamp) {
			best = t
		}
	}
	return best
}

//go:norace
func (wd *World) highest() *Task {
	var best *Task
	for _, t := range wd.tasks {
		if t.status == stRunnable && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

//go:norace
func (wd *World) randomRunnable(victim bool) *Task {
	n := 0
	for _, t := range wd.tasks {
		if t.status == stRunnable && !(victim && t.ID == wd.Cfg.Victim) {
			n++
		}
	}
	if n == 0 {
		if victim {
			return wd.randomRunnable(false)
		}
		return nil
	}
	k := int(wd.rand() % uint64(n))
	for _, t := range wd.tasks {
		if t.status == stRunnable && !(victim && t.ID == wd.Cfg.Victim) {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func (wd *World) byName(name string) *Task {
	for _, t := range wd.tasks {
		if t.Name == name && t.status == stRunnable {
			return t
		}
	}
	return nil
}

//go:norace
func (wd *World) pickPreempt(t *Task) *Task {
	switch wd.Cfg.Strategy {
	case StratRandom:
		return wd.randomRunnable(false)
	case StratStarve:
		return wd.randomRunnable(true)
	case StratLockstep:
		if n := wd.oldest(t); n != nil {
			return n
		}
		return t
	case StratPCT:
		if len(wd.changeAt) > 0 && wd.steps >= wd.changeAt[0] {
			t.prio = uint64(len(wd.changeAt)) // below all the initial priorities
			wd.changeAt = wd.changeAt[1:]
		}
		return wd.highest()
	case StratTrace:
		for _, s := range t.sw {
			if s.B {
				continue
			}
			if s.L == t.local {
				if n := wd.byName(s.N); n != nil {
					return n
				}
			}
			break
		}
		return t
	}
	return t
}

//go:norace
func (wd *World) pickBlocked(t *Task) *Task {
	switch wd.Cfg.Strategy {
	case StratRandom:
		return wd.randomRunnable(false)
	case StratStarve:
		return wd.randomRunnable(true)
	case StratPCT:
		return wd.highest()
	case StratLIFO:
		return wd.newest(nil)
	case StratTrace:
		for _, s := range t.sw {
			if s.L == t.local && s.B {
				if n := wd.byName(s.N); n != nil {
					return n
				}
			}
			if s.L > t.local {
				break
			}
		}
		return wd.oldest(nil)
	}
	return wd.oldest(nil)
}

//go:norace
func makeRunnable(t *Task) {
	t.status = stRunnable
	t.What = ""
	w.stampSeq++
	t.stamp = w.stampSeq
	if w.Cfg.Strategy == StratPCT && cur != nil && t.prio > cur.prio {
		account()
		quantum, granted = 0, 0
	}
}

//go:norace
func newTask(parent *Task, name string) *Task {
	t := &Task{Name: name, parent: parent, wake: make(chan struct{}, 1)}
	t.ID = len(w.tasks)
	t.rnd = mix(w.Cfg.Seed, strHash(name))
	t.hotRnd = mix(t.rnd, 77)
	t.stallRnd = mix(t.rnd, 78)
	t.prio = (w.rand() >> 8) | 1<<40
	if w.Cfg.Strategy == StratTrace {
		for i := range w.Cfg.Switches {
			if w.Cfg.Switches[i].T == name {
				t.sw = append(t.sw, w.Cfg.Switches[i])
			}
		}
	}
	w.tasks = append(w.tasks, t)
	w.live++
	makeRunnable(t)
	return t
}

// Go starts a task
//
//go:norace
func Go(f func()) {
	if w == nil || cur == nil {
		go f()
		return
	}
	GoTask("", f)
}

// GoTask starts a named task
//
//go:norace
func GoTask(name string, f func()) *Task {
	p := cur
	p.children++
	if name == "" {
		name = p.Name + "." + strconv.Itoa(p.children)
	}
	t := newTask(p, name)
	wd := w
	go taskMain(wd, t, f)
	Hot()
	return t
}

//go:norace
func taskMain(wd *World, t *Task, f func()) {
	wait(t)
	defer taskEnd(wd, t)
	f()
}

//go:norace
func taskEnd(wd *World, t *Task) {
	r := recover()
	if w != wd || wd.over {
		park()
	}
	if r != nil {
		if !wd.Exited {
			wd.Crash = "panic in task " + t.Name + ": " + fmt.Sprint(r)
			wd.CrashStack = stackOf()
		}
		stop()
		park()
	}
	RaceReleaseMerge(unsafe.Pointer(&wd.end))
	t.status = stDone
	wd.live--
	if wd.live == 0 {
		account()
		stop()
		return
	}
	switchAway(t)
}

//go:norace
func stackOf() string {
	buf := make([]byte, 16384)
	return string(buf[:runtime.Stack(buf, false)])
}

// Run executes f as the root task of a world and returns when every task is
// done, when nothing can run any more, or when the run was aborted.
//
//go:norace
func Run(wd *World, f func()) {
	if wd.MaxSteps == 0 {
		wd.MaxSteps = 200000000
	}
	wd.mainWake = make(chan struct{}, 1)
	wd.rng = wd.Cfg.Seed ^ 0x5bd1e995
	splitmix(&wd.rng)
	if wd.Cfg.Strategy == StratPCT {
		h := wd.Cfg.Horizon
		if h < 1 {
			h = 1
		}
		for i := 0; i < wd.Cfg.Depth; i++ {
			at := int64(wd.rand() % uint64(h))
			j := len(wd.changeAt)
			wd.changeAt = append(wd.changeAt, at)
			for j > 0 && wd.changeAt[j-1] > at {
				wd.changeAt[j] = wd.changeAt[j-1]
				j--
			}
			wd.changeAt[j] = at
		}
	}
	w = wd
	root := newTask(nil, "main")
	cur = root
	go taskMain(wd, root, f)
	setQuantum(wd.nextQuantum(root))
	raceDisable()
	root.wake <- struct{}{}
	<-wd.mainWake
	raceEnable()
	RaceAcquire(unsafe.Pointer(&wd.end))
	if !wd.killed {
		wd.flush()
	}
	w, cur = nil, nil
	quantum, granted = bigQuantum, bigQuantum
}

// Steps is the number of yield points passed
func (wd *World) Steps() int64 { return wd.steps }

// SimTime is the simulated time elapsed, in nanoseconds
func (wd *World) SimTime() int64 { return wd.now }

// Killed tells that the crash asked for was injected
func (wd *World) Killed() bool { return wd.killed }

// Leftover lists the tasks which are not done
func (wd *World) Leftover() []string {
	var res []string
	for _, t := range wd.tasks {
		if t.status != stDone {
			st := "runnable"
			if t.status == stBlocked {
				st = "blocked on " + t.What
			}
			res = append(res, t.Name+" ("+st+")")
		}
	}
	return res
}

// Tasks is the number of tasks started
func (wd *World) Tasks() int { return len(wd.tasks) }

// Current returns the running task
//
//go:norace
func Current() *Task { return cur }

// InWorld tells whether the caller is a simulated task
//
//go:norace
func InWorld() bool { return w != nil && cur != nil }

// TheWorld returns the running world
//
//go:norace
func TheWorld() *World { return w }

// Note adds an event to the hash of the execution
//
//go:norace
func Note(s string) {
	if w != nil && cur != nil {
		w.Hash = mix(w.Hash, strHash(s)^uint64(cur.ID)<<56)
	}
}

// Now is the simulated clock; every reading advances it
//
//go:norace
func Now() int64 {
	if w == nil {
		return 0
	}
	w.now += 1000
	return w.now
}

// Step is the global step count at this instant (event sequence number)
//
//go:norace
func Step() int64 {
	if w == nil {
		return 0
	}
	return w.steps + granted - quantum
}

// OpOf returns the operation (top-level task below main) the current task belongs to
//
//go:norace
func OpOf() *Task {
	t := cur
	for t != nil && !t.IsOp {
		t = t.parent
	}
	return t
}

// SetExit records a process exit
//
//go:norace
func SetExit(code int) {
	if w != nil && !w.Exited {
		w.Exited = true
		w.ExitCode = code
	}
}

// HasExited tells whether the simulated process has exited
//
//go:norace
func HasExited() bool { return w != nil && (w.Exited || w.over) }

// Live is the number of live tasks
//
//go:norace
func Live() int {
	if w == nil {
		return 1
	}
	return w.live
}
