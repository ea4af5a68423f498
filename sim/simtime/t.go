//go:build go1.21

// Package simtime is package time with a simulated clock.
package simtime

import (
	real "time"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// Base is the wall clock at the start of the run; TickStep is what a reading adds to it.
var (
	Base int64 = 1700000000 * 1e9
	TickStep int64 = 1000
	skew int64
	// Reads counts the readings of the clock
	Reads int64
)

func init() {
	simos.NowFn = func() int64 { return Base + skew + sim.Now() }
	simos.Jump = func(d int64) { skew += d }
}

// Reset sets the clock
//
//go:norace
func Reset(base, tick int64) { Base, TickStep, skew, Reads = base, tick, 0, 0 }

// Now is the simulated wall clock (without a monotonic reading, so that jumps are visible in differences)
//
//go:norace
func Now() Time {
	Reads++
	skew += TickStep
	return real.Unix(0, Base+skew+sim.Now())
}

// Since is the simulated time elapsed
func Since(t Time) Duration { return Now().Sub(t) }

// Until is the simulated time left
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep blocks the task
func Sleep(d Duration) {
	if !sim.InWorld() {
		return
	}
	t := sim.Current()
	sim.AddTimer(int64(d), func() { sim.WakeUp(t) })
	sim.Block("sleep")
}

// Timer is a simulated timer
type Timer struct {
	C <-chan Time
	c chan Time
	t *sim.Timer
	f func()
}

func (t *Timer) start(d Duration) {
	t.t = sim.AddTimer(int64(d), func() {
		if t.f != nil {
			sim.Spawn(t.f)
			return
		}
		select {
		case t.c <- real.Unix(0, Base+skew+sim.Now()):
		default:
		}
		sim.Poke()
	})
}

// NewTimer starts a timer
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc runs a function later
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After sends the time later
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop cancels
func (t *Timer) Stop() bool { return sim.StopTimer(t.t) }

// Reset restarts
func (t *Timer) Reset(d Duration) bool {
	was := sim.StopTimer(t.t)
	t.start(d)
	return was
}

// Ticker is a simulated ticker
type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	on bool
	t  *sim.Timer
}

// NewTicker starts a ticker
func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, on: true}
	t.next()
	return t
}

func (t *Ticker) next() {
	t.t = sim.AddTimer(int64(t.d), func() {
		if !t.on {
			return
		}
		select {
		case t.c <- real.Unix(0, Base+skew+sim.Now()):
		default:
		}
		t.next()
	})
}

// Stop stops
func (t *Ticker) Stop() {
	t.on = false
	sim.StopTimer(t.t)
}

// Reset changes the period
func (t *Ticker) Reset(d Duration) {
	sim.StopTimer(t.t)
	t.d, t.on = d, true
	t.next()
}

// Tick is a ticker that cannot be stopped
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
