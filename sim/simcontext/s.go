//go:build go1.21

// Package simcontext is package context, with the cancellation of contexts
// decided by the simulated scheduler and clock.
package simcontext

import (
	real "context"
	"time"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
	"github.com/bytesparadise/libasciidoc/verifsim/simsync"
	"github.com/bytesparadise/libasciidoc/verifsim/simtime"
)

type key struct{}

type ctx struct {
	real.Context // parent
	mu           simsync.Mutex
	done         chan struct{}
	err, cause   error
	children     []*ctx
	after        []*afterFn
	deadline     time.Time
	timer        *simtime.Timer
}

type afterFn struct {
	f    func()
	gone bool
}

// Deadline is the deadline
func (c *ctx) Deadline() (time.Time, bool) {
	d, ok := c.Context.Deadline()
	if !c.deadline.IsZero() && (!ok || c.deadline.Before(d)) {
		return c.deadline, true
	}
	return d, ok
}

// Done is closed when the context is cancelled
func (c *ctx) Done() <-chan struct{} { return c.done }

// Err is set when the context is cancelled
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// Value is a value of the context
func (c *ctx) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	children, after, timer := c.children, c.after, c.timer
	c.children, c.after, c.timer = nil, nil, nil
	sim.Close(c.done)
	c.mu.Unlock()
	if timer != nil {
		timer.Stop()
	}
	for _, k := range children {
		k.cancel(err, cause)
	}
	for _, a := range after {
		if !a.gone {
			a.gone = true
			sim.Go(a.f)
		}
	}
}

func newCtx(parent real.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.children = append(p.children, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	} else if d := parent.Done(); d != nil {
		sim.Go(func() {
			if sim.Select(false, []sim.SelCase{sim.RecvCase(d), sim.RecvCase(c.done)}).I == 0 {
				c.cancel(parent.Err(), real.Cause(parent))
			}
		})
	}
	return c
}

// WithCancel returns a context which can be cancelled
func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(real.Canceled, nil) }
}

// WithCancelCause returns a context which can be cancelled
func WithCancelCause(parent real.Context) (real.Context, real.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(real.Canceled, cause) }
}

// WithDeadlineCause returns a context with a deadline
func WithDeadlineCause(parent real.Context, d time.Time, cause error) (real.Context, real.CancelFunc) {
	c := newCtx(parent)
	c.deadline = d
	left := simtime.Until(d)
	if left <= 0 {
		c.cancel(real.DeadlineExceeded, cause)
	} else {
		c.mu.Lock()
		if c.err == nil {
			c.timer = simtime.AfterFunc(left, func() { c.cancel(real.DeadlineExceeded, cause) })
		}
		c.mu.Unlock()
	}
	return c, func() { c.cancel(real.Canceled, nil) }
}

// WithDeadline returns a context with a deadline
func WithDeadline(parent real.Context, d time.Time) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeout returns a context with a deadline
func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

// WithTimeoutCause returns a context with a deadline
func WithTimeoutCause(parent real.Context, d time.Duration, cause error) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

type detached struct{ real.Context }

func (d detached) Deadline() (t time.Time, ok bool) { return }
func (d detached) Done() <-chan struct{}            { return nil }
func (d detached) Err() error                       { return nil }
func (d detached) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return nil
	}
	return d.Context.Value(k)
}

// WithoutCancel returns a context which is not cancelled with its parent
func WithoutCancel(parent real.Context) real.Context { return detached{parent} }

// Cause is why a context was cancelled
func Cause(c real.Context) error {
	if p, ok := c.Value(key{}).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

// AfterFunc runs a function once the context is cancelled
func AfterFunc(parent real.Context, f func()) (stop func() bool) {
	c := newCtx(parent)
	a := &afterFn{f: f}
	c.mu.Lock()
	gone := c.err != nil
	if !gone {
		c.after = append(c.after, a)
	}
	c.mu.Unlock()
	if gone {
		a.gone = true
		sim.Go(f)
	}
	return func() bool {
		c.mu.Lock()
		was := a.gone
		a.gone = true
		c.mu.Unlock()
		return !was
	}
}
