// Package simcontext stands in for what package context makes: contexts that end
// by the simulated clock, or when a simulated goroutine says so.
package simcontext

import (
	"context"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
	"verif.local/sim/simtime"
)

type ctx struct {
	context.Context // the parent
	mu              simsync.Mutex
	done            chan struct{}
	err, cause      error
	deadline        time.Time
	children        []func(err, cause error)
}

type keyType int

var key keyType

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) Value(k any) any {
	if k == &key {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) end(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	simrt.Close(c.done)
	children := c.children
	c.children = nil
	c.mu.Unlock()
	for _, f := range children {
		f(err, cause)
	}
}

// then has f called when parent ends.
func then(parent context.Context, f func(err, cause error)) {
	p, ok := parent.Value(&key).(*ctx)
	if !ok {
		return // one that never ends, or not by anything that is simulated
	}
	p.mu.Lock()
	if p.err == nil {
		p.children = append(p.children, f)
		p.mu.Unlock()
		return
	}
	err, cause := p.err, p.cause
	p.mu.Unlock()
	f(err, cause)
}

func make1(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: simrt.MakeChan[chan struct{}](0)}
	if err := parent.Err(); err != nil {
		c.end(err, Cause(parent))
	} else {
		then(parent, c.end)
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := make1(parent)
	return c, func() { c.end(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := make1(parent)
	return c, func(cause error) { c.end(context.Canceled, cause) }
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := make1(parent)
	if old, ok := parent.Deadline(); ok && old.Before(d) {
		return c, func() { c.end(context.Canceled, nil) }
	}
	c.deadline = d
	dur := simtime.Until(d)
	if dur <= 0 {
		c.end(context.DeadlineExceeded, cause)
		return c, func() {}
	}
	t := simtime.AfterFunc(dur, func() { c.end(context.DeadlineExceeded, cause) })
	return c, func() {
		t.Stop()
		c.end(context.Canceled, nil)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func Cause(c context.Context) error {
	if p, ok := c.Value(&key).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return context.Cause(c)
}

func AfterFunc(c context.Context, f func()) func() bool {
	var once simsync.Once
	then(c, func(err, cause error) {
		once.Do(func() {
			k := simrt.NewTask()
			go func() {
				defer simrt.Enter(k)()
				f()
			}()
		})
	})
	return func() bool {
		stopped := false
		once.Do(func() { stopped = true })
		return stopped
	}
}

type without struct{ context.Context }

func (without) Done() <-chan struct{}       { return nil }
func (without) Err() error                  { return nil }
func (without) Deadline() (time.Time, bool) { return time.Time{}, false }
func (w without) Value(k any) any {
	if k == &key {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(c context.Context) context.Context { return without{c} }
