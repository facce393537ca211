// Package context replaces the cancelling functions of the standard context
// package: their channels are closed by the simulator.
package context

import (
	"context"
	"time"

	"ustack/zzsim"
)

type key struct{}

type cctx struct {
	context.Context // the parent
	done            chan struct{}
	err, cause      error
	at              time.Time
	hasAt           bool
	tm              *zzsim.Timer
	kids            []*cctx
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { zzsim.S(-60); return c.err }
func (c *cctx) Value(k interface{}) interface{} {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	t, ok := c.Context.Deadline()
	if c.hasAt && (!ok || c.at.Before(t)) {
		return c.at, true
	}
	return t, ok
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	if cause == nil {
		c.cause = err
	}
	if c.tm != nil {
		zzsim.Cancel(c.tm)
	}
	zzsim.CloseNow((chan<- struct{})(c.done))
	for _, k := range c.kids {
		k.cancel(err, c.cause)
	}
	c.kids = nil
}

func newCtx(p context.Context) *cctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: p, done: make(chan struct{})}
	if q, ok := p.Value(key{}).(*cctx); ok {
		if q.err != nil {
			c.cancel(q.err, q.cause)
		} else {
			q.kids = append(q.kids, c)
		}
	}
	return c
}

// WithCancel ...
func WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	return c, func() { zzsim.S(-61); c.cancel(context.Canceled, nil) }
}

// WithCancelCause ...
func WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) { zzsim.S(-61); c.cancel(context.Canceled, e) }
}

// Cause ...
func Cause(c context.Context) error {
	if q, ok := c.Value(key{}).(*cctx); ok {
		return q.cause
	}
	return c.Err()
}

// WithDeadlineCause ...
func WithDeadlineCause(p context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	c.at, c.hasAt = at, true
	d := int64(at.Sub(zzsim.Now()))
	if c.err == nil && !zzsim.Dying() {
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.tm = zzsim.After(d, func() { c.tm = nil; c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { zzsim.S(-61); c.cancel(context.Canceled, nil) }
}

// WithDeadline ...
func WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, at, nil)
}

// WithTimeout ...
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, zzsim.Now().Add(d), nil)
}

// WithTimeoutCause ...
func WithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, zzsim.Now().Add(d), cause)
}

// AfterFunc ...
func AfterFunc(p context.Context, f func()) (stop func() bool) {
	stopped, ran := false, false
	zzsim.Go(-62, "context.AfterFunc", func() {
		zzsim.Recv2(-62, p.Done())
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool { zzsim.S(-63); stopped = true; return !ran }
}
