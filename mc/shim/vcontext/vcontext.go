// Package vcontext replaces package context: cancellation goes through the controlled runtime.
package vcontext

import (
	real "context"
	"time"
	"unsafe"

	"verif/rt"
)

type Context = real.Context
type CancelFunc = real.CancelFunc
type CancelCauseFunc = real.CancelCauseFunc

var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded

type ctx struct {
	real.Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
	after    []func()
	parent   *ctx
	deadline time.Time
	hasDl    bool
	timer    *rt.Timer
}

type key struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	rt.PointFine("ctx.Err")
	rt.Acquire(unsafe.Pointer(c))
	return c.err
}
func (c *ctx) Value(k any) any {
	if k == (key{}) {
		return c
	}
	return c.Context.Value(k)
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) cancel(err, cause error) {
	if rt.Aborting() || c.err != nil {
		return
	}
	rt.Point("cancel")
	if c.err != nil {
		return
	}
	rt.ReleaseMerge(unsafe.Pointer(c))
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	rt.CloseQuiet(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	for _, f := range c.after {
		rt.Go(f)
	}
}

func newCtx(parent Context) *ctx {
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		c.parent = p
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if e := parent.Err(); e != nil {
		c.cancel(e, real.Cause(parent))
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	if !rt.Active() {
		return real.WithCancel(parent)
	}
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	if !rt.Active() {
		return real.WithCancelCause(parent)
	}
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if !rt.Active() {
		return real.WithDeadlineCause(parent, d, cause)
	}
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.deadline, c.hasDl = d, true
	dur := time.Duration(d.UnixNano() - rt.NowNanos())
	if dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	c.timer = rt.NewTimer(dur, 0, func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	if !rt.Active() {
		return real.WithTimeoutCause(parent, d, cause)
	}
	return WithDeadlineCause(parent, time.Unix(0, rt.NowNanos()).Add(d), cause)
}

func Cause(c Context) error {
	if x, ok := c.Value(key{}).(*ctx); ok {
		return x.cause
	}
	return real.Cause(c)
}

func AfterFunc(c Context, f func()) func() bool {
	x, ok := c.Value(key{}).(*ctx)
	if !ok {
		return real.AfterFunc(c, f)
	}
	if x.err != nil {
		rt.Go(f)
		return func() bool { return false }
	}
	x.after = append(x.after, f)
	i := len(x.after) - 1
	return func() bool {
		if x.err != nil {
			return false
		}
		x.after[i] = func() {}
		return true
	}
}
