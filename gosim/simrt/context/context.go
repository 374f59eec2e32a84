// Package context is the simulated context.
package context

import (
	rc "context"
	"errors"
	"time"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

var Canceled = rc.Canceled
var DeadlineExceeded = rc.DeadlineExceeded

type Context interface {
	Deadline() (time.Time, bool)
	Done() *core.Chan[struct{}]
	Err() error
	Value(any) any
}
type CancelFunc func()
type CancelCauseFunc func(error)
type ctx struct {
	parent   Context
	done     *core.Chan[struct{}]
	err      error
	cause    error
	key, val any
	deadline int64
	has      bool
	kids     []*ctx
	timer    interface{ Stop() bool }
}

func Background() Context { return &ctx{} }
func TODO() Context       { return &ctx{} }
func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return time.Unix(0, core.S.Epoch+c.deadline).UTC(), true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}
func (c *ctx) Done() *core.Chan[struct{}] {
	if c.done != nil {
		return c.done
	}
	if c.parent != nil {
		return c.parent.Done()
	}
	return nil
}
func (c *ctx) Err() error {
	if c.done != nil {
		return c.err
	}
	if c.parent != nil {
		return c.parent.Err()
	}
	return nil
}
func (c *ctx) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}
func owner(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok || c == nil {
			return nil
		}
		if c.done != nil {
			return c
		}
		if c.parent == nil {
			return nil
		}
		p = c.parent
	}
}
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	if c.timer != nil {
		c.timer.Stop()
	}
	c.done.Close()
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}
func newCtx(p Context) *ctx {
	c := &ctx{parent: p, done: core.MakeChan[struct{}](0)}
	if o := owner(p); o != nil {
		if o.err != nil {
			c.cancel(o.err, o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	}
	return c
}
func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { core.Point(); c.cancel(Canceled, Canceled) }
}
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) { core.Point(); c.cancel(Canceled, e) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c := newCtx(p)
	c.has, c.deadline = true, core.Now()+int64(d)
	if t, ok := p.Deadline(); ok && t.UnixNano()-core.S.Epoch < c.deadline {
		c.deadline = t.UnixNano() - core.S.Epoch
	}
	if c.err == nil {
		c.timer = core.At(c.deadline-core.Now(), func() { c.cancel(DeadlineExceeded, DeadlineExceeded) })
	}
	return c, func() { core.Point(); c.cancel(Canceled, Canceled) }
}
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(p, time.Duration(t.UnixNano()-core.S.Epoch-core.Now()))
}
func WithValue(p Context, k, v any) Context { return &ctx{parent: p, key: k, val: v} }
func WithoutCancel(p Context) Context       { return &ctx{key: nocancel{}, val: p} }

type nocancel struct{}

func Cause(c Context) error {
	if o := owner(c); o != nil {
		return o.cause
	}
	return nil
}

var _ = errors.New

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	c, f := WithTimeout(p, d)
	return c, f
}
func WithDeadlineCause(p Context, t time.Time, cause error) (Context, CancelFunc) {
	return WithDeadline(p, t)
}

// AfterFunc runs f in a task of its own once p is done.
func AfterFunc(p Context, f func()) func() bool {
	stopped, started := false, false
	d := p.Done()
	if d != nil {
		core.Go(func() {
			d.Recv()
			if !stopped {
				started = true
				f()
			}
		})
	}
	return func() bool { core.Point(); was := !stopped && !started; stopped = true; return was }
}
