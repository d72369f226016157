// Package context stands in for the standard package in instrumented code.
package context

import (
	"context"
	"time"

	"verif/simrt"
	simtime "verif/simrt/time"
)

// Types that carry no behaviour of their own.
type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

// Errors.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Background returns the empty context.
func Background() Context { return context.Background() }

// TODO returns the empty context.
func TODO() Context { return context.TODO() }

// WithValue returns a copy of parent with a value.
func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

// WithoutCancel returns a copy of parent that is not canceled with it.
func WithoutCancel(parent Context) Context { return without{context.WithoutCancel(parent)} }

type without struct{ Context }

// Value implements Context.
func (w without) Value(key any) any {
	if _, ok := key.(selfKey); ok {
		return nil
	}
	return w.Context.Value(key)
}

type selfKey struct{}

// ctx is a context that can be canceled.
type ctx struct {
	parent   Context
	up       *ctx // nearest such ancestor
	done     chan struct{}
	deadline time.Time
	limited  bool

	mu       simrt.Mutex
	err      error
	cause    error
	children []*ctx
	after    func() // run in its own goroutine when canceled
	timer    *simtime.Timer
}

// Deadline implements Context.
func (c *ctx) Deadline() (time.Time, bool) {
	if c.limited {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

// Done implements Context.
func (c *ctx) Done() <-chan struct{} { return c.done }

// Err implements Context.
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// Value implements Context.
func (c *ctx) Value(key any) any {
	if _, ok := key.(selfKey); ok {
		return c
	}
	return c.parent.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	kids := c.children
	c.children = nil
	simrt.Close(c.done)
	timer := c.timer
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if timer != nil {
		timer.Stop()
	}
	if c.up != nil {
		c.up.remove(c)
	}
	if c.after != nil {
		simrt.Go(c.after)
	}
}

func (c *ctx) remove(k *ctx) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, x := range c.children {
		if x == k {
			c.children = append(c.children[:i:i], c.children[i+1:]...)
			return
		}
	}
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	up, _ := parent.Value(selfKey{}).(*ctx)
	if up == nil || up.Done() != parent.Done() { // of another making
		simrt.Go(func() {
			if i, _, _ := simrt.Select(false, simrt.CaseRecv(parent.Done()), simrt.CaseRecv((<-chan struct{})(c.done))); i == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
		return c
	}
	up.mu.Lock()
	err, cause := up.err, up.cause
	if err == nil {
		c.up = up
		up.children = append(up.children, c)
	}
	up.mu.Unlock()
	if err != nil {
		c.cancel(err, cause)
	}
	return c
}

// WithCancel returns a copy of parent that can be canceled.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

// WithCancelCause returns a copy of parent that can be canceled with a cause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

// Cause returns why c was canceled.
func Cause(c Context) error {
	if x, ok := c.Value(selfKey{}).(*ctx); ok {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.cause
	}
	return context.Cause(c)
}

// WithDeadline returns a copy of parent that is canceled at a time.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeout returns a copy of parent that is canceled after a time.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}

// WithTimeoutCause returns a copy of parent that is canceled after a time.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

// WithDeadlineCause returns a copy of parent that is canceled at a time.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.limited = d, true
		if left := simtime.Until(d); left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.mu.Lock()
			if c.err == nil {
				c.timer = simtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
			}
			c.mu.Unlock()
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

// AfterFunc runs f in its own goroutine once parent is canceled.
func AfterFunc(parent Context, f func()) (stop func() bool) {
	stopped := false
	var mu simrt.Mutex
	after := func() {
		mu.Lock()
		run := !stopped
		stopped = true
		mu.Unlock()
		if run {
			f()
		}
	}
	d := derive(parent)
	d.mu.Lock()
	if d.err == nil {
		d.after = after
		d.mu.Unlock()
	} else {
		d.mu.Unlock()
		simrt.Go(after)
	}
	return func() bool {
		mu.Lock()
		was := stopped
		stopped = true
		mu.Unlock()
		if !was {
			d.cancel(Canceled, nil)
		}
		return !was
	}
}
