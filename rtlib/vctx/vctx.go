// Package vctx implements the contract of the context package in a form the
// executor can encode: a cancellation takes effect in one atomic step for the
// whole tree. The native replay uses the same code, so that a schedule found
// by the solver has the same scheduling points.
package vctx

import (
	"context"
	"time"

	"github.com/gostdlib/concurrency/zzverif/rt"
)

type Context = context.Context
type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type node struct {
	parent   *node          // nearest cancellable ancestor
	pctx     context.Context // parent context, for values
	done     chan struct{}
	err      error
	cause    error
	key, val any
	isVal    bool
	noCancel bool
	hasDl    bool
	dl       time.Time
	kids     *kid
	after    func()
}

type kid struct {
	n    *node
	next *kid
}

type background struct{ x int }

func (*background) Deadline() (time.Time, bool) { return time.Time{}, false }
func (*background) Done() <-chan struct{}       { return nil }
func (*background) Err() error                  { return nil }
func (*background) Value(key any) any           { return nil }

var bg = &background{}
var todo = &background{}

func Background() context.Context {
	if bg == nil {
		bg = &background{}
	}
	return bg
}
func TODO() context.Context { return Background() }

func (n *node) Deadline() (time.Time, bool) {
	if n.hasDl {
		return n.dl, true
	}
	if n.pctx != nil && !n.noCancel {
		return n.pctx.Deadline()
	}
	return time.Time{}, false
}

func (n *node) Done() <-chan struct{} {
	if n.noCancel {
		return nil
	}
	if n.isVal {
		return n.pctx.Done()
	}
	return n.done
}

func (n *node) Err() error {
	if n.noCancel {
		return nil
	}
	if n.isVal {
		return n.pctx.Err()
	}
	return ctxErr(n)
}

func (n *node) Value(key any) any {
	if n.isVal && n.key == key {
		return n.val
	}
	if n.pctx == nil {
		return nil
	}
	return n.pctx.Value(key)
}

func ctxErr(n *node) error {
	rt.Point("vctx.ctxErr")
	rt.Lock()
	err := n.err
	rt.Unlock()
	return err
}

// ctxCancel cancels n and its descendants in one step.
func ctxCancel(n *node, err, cause error) {
	rt.Point("vctx.ctxCancel")
	rt.Lock()
	cancelTree(n, err, cause)
	rt.Unlock()
}

func cancelTree(n *node, err, cause error) {
	if n.err != nil {
		return
	}
	n.err = err
	n.cause = cause
	close(n.done)
	if n.after != nil {
		f := n.after
		n.after = nil
		rt.Go(f)
	}
	for k := n.kids; k != nil; k = k.next {
		cancelTree(k.n, err, cause)
	}
	n.kids = nil
}

// ctxPropagate hangs n under its parent, or cancels it if the parent is.
func ctxPropagate(n *node) {
	rt.Point("vctx.ctxPropagate")
	rt.Lock()
	p := n.parent
	if p != nil {
		if p.err != nil {
			cancelTree(n, p.err, p.cause)
		} else {
			p.kids = &kid{n: n, next: p.kids}
		}
	}
	rt.Unlock()
}

// nearest finds the closest cancellable ancestor.
func nearest(c context.Context) *node {
	for {
		n, ok := c.(*node)
		if !ok {
			return nil
		}
		if n.noCancel {
			return nil
		}
		if !n.isVal {
			return n
		}
		c = n.pctx
	}
}

func newNode(parent context.Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{pctx: parent, done: make(chan struct{}), parent: nearest(parent)}
	if n.parent != nil {
		ctxPropagate(n)
	}
	return n
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	n := newNode(parent)
	return n, func() { ctxCancel(n, context.Canceled, context.Canceled) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	n := newNode(parent)
	return n, func(cause error) {
		if cause == nil {
			cause = context.Canceled
		}
		ctxCancel(n, context.Canceled, cause)
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Time{})
}

// WithDeadline expires at an arbitrary moment.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	n := newNode(parent)
	n.hasDl = true
	n.dl = d
	rt.Go(func() { timer(n) })
	return n, func() { ctxCancel(n, context.Canceled, context.Canceled) }
}

func timer(n *node) {
	rt.Model()
	ctxCancel(n, context.DeadlineExceeded, context.DeadlineExceeded)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &node{pctx: parent, isVal: true, key: key, val: val}
}

func WithoutCancel(parent context.Context) context.Context {
	return &node{pctx: parent, noCancel: true}
}

func Cause(c context.Context) error {
	n := nearest(c)
	if n == nil {
		return c.Err()
	}
	if ctxErr(n) == nil {
		return nil
	}
	return n.cause
}

func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	n := newNodeAfter(ctx, f)
	return func() bool { return ctxStop(n) }
}

func newNodeAfter(parent context.Context, f func()) *node {
	n := &node{pctx: parent, done: make(chan struct{}), parent: nearest(parent), after: f}
	if n.parent != nil {
		ctxPropagate(n)
	}
	return n
}

func ctxStop(n *node) bool {
	rt.Point("vctx.ctxStop")
	rt.Lock()
	r := n.err == nil
	if r {
		n.after = nil
		n.err = context.Canceled
	}
	rt.Unlock()
	return r
}
