// Package vtime gives the time functions an arbitrary, non-decreasing clock
// and timers that fire at arbitrary moments.
package vtime

import (
	"time"

	"github.com/gostdlib/concurrency/zzverif/rt"
)

func Now() time.Time { return rt.MkTime(rt.Clock()) }

func Since(t time.Time) time.Duration { return time.Duration(rt.Clock() - rt.TimeNs(t)) }
func Until(t time.Time) time.Duration { return time.Duration(rt.TimeNs(t) - rt.Clock()) }

// the methods of time.Time, used by the executor only
func TimeSub(t, u time.Time) time.Duration { return time.Duration(rt.TimeNs(t) - rt.TimeNs(u)) }
func TimeAdd(t time.Time, d time.Duration) time.Time {
	return rt.MkTime(rt.TimeNs(t) + int64(d))
}
func TimeBefore(t, u time.Time) bool { return rt.TimeNs(t) < rt.TimeNs(u) }
func TimeAfter(t, u time.Time) bool  { return rt.TimeNs(t) > rt.TimeNs(u) }
func TimeEqual(t, u time.Time) bool  { return rt.TimeNs(t) == rt.TimeNs(u) }
func TimeIsZero(t time.Time) bool    { return rt.TimeNs(t) == 0 }
func TimeUnixNano(t time.Time) int64 { return rt.TimeNs(t) }
func TimeUnix(t time.Time) int64     { return rt.TimeNs(t) / 1000000000 }
func TimeCompare(t, u time.Time) int {
	a, b := rt.TimeNs(t), rt.TimeNs(u)
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// Ticker is the ticker of the native replay.
type Ticker struct {
	C <-chan time.Time
}

func (t *Ticker) Reset(d time.Duration) {}
func (t *Ticker) Stop()                 {}

// Timer is the timer of the native replay.
type Timer struct {
	C <-chan time.Time
}

func (t *Timer) Reset(d time.Duration) bool { return true }
func (t *Timer) Stop() bool                 { return true }

// tick sends a bounded number of ticks at arbitrary moments.
func tick(c chan time.Time, n int) {
	rt.Model()
	for i := 0; i < n; i++ {
		rt.Yield()
		select {
		case c <- time.Time{}:
		default:
		}
	}
}

func fire(f func()) {
	rt.Model()
	rt.Yield()
	f()
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	go tick(c, rt.Param("ticks", 1))
	return &Ticker{C: c}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	go tick(c, 1)
	return &Timer{C: c}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go tick(c, 1)
	return c
}

func AfterFunc(d time.Duration, f func()) *Timer {
	go fire(f)
	return &Timer{}
}

// Sleep is a scheduling point.
func Sleep(d time.Duration) { rt.Yield() }

// ---- the same with the standard types, for the executor

func EngNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	go tick(c, rt.Param("ticks", 1))
	return &time.Ticker{C: c}
}

func EngNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	go tick(c, 1)
	return &time.Timer{C: c}
}

func EngAfterFunc(d time.Duration, f func()) *time.Timer {
	go fire(f)
	return &time.Timer{}
}
