// Package rt is the interface between a harness and the machinery: under the
// executor its functions are primitives, in a native replay they take their
// values and the schedule from a file.
package rt

import "time"

func Bool(name string) bool              { return nBool(name) }
func Int(name string, lo, hi int) int    { return nInt(name, lo, hi) }
func String(name string, max int) string { return nString(name, max) }
func Param(name string, def int) int     { return nParam(name, def) }
func Assert(ok bool, msg string)         { nAssert(ok, msg) }
func Assume(ok bool)                     { nAssume(ok) }
func Cover(name string)                  { nCover(name) }
func Fatal(msg string)                   { nAssert(false, msg) }
func Stop()                              { nStop() }
func NoLeak()                            { nNoLeak() }
func Model()                             { nModel() }
func Yield()                             { Point("yield") }
func TimeNs(t time.Time) int64           { return nTimeNs(t) }
func MkTime(ns int64) time.Time          { return nMkTime(ns) }
func Clock() int64                       { return nClock() }
func Advance(d int)                      {}
func Point(name string)                  { nPoint(name) }
func Lock()                              { nLock() }
func Unlock()                            { nUnlock() }

// Atomic runs f in one step.
func Atomic(f func()) {
	Point("rt.Atomic")
	Lock()
	f()
	Unlock()
}
