package rt

import "time"

// The executor never looks into these.

func nBool(string) bool            { return false }
func nInt(_ string, lo, _ int) int { return lo }
func nString(string, int) string   { return "" }
func nParam(_ string, d int) int   { return d }
func nAssert(ok bool, msg string)  {}
func nAssume(bool)                 {}
func nCover(string)                {}
func nStop()                       {}
func nNoLeak()                     {}
func nModel()                      {}
func nTimeNs(t time.Time) int64    { return 0 }
func nMkTime(ns int64) time.Time   { return time.Time{} }
func nClock() int64                { return 0 }
func nPoint(string)                {}
func nLock()                       {}
func nUnlock()                     {}

// Go starts a goroutine of the environment models.
func Go(f func()) { go f() }
