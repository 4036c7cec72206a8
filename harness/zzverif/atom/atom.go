// Package atom has the harnesses for atomics.RWValue (C19, C20).
package atom

import (
	"errors"

	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/zzverif/rt"
)

// V has several words: a mixture of two values is visible.
type V struct {
	a, b int
	p    *int
}

func mk(n int) V { return V{a: n, b: n, p: &n} }

func whole(v V) {
	if v.p == nil {
		rt.Assert(v.a == 0 && v.b == 0, "Load returned a mixture of values")
		return
	}
	rt.Assert(v.a == v.b && *v.p == v.a, "Load returned a mixture of values")
}

var errNo = errors.New("no")

// write makes the i-th write of a goroutine: a Store, a LoadReplace or a
// LoadReplace that fails.
func Loads() {
	w := rt.Param("writers", 1)
	n := rt.Param("writes", 2)
	readers := rt.Param("readers", 1)
	loads := rt.Param("loads", 2)
	r := &atomics.RWValue[V]{}
	// per writer: values w*100+1.. are written in order
	begun := make([]int, w)
	ended := make([]int, w)
	done := make(chan bool, w+readers)
	for i := 0; i < w; i++ {
		go func() {
			for j := 1; j <= n; j++ {
				rt.Atomic(func() { begun[i] = j })
				switch rt.Int("operation", 0, 1) {
				case 0:
					r.Store(mk(i*100 + j))
				case 1:
					err := r.LoadReplace(func(old V) (V, error) {
						whole(old)
						if rt.Param("fails", 0) == 1 && rt.Bool("fail") {
							return mk(-1), errNo
						}
						return mk(i*100 + j), nil
					})
					if err != nil {
						r.Store(mk(i*100 + j))
					}
				}
				rt.Atomic(func() { ended[i] = j })
			}
			done <- true
		}()
	}
	check := func(v V, before []int, low V) {
		whole(v)
		if v.p == nil {
			for i := range before {
				rt.Assert(before[i] == 0, "Load returned the zero value although a write had returned")
			}
			return
		}
		rt.Assert(v.a > 0, "Load returned a value that was never stored")
		i := v.a / 100
		rt.Assert(i < w, "Load returned a value that was never stored")
		rt.Atomic(func() { rt.Assert(v.a%100 <= begun[i], "Load returned a value that was not yet stored") })
		rt.Assert(v.a%100 >= before[i], "Load returned an older value although a later write had returned")
		if low.p != nil && low.a/100 == i {
			rt.Assert(v.a >= low.a, "a later Load returned an older value")
		}
	}
	for k := 0; k < readers; k++ {
		go func() {
			var low V
			for j := 0; j < loads; j++ {
				before := make([]int, w)
				rt.Atomic(func() { copy(before, ended) })
				v := r.Load()
				check(v, before, low)
				low = v
			}
			done <- true
		}()
	}
	for i := 0; i < w+readers; i++ {
		<-done
	}
	v := r.Load()
	whole(v)
	rt.Assert(v.p != nil && v.a%100 == n, "Load does not return the last value that was stored")
	rt.Cover("end")
}

// NoBlock: Load returns while a replacer runs, and returns the old value.
func NoBlock() {
	r := &atomics.RWValue[V]{}
	want := 0
	if rt.Bool("stored") {
		r.Store(mk(7))
		want = 7
	}
	loaded := make(chan bool)
	running := make(chan bool)
	done := make(chan bool)
	fail := rt.Bool("fail")
	go func() {
		err := r.LoadReplace(func(old V) (V, error) {
			rt.Assert(old.a == want, "the replacer did not get the current value")
			running <- true
			<-loaded
			if fail {
				return mk(5), errNo
			}
			return mk(9), nil
		})
		rt.Assert((err == errNo) == fail, "LoadReplace did not return the error of its replacer")
		done <- true
	}()
	<-running
	other := make(chan bool)
	if rt.Param("writer", 0) == 1 {
		go func() { // a Store that has to wait must not stop the Load either
			r.Store(mk(11))
			close(other)
		}()
	} else {
		close(other)
	}
	rt.Yield()
	v := r.Load()
	whole(v)
	rt.Assert(v.a == want || rt.Param("writer", 0) == 1 && v.a == 11, "Load during a replacer does not return the old value")
	loaded <- true
	<-done
	<-other
	v = r.Load()
	whole(v)
	switch {
	case rt.Param("writer", 0) == 1:
		rt.Assert(v.a == 11, "a Store that waited for a LoadReplace was lost")
	case fail:
		rt.Assert(v.a == want, "a LoadReplace whose replacer failed changed the value")
	default:
		rt.Assert(v.a == 9, "the value of a LoadReplace was lost")
	}
	rt.Cover("end")
}

// Replace: concurrent writes take effect one at a time.
func Replace() {
	w := rt.Param("writers", 2)
	n := rt.Param("writes", 1)
	stores := rt.Param("stores", 0)
	r := &atomics.RWValue[int]{}
	base := 0
	if rt.Bool("stored") {
		base = 100
		r.Store(base)
	}
	okN := 0
	inside := 0
	done := make(chan bool, w+1)
	storeDone := false
	for i := 0; i < w; i++ {
		go func() {
			for j := 0; j < n; j++ {
				calls := 0
				fail := rt.Bool("fail")
				err := r.LoadReplace(func(old int) (int, error) {
					rt.Atomic(func() {
						inside++
						rt.Assert(inside == 1, "two replacers run at the same time")
					})
					calls++
					rt.Atomic(func() { inside-- })
					if fail {
						return 12345, errNo
					}
					return old + 1, nil
				})
				rt.Assert(calls == 1, "the replacer was not called exactly once")
				rt.Assert((err == errNo) == fail && (err == nil) == !fail, "LoadReplace did not return the error of its replacer")
				if !fail {
					rt.Atomic(func() { okN++ })
				}
			}
			done <- true
		}()
	}
	total := w
	if stores > 0 {
		total++
		go func() {
			r.Store(1000)
			rt.Atomic(func() { storeDone = true })
			done <- true
		}()
	}
	for i := 0; i < total; i++ {
		<-done
	}
	v := r.Load()
	if stores > 0 {
		rt.Assert(storeDone && v >= 1000 && v <= 1000+okN, "a Store was lost, or an update made after it")
		if okN == 0 {
			rt.Assert(v == 1000, "a failed LoadReplace changed the value")
		}
	} else {
		rt.Assert(v == base+okN, "an update of a LoadReplace was lost or a failed one took effect")
	}
	rt.Cover("end")
}
