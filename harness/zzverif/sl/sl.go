// Package sl has the harnesses for slices.Access (C13, C14, C18).
package sl

import (
	"context"
	"errors"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

type E struct{ n int }

func (e *E) Error() string { return "e" }

// mkPool makes the pool given to Access; kind 0 is none.
func mkPool() (goroutines.Pool, goroutines.SubmitOption) {
	size := rt.Param("size", 1)
	switch rt.Param("pool", 0) {
	case 1:
		p, err := limited.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		occupy(p)
		return p, limited.NonBlocking()
	case 2:
		p, err := pooled.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		occupy(p)
		return p, pooled.NonBlocking()
	}
	return nil, nil
}

// release ends the job of somebody else that occupies one slot of the pool.
var release chan bool

func occupy(p goroutines.Pool) {
	if rt.Param("foreign", 0) == 0 {
		return
	}
	release = make(chan bool)
	end := release
	rt.Assert(p.Submit(context.Background(), func(context.Context) { <-end }) == nil, "Submit of a valid job failed")
}

func usable(p goroutines.Pool) {
	if p == nil {
		return
	}
	if release != nil {
		close(release)
	}
	ran := false
	rt.Assert(p.Submit(tr.Background(), func(context.Context) { ran = true }) == nil, "the pool is not usable after the call")
	p.Wait()
	rt.Assert(ran, "the pool is not usable after the call")
}

// Visit (C13): no stop on error.
func Visit() {
	n := rt.Param("len", 3)
	pool, nb := mkPool()
	s := make([]int, n)
	for i := range s {
		s[i] = 10 * (i + 1)
	}
	calls := make([]int, n)
	fin := make([]int, n)
	errs := make([]*E, n)
	mods := make([]int, n)
	fail := make([]bool, n)
	var opts []slices.SliceOption
	if pool != nil && rt.Param("nb", 0) == 1 {
		opts = append(opts, slices.WithPoolOptions(pool, nb))
	} else if pool != nil {
		opts = append(opts, slices.WithPoolOptions(pool))
	}
	err := slices.Access(tr.Background(), s, func(_ context.Context, i int, v int, m slices.Modifier[int]) error {
		rt.Assert(i >= 0 && i < n, "the accessor got an index outside the slice")
		rt.Assert(v == 10*(i+1), "the accessor did not get the value at its index")
		calls[i]++
		if rt.Param("quiet", 0) == 0 && rt.Bool("modify") {
			mods[i] = 1000 + i
			m(1000 + i)
			if rt.Param("twice", 0) == 1 {
				m(2000 + i)
				mods[i] = 2000 + i
			}
		}
		if rt.Param("quiet", 0) == 0 && rt.Bool("fail") {
			fail[i] = true
			errs[i] = &E{i}
			fin[i]++
			return errs[i]
		}
		fin[i]++
		return nil
	}, opts...)
	bad := false
	for i := 0; i < n; i++ {
		rt.Assert(calls[i] == 1, "the accessor was not called exactly once for an element")
		rt.Assert(fin[i] == 1, "Access returned before an accessor had returned")
		want := 10 * (i + 1)
		if mods[i] != 0 {
			want = mods[i]
		}
		rt.Assert(s[i] == want, "an element does not have the value its modifier call gave it")
		if fail[i] {
			bad = true
			rt.Assert(errors.Is(err, errs[i]), "Access does not report an accessor error")
		}
	}
	rt.Assert((err != nil) == bad, "Access does not return nil exactly if no accessor failed")
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	if bad {
		rt.Cover("failed")
	} else {
		rt.Cover("none failed")
	}
}

// Stop (C14): stop on error, or a context that is cancelled at any moment.
func Stop() {
	n := rt.Param("len", 3)
	pool, _ := mkPool()
	s := make([]int, n)
	ctx, cancel := context.WithCancel(tr.Background())
	cancelled, returned, failedOne := false, false, false
	var opts []slices.SliceOption
	if pool != nil {
		opts = append(opts, slices.WithPoolOptions(pool))
	}
	stop := rt.Param("stop", 1) == 1
	if stop {
		opts = append(opts, slices.WithStopOnErr())
	}
	if rt.Param("cancel", 0) == 1 {
		go func() {
			rt.Model()
			rt.Atomic(func() { cancelled = true })
			cancel()
		}()
	}
	if rt.Param("cancel", 0) == 2 {
		cancelled = true
		cancel()
	}
	serial := rt.Param("serial", 0) == 1 // the pool runs one accessor at a time
	calls := make([]int, n)
	fin := make([]int, n)
	errs := make([]*E, n)
	active := 0
	err := slices.Access(ctx, s, func(c context.Context, i int, v int, m slices.Modifier[int]) error {
		rt.Atomic(func() {
			rt.Assert(!returned, "an accessor started after Access had returned")
			if serial {
				rt.Assert(!failedOne || !stop, "an accessor started after another one had failed")
			}
			active++
			calls[i]++
		})
		fail := rt.Bool("fail")
		if rt.Param("block", 0) == 1 && !fail && n > 1 {
			<-c.Done() // until some accessor fails or the context is cancelled
			rt.Atomic(func() { active-- })
			return c.Err()
		}
		rt.Atomic(func() {
			active--
			if fail {
				failedOne = true
				errs[i] = &E{i}
			} else {
				fin[i]++
			}
		})
		if fail {
			return errs[i]
		}
		return nil
	}, opts...)
	rt.Atomic(func() {
		returned = true
		rt.Assert(active == 0, "an accessor is still running after Access has returned")
	})
	all, bad := true, false
	is := false
	for i := 0; i < n; i++ {
		rt.Assert(calls[i] <= 1, "the accessor was called twice for an element")
		all = all && fin[i] == 1
		if errs[i] != nil {
			bad = true
			is = is || errors.Is(err, errs[i])
		}
	}
	if bad {
		rt.Assert(is, "Access was stopped by an accessor error and does not report it")
		rt.Cover("stopped by an error")
	} else if !all {
		rt.Assert(cancelled, "Access did not process every element")
		rt.Assert(err != nil, "Access was cancelled before every element was processed and returned nil")
		rt.Cover("cancelled")
	} else {
		rt.Assert(err == nil || cancelled, "Access returned an error although every element was processed")
		rt.Cover("complete")
	}
	rt.Yield() // a late accessor would run now
	rt.Atomic(func() { rt.Assert(active == 0, "an accessor is running after Access has returned") })
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// caller is the Caller option of the pool kind in use.
func caller() goroutines.SubmitOption {
	if rt.Param("pool", 0) == 1 {
		return limited.Caller("x")
	}
	return pooled.Caller("x")
}

// Options (C18)
func Options() {
	n := rt.Param("len", 3)
	size := rt.Param("size", 1)
	pool, nb := mkPool()
	s := make([]int, n)
	var opts []slices.SliceOption
	nonblock := false
	if rt.Param("nb", 0) >= 1 {
		nonblock = true
		switch rt.Param("nb", 0) {
		case 1:
			opts = append(opts, slices.WithPoolOptions(pool, nb))
		case 2:
			opts = append(opts, slices.WithPoolOptions(pool, caller(), nb))
		case 3:
			opts = append(opts, slices.WithPoolOptions(pool, nb, caller()))
		}
	} else {
		opts = append(opts, slices.WithPoolOptions(pool))
	}
	if rt.Bool("stop on error") {
		opts = append(opts, slices.WithStopOnErr())
	}
	cur := 0
	meet := make(chan bool)
	arrived := 0
	err := slices.Access(tr.Background(), s, func(_ context.Context, i int, v int, m slices.Modifier[int]) error {
		rt.Assert(pool.Running() >= 1, "an accessor does not run in the given pool")
		last := false
		rt.Atomic(func() {
			cur++
			arrived++
			last = arrived == n
			if !nonblock {
				rt.Assert(cur <= size, "more accessors run at the same time than the given pool allows")
			}
		})
		if nonblock { // all accessors have to run at the same time
			if last {
				close(meet)
			}
			<-meet
		}
		rt.Atomic(func() { cur-- })
		return nil
	}, opts...)
	rt.Assert(err == nil, "Access with valid options failed")
	rt.Assert(arrived == n, "the accessor was not called exactly once for every element")
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// NoPool (C18): nothing is left behind.
func NoPool() {
	rt.NoLeak()
	n := rt.Param("len", 2)
	s := make([]int, n)
	var opts []slices.SliceOption
	if rt.Bool("stop on error") {
		opts = append(opts, slices.WithStopOnErr())
	}
	calls := 0
	fail := false
	ctx := tr.Background()
	if rt.Param("cancelled", 0) == 1 && rt.Bool("cancelled") {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	err := slices.Access(ctx, s, func(context.Context, int, int, slices.Modifier[int]) error {
		rt.Atomic(func() { calls++ })
		if rt.Bool("fail") {
			rt.Atomic(func() { fail = true })
			return &E{}
		}
		return nil
	}, opts...)
	if n == 0 {
		rt.Assert(err == nil && calls == 0, "Access of an empty slice did something")
	} else if fail {
		rt.Assert(err != nil, "Access does not report an accessor error")
		rt.Cover("failed")
	}
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}
