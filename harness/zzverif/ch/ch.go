// Package ch has the harnesses for chans.Access and chans.Modify (C15 to C18).
package ch

import (
	"context"
	"errors"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

type E struct{ n int }

func (e *E) Error() string { return "e" }

func mkPool() (goroutines.Pool, goroutines.SubmitOption) {
	size := rt.Param("size", 1)
	switch rt.Param("pool", 0) {
	case 1:
		p, err := limited.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		occupy(p)
		return p, limited.NonBlocking()
	case 2:
		p, err := pooled.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		occupy(p)
		return p, pooled.NonBlocking()
	}
	return nil, nil
}

// release ends the job of somebody else that occupies one slot of the pool.
var release chan bool

func occupy(p goroutines.Pool) {
	if rt.Param("foreign", 0) == 0 {
		return
	}
	release = make(chan bool)
	end := release
	rt.Assert(p.Submit(context.Background(), func(context.Context) { <-end }) == nil, "Submit of a valid job failed")
}

func options(pool goroutines.Pool) []chans.Option {
	var opts []chans.Option
	if pool != nil {
		opts = append(opts, chans.WithPoolOptions(pool))
	}
	return opts
}

func usable(p goroutines.Pool) {
	if p == nil {
		return
	}
	if release != nil {
		close(release)
	}
	ran := false
	rt.Assert(p.Submit(tr.Background(), func(context.Context) { ran = true }) == nil, "the pool is not usable after the call")
	p.Wait()
	rt.Assert(ran, "the pool is not usable after the call")
}

// feed sends 0..n-1 and closes the channel.
func feed(n int) chan int {
	input := make(chan int, rt.Param("buffer", 0))
	send := func() {
		for i := 0; i < n; i++ {
			input <- i
		}
		close(input)
	}
	if rt.Param("full", 0) == 1 {
		send() // everything waits in the buffer
	} else {
		go send()
	}
	return input
}

// outcome is what an accessor or modifier returns: 0 nil, 1 an error of its
// own, 2 or 3 a context error although the context is live.
func outcome() int {
	if rt.Param("ctxerrs", 0) == 1 {
		return rt.Int("outcome", 0, 3)
	}
	if rt.Param("quiet", 0) == 1 {
		return 0
	}
	if rt.Bool("fail") {
		return 1
	}
	return 0
}

// All (C15)
func All() {
	n := rt.Param("len", 3)
	pool, _ := mkPool()
	calls := make([]int, n+1)
	fin := make([]int, n+1)
	errs := make([]*E, n+1)
	outs := make([]int, n+1)
	err := chans.Access(tr.Background(), feed(n), func(_ context.Context, v int) error {
		rt.Assert(v >= 0 && v < n, "the accessor got a value that was not sent")
		v++
		calls[v]++
		rt.Yield()
		fin[v]++
		what := outcome()
		outs[v] = what
		switch what {
		case 1:
			errs[v] = &E{v}
			return errs[v]
		case 2:
			return context.Canceled
		case 3:
			return context.DeadlineExceeded
		}
		return nil
	}, options(pool)...)
	bad := false
	for v := 1; v <= n; v++ {
		rt.Assert(calls[v] == 1, "the accessor was not called exactly once for a value")
		rt.Assert(fin[v] == 1, "Access returned before an accessor had returned")
		bad = bad || outs[v] != 0
		if errs[v] != nil {
			rt.Assert(errors.Is(err, errs[v]), "Access does not report an accessor error")
		}
	}
	rt.Assert((err != nil) == bad, "Access does not return nil exactly if no accessor failed")
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	if bad {
		rt.Cover("failed")
	} else {
		rt.Cover("none failed")
	}
}

// Nil (C15, C17): nil channels.
func Nil() {
	rt.NoLeak()
	var in chan int
	err := chans.Access(tr.Background(), in, func(context.Context, int) error {
		rt.Fatal("the accessor was called although there is no input")
		return nil
	})
	rt.Assert(err == nil, "Access of a nil channel does not return nil")
	mod := func(context.Context, int) (int, error) {
		rt.Fatal("the modifier was called although a channel is nil")
		return 0, nil
	}
	out := make(chan chans.StreamResult[int], 1)
	live := make(chan int, 1)
	live <- 1
	rt.Assert(chans.Modify(tr.Background(), in, out, mod) != nil, "Modify of a nil input returns no error")
	rt.Assert(chans.Modify(tr.Background(), live, nil, mod) != nil, "Modify of a nil output returns no error")
	rt.Assert(chans.Modify(tr.Background(), in, nil, mod) != nil, "Modify of nil channels returns no error")
	rt.Assert(len(live) == 1, "Modify of a nil output took a value from its input")
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// Stop (C16): the input may stay idle and open.
func Stop() {
	n := rt.Param("len", 2)
	pool, _ := mkPool()
	stop := rt.Param("stop", 0) == 1
	cancels := rt.Param("cancel", 1)
	ctx, cancel := context.WithCancel(tr.Background())
	cancelled, returned, failedOne, closed := false, false, false, false
	opts := options(pool)
	if stop {
		opts = append(opts, chans.WithStopOnErr())
	}
	if cancels == 1 {
		go func() {
			rt.Model()
			rt.Atomic(func() { cancelled = true })
			cancel()
		}()
	}
	input := make(chan int, n)
	sent := 0
	go func() {
		rt.Model()
		for i := 1; i <= n; i++ {
			input <- i
			rt.Atomic(func() { sent++ })
		}
		if rt.Param("idle", 0) == 0 && rt.Bool("close") {
			closed = true
			close(input)
		}
	}()
	serial := rt.Param("serial", 0) == 1
	mustFail := rt.Param("mustfail", 0)
	calls := make([]int, n+1)
	fin := make([]int, n+1)
	errs := make([]*E, n+1)
	active := 0
	err := chans.Access(ctx, input, func(c context.Context, v int) error {
		rt.Atomic(func() {
			rt.Assert(!returned, "an accessor started after Access had returned")
			if serial && stop {
				rt.Assert(!failedOne, "an accessor started after another one had failed")
			}
			active++
			calls[v]++
		})
		fail := mustFail == v || mustFail == 0 && rt.Bool("fail")
		rt.Atomic(func() {
			active--
			if fail {
				failedOne = true
				errs[v] = &E{v}
			} else {
				fin[v]++
			}
		})
		if fail {
			return errs[v]
		}
		return nil
	}, opts...)
	rt.Atomic(func() {
		returned = true
		rt.Assert(active == 0, "an accessor is still running after Access has returned")
	})
	bad, is, all := false, false, true
	for v := 1; v <= n; v++ {
		rt.Assert(calls[v] <= 1, "the accessor was called twice for a value")
		all = all && fin[v] == 1
		if errs[v] != nil {
			bad = true
			is = is || errors.Is(err, errs[v])
		}
	}
	if bad {
		rt.Assert(is, "an accessor failed and Access does not report its error")
		rt.Cover("failed")
	} else if !closed || !all {
		rt.Assert(cancelled, "Access returned although its input is open and nothing has stopped it")
		rt.Assert(err != nil, "Access was cancelled before all work was complete and returned nil")
		rt.Cover("cancelled")
	} else {
		rt.Assert(err == nil || cancelled, "Access returned an error although every value was processed")
		rt.Cover("complete")
	}
	rt.Yield()
	rt.Atomic(func() { rt.Assert(active == 0, "an accessor is running after Access has returned") })
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// Modify (C17)
func Modify() {
	n := rt.Param("len", 2)
	pool, _ := mkPool()
	cancels := rt.Param("cancel", 0)
	ctx, cancel := context.WithCancel(tr.Background())
	cancelled := false
	opts := options(pool)
	stop := rt.Param("stop", 0) == 1
	if stop {
		opts = append(opts, chans.WithStopOnErr())
	}
	if cancels == 1 {
		go func() {
			rt.Model()
			rt.Atomic(func() { cancelled = true })
			cancel()
		}()
	}
	var input chan int
	if cancels == 1 || stop {
		// the sender must not be left behind
		input = make(chan int, n)
		for i := 0; i < n; i++ {
			input <- i
		}
		close(input)
	} else {
		input = feed(n)
	}
	output := make(chan chans.StreamResult[int], rt.Param("outbuffer", 0))
	errs := make([]*E, n+1)
	calls := make([]int, n+1)
	outs := make([]int, n+1)
	running := 0
	reader := rt.Param("reader", 1) // 0: nobody takes results
	var err error
	done := make(chan bool, 1)
	go func() {
		err = chans.Modify(ctx, input, output, func(_ context.Context, v int) (int, error) {
			v++
			rt.Atomic(func() { calls[v]++; running++ })
			what := outcome()
			rt.Atomic(func() {
				running--
				outs[v] = what
				if what == 1 {
					errs[v] = &E{v}
				}
			})
			switch what {
			case 1:
				return 0, errs[v]
			case 2:
				return 0, context.Canceled
			case 3:
				return 0, context.DeadlineExceeded
			}
			return 99 + v, nil // 100 for the value 0
		}, opts...)
		done <- true
	}()
	got := make([]int, n+1)
	closed := false
	if reader == 1 {
		for r := range output {
			if r.Err != nil {
				is := false
				// an unexplained context error belongs to any value that returned it
				for v := 1; v <= n; v++ {
					if !is && got[v] == 0 && (outs[v] == 2 && r.Err == context.Canceled || outs[v] == 3 && r.Err == context.DeadlineExceeded) {
						is = true
						got[v]++
					}
					if errs[v] != nil && r.Err == error(errs[v]) {
						is = true
						got[v]++
					}
				}
				rt.Assert(is, "a result has an error that no modifier returned")
			} else {
				rt.Assert(r.Value >= 100 && r.Value < 100+n, "a result has a value that no modifier returned")
				v := r.Value - 99
				rt.Assert(outs[v] == 0, "a result has a value although the modifier failed")
				got[v]++
			}
		}
		closed = true
		rt.Atomic(func() { rt.Assert(running == 0, "the output was closed while a modifier was running") })
		rt.Cover("drained")
	}
	<-done
	if !closed {
		rt.Assume(cancelled)
		// what is buffered may be taken, then the output must be closed
		for range output {
		}
	}
	bad, is, all := false, false, true
	for v := 1; v <= n; v++ {
		rt.Assert(calls[v] <= 1, "a modifier was called twice for a value")
		if reader == 1 {
			rt.Assert(got[v] <= 1 && got[v] <= calls[v], "a value yielded more than one result")
		}
		all = all && calls[v] == 1
		bad = bad || outs[v] != 0
		is = is || outs[v] >= 2 && err != nil
		if errs[v] != nil {
			is = is || errors.Is(err, errs[v])
			if !stop {
				rt.Assert(errors.Is(err, errs[v]), "Modify does not report a modifier error")
			}
		}
	}
	if bad {
		rt.Assert(is, "Modify was stopped by a modifier error and does not report it")
		rt.Cover("failed")
	}
	if !cancelled && !(stop && bad) {
		for v := 1; v <= n; v++ {
			rt.Assert(got[v] == 1, "a value did not yield exactly one result")
		}
		rt.Assert((err != nil) == bad, "Modify does not return nil exactly if no modifier failed")
		rt.Cover("complete")
	}
	if cancelled && !all && !bad {
		rt.Assert(err != nil, "Modify was cancelled before all work was complete and returned nil")
	}
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// caller is the Caller option of the pool kind in use.
func caller() goroutines.SubmitOption {
	if rt.Param("pool", 0) == 1 {
		return limited.Caller("x")
	}
	return pooled.Caller("x")
}

// Options (C18)
func Options() {
	n := rt.Param("len", 2)
	size := rt.Param("size", 1)
	pool, nb := mkPool()
	var opts []chans.Option
	nonblock := rt.Param("nb", 0) >= 1
	if rt.Param("nb", 0) == 2 {
		opts = append(opts, chans.WithPoolOptions(pool, caller(), nb))
	} else if rt.Param("nb", 0) == 3 {
		opts = append(opts, chans.WithPoolOptions(pool, nb, caller()))
	} else if nonblock {
		opts = append(opts, chans.WithPoolOptions(pool, nb))
	} else {
		opts = append(opts, chans.WithPoolOptions(pool))
	}
	if rt.Bool("stop on error") {
		opts = append(opts, chans.WithStopOnErr())
	}
	cur, arrived := 0, 0
	meet := make(chan bool)
	body := func() {
		rt.Assert(pool.Running() >= 1, "an accessor does not run in the given pool")
		last := false
		rt.Atomic(func() {
			cur++
			arrived++
			last = arrived == n
			if !nonblock {
				rt.Assert(cur <= size, "more accessors run at the same time than the given pool allows")
			}
		})
		if nonblock {
			if last {
				close(meet)
			}
			<-meet
		}
		rt.Atomic(func() { cur-- })
	}
	input := make(chan int, n)
	for i := 0; i < n; i++ {
		input <- i
	}
	close(input)
	var err error
	if rt.Param("modify", 0) == 1 {
		out := make(chan chans.StreamResult[int], n)
		err = chans.Modify(tr.Background(), input, out, func(_ context.Context, v int) (int, error) {
			body()
			return v, nil
		}, opts...)
		rt.Assert(len(out) == n, "a value did not yield exactly one result")
	} else {
		err = chans.Access(tr.Background(), input, func(context.Context, int) error {
			body()
			return nil
		}, opts...)
	}
	rt.Assert(err == nil, "the call failed with valid options")
	rt.Assert(arrived == n, "the accessor was not called exactly once for every value")
	usable(pool)
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}

// NoPool (C18): nothing is left behind.
func NoPool() {
	rt.NoLeak()
	n := rt.Param("len", 2)
	var opts []chans.Option
	if rt.Bool("stop on error") {
		opts = append(opts, chans.WithStopOnErr())
	}
	input := make(chan int, n)
	for i := 0; i < n; i++ {
		input <- i
	}
	ctx := tr.Background()
	if rt.Bool("cancelled") {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	} else {
		close(input)
	}
	fail := false
	acc := func() error {
		if rt.Bool("fail") {
			rt.Atomic(func() { fail = true })
			return &E{}
		}
		return nil
	}
	var err error
	if rt.Param("modify", 0) == 1 {
		out := make(chan chans.StreamResult[int], n)
		err = chans.Modify(ctx, input, out, func(context.Context, int) (int, error) { return 1, acc() }, opts...)
	} else {
		err = chans.Access(ctx, input, func(context.Context, int) error { return acc() }, opts...)
	}
	if fail {
		rt.Assert(err != nil, "an accessor error is not reported")
		rt.Cover("failed")
	}
	tr.Done("a span was not ended when the call returned")
	rt.Cover("end")
}
