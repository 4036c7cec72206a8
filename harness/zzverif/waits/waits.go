// Package waits has the harnesses for wait.Group (C09 to C12).
package waits

import (
	"context"
	"errors"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

type E struct{ n int }

func (e *E) Error() string { return "e" }

// mk makes a group: without pool, with a limited or with a pooled one.
func mk() (*wait.Group, goroutines.Pool) {
	g := &wait.Group{}
	size := rt.Param("size", 1)
	switch rt.Param("pool", 0) {
	case 1:
		p, err := limited.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		g.Pool = p
		if rt.Param("options", 0) == 1 {
			g.PoolOptions = []goroutines.SubmitOption{limited.NonBlocking()}
		}
	case 2:
		p, err := pooled.New("", size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		g.Pool = p
		if rt.Param("options", 0) == 1 {
			g.PoolOptions = []goroutines.SubmitOption{pooled.NonBlocking()}
		}
	}
	if g.Pool != nil && rt.Param("options", 0) == 2 {
		// the options of the other kind of pool
		if rt.Param("pool", 0) == 1 {
			g.PoolOptions = []goroutines.SubmitOption{pooled.NonBlocking()}
		} else {
			g.PoolOptions = []goroutines.SubmitOption{limited.NonBlocking()}
		}
	}
	return g, g.Pool
}

type key struct{}

// Barrier (C09): every function runs once, before Wait returns.
func Barrier() {
	g, pool := mk()
	// somebody else uses the pool and is done only after this group
	other := wait.Group{Pool: pool}
	release := make(chan bool)
	foreign := rt.Param("foreign", 0)
	for i := 0; i < foreign; i++ {
		other.Go(context.Background(), func(context.Context) error {
			<-release
			return &E{n: 7}
		})
	}
	n := rt.Param("funcs", 2)
	m := rt.Param("more", 0)
	nest := rt.Param("nest", 0)
	total := n + m + nest
	ran := make([]int, total)
	fin := make([]int, total)
	ctx, cancel := context.WithCancel(context.WithValue(tr.Background(), key{}, 1))
	cancelled := false
	stop := func() {
		rt.Atomic(func() { cancelled = true })
		cancel()
	}
	var grp *tr.Span
	fn := func(i int) wait.FuncCall {
		return func(c context.Context) error {
			rt.Assert(c.Value(key{}) == 1, "the function did not get its context")
			if pool != nil {
				rt.Assert(pool.Running() >= 1, "the function does not run in the pool of the group")
			}
			ran[i]++
			grp = tr.Func(c, grp)
			rt.Yield()
			fin[i]++
			return nil
		}
	}
	done := make(chan bool, 2)
	if m > 0 {
		go func() {
			for i := n; i < n+m; i++ {
				g.Go(ctx, fn(i))
			}
			done <- true
		}()
	} else {
		done <- true
	}
	if rt.Param("cancel", 0) == 1 {
		go func() {
			stop()
			done <- true
		}()
	} else {
		done <- true
	}
	for i := 0; i < n; i++ {
		f := fn(i)
		if i == 0 && nest > 0 {
			g.Go(ctx, func(c context.Context) error {
				for j := n + m; j < total; j++ {
					g.Go(ctx, fn(j)) // the function hands further ones to the group
				}
				return f(c)
			})
			continue
		}
		g.Go(ctx, f)
	}
	if m > 0 {
		<-done
		<-done
	}
	err := g.Wait(ctx)
	tr.Done("the span of a group was not ended when Wait returned")
	if foreign > 0 {
		rt.Assert(other.Running() == foreign, "Wait of one group changed another one")
		close(release)
		rt.Assert(other.Wait(context.Background()) != nil, "an error of one group is not reported by it")
	}
	skipped := 0
	for i := 0; i < total; i++ {
		rt.Assert(ran[i] <= 1, "a function ran twice")
		rt.Assert(ran[i] == fin[i], "Wait returned before a function had finished")
		if i < n+m || ran[0] == 1 {
			skipped += 1 - ran[i]
		}
	}
	if skipped > 0 {
		rt.Assert(cancelled, "a function did not run before Wait returned")
		rt.Assert(err != nil && errors.Is(err, context.Canceled), "a function was skipped and Wait does not report the context error")
		rt.Cover("skipped")
	} else {
		rt.Assert(err == nil, "Wait returned an error although every function ran and none failed")
		rt.Cover("all ran")
	}
	rt.Atomic(func() {}) // late calls would show now
	for i := 0; i < total; i++ {
		rt.Assert(ran[i] == fin[i], "a function started after Wait had returned")
	}
	rt.Cover("end")
}

// Errors (C10): which functions fail, and how, is up to the solver.
func Errors() {
	g, _ := mk()
	n := rt.Param("funcs", 2)
	ctx, cancel := context.WithCancel(tr.Background())
	cancelled := false
	own := make([]*E, n)
	what := make([]int, n) // 0 ok, 1 own error, 2 wrapped own, 3 Canceled, 4 DeadlineExceeded
	ret := make([]error, n)
	order := make([]int, n)
	k := 0
	for i := 0; i < n; i++ {
		own[i] = &E{n: i}
		what[i] = rt.Int("outcome", 0, rt.Param("outcomes", 1))
	}
	if rt.Param("cancel", 0) == 1 {
		go func() {
			rt.Model()
			rt.Atomic(func() { cancelled = true })
			cancel()
		}()
	}
	rejected := rt.Param("options", 0) == 2
	called := make([]bool, n)
	for i := 0; i < n; i++ {
		g.Go(ctx, func(context.Context) error {
			called[i] = true
			switch what[i] {
			case 1:
				ret[i] = own[i]
			case 2:
				ret[i] = errors.Join(own[i], context.Canceled)
			case 3:
				ret[i] = context.Canceled
			case 4:
				ret[i] = context.DeadlineExceeded
			}
			rt.Atomic(func() { k++; order[i] = k })
			return ret[i]
		})
	}
	err := g.Wait(ctx)
	tr.Done("the span of a group was not ended when Wait returned")
	bad, skipped := false, false
	for i := 0; i < n; i++ {
		if !called[i] {
			if !rejected {
				rt.Assert(cancelled, "a function was not called")
			}
			skipped = true
			continue
		}
		if ret[i] == nil {
			continue
		}
		bad = true
	}
	rt.Assert((err != nil) == (bad || skipped), "Wait does not return nil exactly if no function failed and none was skipped")
	for i := 0; i < n; i++ {
		if what[i] == 1 || what[i] == 2 {
			rt.Assert(errors.Is(err, own[i]) == called[i], "Wait does not report exactly the errors the functions returned")
		}
		if what[i] >= 3 && called[i] && n == 1 {
			rt.Assert(errors.Is(err, ret[i]), "Wait does not report a context error that a function returned")
		}
	}
	if bad && !skipped {
		// only context errors: one of them is reported
		is := false
		for i := 0; i < n; i++ {
			is = is || ret[i] != nil && errors.Is(err, ret[i])
		}
		rt.Assert(is, "Wait reports an error that no function returned")
		rt.Cover("failed")
	}
	if skipped && !rejected && !bad {
		rt.Assert(errors.Is(err, context.Canceled), "Wait does not report the context error of a skipped function")
		rt.Cover("skipped")
	}
	if err == nil {
		rt.Cover("none failed")
	}
	rt.Cover("end")
}

// Cancel (C11)
func Cancel() {
	g, _ := mk()
	n := rt.Param("funcs", 2)
	ctx, cancel := context.WithCancel(tr.Background())
	calls, finished, failed := 0, 0, 0
	waited := false
	g.CancelOnErr = func() {
		rt.Atomic(func() {
			calls++
			rt.Assert(failed > 0 || finished == n, "the cancel function is called before all functions finished although none failed")
			rt.Assert(!waited, "the cancel function is called after Wait returned")
		})
		cancel()
	}
	block := rt.Param("block", 0) == 1
	for i := 0; i < n; i++ {
		fail := rt.Bool("fail")
		if block {
			fail = i == n-1
		}
		g.Go(tr.Background(), func(context.Context) error {
			if !fail {
				if block {
					<-ctx.Done() // released only by the cancel
				}
				rt.Atomic(func() { finished++ })
				return nil
			}
			rt.Atomic(func() { failed++; finished++ })
			return &E{n: i}
		})
	}
	err := g.Wait(tr.Background())
	tr.Done("the span of a group was not ended when Wait returned")
	rt.Atomic(func() { waited = true })
	rt.Assert((err != nil) == (failed > 0), "Wait does not return nil exactly if no function failed")
	rt.Assert(calls >= 1 && ctx.Err() != nil, "the cancel function has not been called when Wait returns")
	rt.Assert(g.CancelOnErr == nil, "the cancel function is still set after Wait")
	if failed > 0 {
		rt.Cover("failed")
	} else {
		rt.Cover("none failed")
	}
	// the next round does not call it
	g.Go(tr.Background(), func(context.Context) error { return &E{n: 9} })
	err = g.Wait(tr.Background())
	tr.Done("the span of a group was not ended when Wait returned")
	rt.Assert(err != nil, "a group that is used again does not report an error")
	rt.Cover("end")
}

// Feed (C11): the caller waits for the cancel before it hands over more; one
// or more of the functions fail, the others end or block on the context.
func Feed() {
	g, _ := mk()
	n := rt.Param("funcs", 1)
	ctx, cancel := context.WithCancel(tr.Background())
	g.CancelOnErr = cancel
	who := rt.Int("fails", 0, n-1)
	for i := 0; i < n; i++ {
		blocks := rt.Bool("blocks")
		fails := i == who || rt.Bool("fails too")
		g.Go(ctx, func(c context.Context) error {
			if fails {
				return &E{n: i}
			}
			if blocks && n <= rt.Param("size", 1) {
				<-c.Done()
			}
			return nil
		})
	}
	<-ctx.Done() // without Wait: the failure alone triggers the cancel
	rt.Cover("cancelled")
	ran := false
	g.Go(ctx, func(context.Context) error { ran = true; return nil })
	err := g.Wait(ctx)
	tr.Done("the span of a group was not ended when Wait returned")
	rt.Assert(err != nil, "Wait returned nil although a function failed")
	rt.Assert(!ran, "a function ran whose context was cancelled before it was handed over")
	rt.Cover("end")
}

// Mixed (C11): functions with a dead context of their own are skipped, others
// fail, others are released by the cancel only.
func Mixed() {
	g, _ := mk()
	n := rt.Param("funcs", 3)
	ctx, cancel := context.WithCancel(tr.Background())
	dead, kill := context.WithCancel(tr.Background())
	kill()
	calls := 0
	g.CancelOnErr = func() {
		rt.Atomic(func() { calls++ })
		cancel()
	}
	fails := 0
	for i := 0; i < n; i++ {
		kind := rt.Int("kind", 0, 2) // 0: skipped, 1: fails, 2: released by the cancel
		if i == n-1 && fails == 0 {
			kind = 1
		}
		if kind == 1 {
			fails++
		}
		own := ctx
		switch kind {
		case 0:
			own = dead
		case 1:
			own = tr.Background()
		}
		g.Go(own, func(c context.Context) error {
			rt.Assert(kind != 0, "a function ran whose context was cancelled before it was handed over")
			if kind == 1 {
				return &E{n: i}
			}
			<-ctx.Done()
			return nil
		})
	}
	if rt.Bool("watch") {
		<-ctx.Done()
		rt.Cover("cancelled before Wait")
	}
	err := g.Wait(tr.Background())
	tr.Done("the span of a group was not ended when Wait returned")
	rt.Assert(err != nil, "Wait returned nil although a function failed")
	rt.Assert(calls >= 1 && ctx.Err() != nil, "the cancel function has not been called when Wait returns")
	rt.Assert(g.CancelOnErr == nil, "the cancel function is still set after Wait")
	rt.Cover("end")
}

// Reuse (C12): counters and errors over several rounds.
func Reuse() {
	g, _ := mk()
	n := rt.Param("funcs", 2)
	rounds := rt.Param("again", 2)
	begun, executing := 0, 0
	gen := 0
	look := func() {
		rt.Atomic(func() {
			r := g.Running()
			rt.Assert(r >= 0, "Running is negative")
			rt.Assert(r >= executing, "Running is less than the number of executing functions")
			rt.Assert(r <= begun, "Running is more than the number of functions handed over since the last Wait")
		})
	}
	if rt.Param("watch", 0) > 0 {
		go func() {
			rt.Model()
			for i := 0; i < rt.Param("watch", 0); i++ {
				rt.Yield()
				look()
			}
		}()
	}
	rt.Assert(g.Running() == 0, "Running of a new group is not 0")
	ctx := tr.Background()
	var first *E
	for round := 0; round < rounds; round++ {
		e := &E{n: round}
		any := false
		cancels := 0
		if rt.Param("cancelfn", 0) == 1 {
			g.CancelOnErr = func() { rt.Atomic(func() { cancels++ }) }
		}
		for i := 0; i < n; i++ {
			fail := rt.Bool("fail")
			any = any || fail
			rt.Atomic(func() { begun++ })
			g.Go(ctx, func(c context.Context) error {
				tr.Func(c, nil)
				rt.Atomic(func() { executing++ })
				if rt.Param("inside", 0) == 1 {
					look()
				}
				rt.Atomic(func() { executing-- })
				if fail {
					return e
				}
				return nil
			})
		}
		err := g.Wait(ctx)
		tr.Done("the span of a group was not ended when Wait returned")
		rt.Assert(g.Running() == 0, "Running is not 0 when Wait has returned")
		rt.Yield()
		rt.Atomic(func() {
			rt.Assert(g.Running() == 0, "Running is not 0 when Wait has returned")
			begun = 0
			gen++
		})
		rt.Assert((err != nil) == any, "Wait of a round does not report whether a function of that round failed")
		if any {
			rt.Assert(errors.Is(err, e), "Wait of a round does not report the error of that round")
		}
		if first != nil && err != nil {
			rt.Assert(!errors.Is(err, first), "Wait of a round reports an error of an earlier round")
			rt.Cover("failed twice")
		}
		if rt.Param("cancelfn", 0) == 1 {
			rt.Assert(cancels >= 1, "the cancel function has not been called when Wait returns")
		}
		if any {
			first = e
		}
	}
	rt.Cover("end")
}
