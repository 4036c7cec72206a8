// Package pipe has the harnesses for stagedpipe (C21 to C27).
package pipe

import (
	"context"
	"errors"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

type E struct{ n int }

func (e *E) Error() string { return "e" }

// data is what the requests carry.
type data struct {
	group, id int
	out       int
	fail      bool
	cancelled bool // the stage saw a cancelled context
}

type Req = stagedpipe.Request[data]

// flow is a state machine with one public stage.
type flow struct {
	second bool // there is a second stage
	errs   []*E
}

func (s *flow) Start(r Req) Req {
	rt.Assert(r.Next == nil, "Next is set when a stage begins")
	if s.second {
		r.Data.out = r.Data.group*10 + r.Data.id
		r.Next = s.end
		return r
	}
	return s.end(r)
}

func (s *flow) end(r Req) Req {
	tr.Stage(r.Ctx, nil)
	r.Data.out = r.Data.group*10 + r.Data.id + 100
	if r.Data.fail {
		r.Err = s.errs[r.Data.id]
	}
	return r
}

func (s *flow) Close() {}

// flow2 has two public stages and with it two workers per pipeline.
type flow2 struct{ flow }

func (s *flow2) Start(r Req) Req { return s.flow.Start(r) }
func (s *flow2) Extra(r Req) Req { return r }

func machine(n int) stagedpipe.StateMachine[data] {
	f := flow{second: rt.Param("second", 0) == 1}
	for i := 0; i < n; i++ {
		f.errs = append(f.errs, &E{i})
	}
	if rt.Param("stages", 1) == 2 {
		return &flow2{f}
	}
	return &f
}

func errOf(sm stagedpipe.StateMachine[data], i int) error {
	switch s := sm.(type) {
	case *flow:
		return s.errs[i]
	case *flow2:
		return s.errs[i]
	}
	return nil
}

// user makes a group, submits n requests, closes the group and takes the results.
func user(p *stagedpipe.Pipelines[data], sm stagedpipe.StateMachine[data], g, n int) {
	grp := p.NewRequestGroup()
	ctx := tr.Background()
	mayCancel := rt.Param("cancel", 0) == 1
	if mayCancel {
		c, cancel := context.WithCancel(ctx)
		ctx = c
		go func() {
			rt.Model()
			rt.Yield()
			cancel()
		}()
	}
	ok := make([]bool, n)
	tried := make([]bool, n)
	fail := make([]bool, n)
	closed := false
	for i := 0; i < n; i++ {
		if rt.Param("fails", 1) == 1 {
			fail[i] = rt.Bool("fail")
		}
	}
	feed := func() {
		for i := 0; i < n; i++ {
			c := ctx
			if rt.Param("nilctx", 0) == 1 && rt.Bool("nilctx") {
				c = nil
			}
			tried[i] = true
			err := grp.Submit(Req{Ctx: c, Data: data{group: g, id: i, fail: fail[i]}})
			ok[i] = err == nil
			if c == nil {
				rt.Assert(err != nil, "Submit accepted a request without context")
				rt.Cover("no context")
				continue
			}
			if err != nil {
				rt.Assert(mayCancel && ctx.Err() != nil, "Submit failed although the context is alive")
				rt.Assert(errors.Is(err, context.Canceled), "Submit of a cancelled request does not return the context error")
				rt.Cover("not submitted")
			}
		}
		grp.Close()
		closed = true
		tr.Closed()
	}
	go feed()
	seen := make([]int, n)
	last := -1
	for r := range grp.Out() {
		i := r.Data.id
		rt.Assert(r.Data.group == g, "a request came out of another group")
		rt.Assert(i >= 0 && i < n && tried[i], "a request came out that was not submitted")
		seen[i]++
		if rt.Param("ordered", 0) == 1 {
			rt.Assert(i > last, "the requests do not come out in the order of their submission")
			last = i
		}
		if r.Err != nil && mayCancel && errors.Is(r.Err, context.Canceled) {
			rt.Assert(ctx.Err() != nil, "a request came out with a context error although its context is alive")
			rt.Cover("stopped")
			continue
		}
		rt.Assert(r.Data.out == g*10+i+100, "a request came out unprocessed")
		if fail[i] {
			rt.Assert(r.Err == errOf(sm, i), "a request came out without the error of its stage")
			rt.Cover("failed")
		} else {
			rt.Assert(r.Err == nil, "a request came out with an error that no stage gave it")
			rt.Cover("processed")
		}
	}
	_ = closed
	for i := 0; i < n; i++ {
		rt.Assert(tried[i], "the output was closed before the group was closed")
		if ok[i] {
			rt.Assert(seen[i] == 1, "a submitted request did not come out exactly once")
		} else {
			rt.Assert(seen[i] == 0, "a request came out although its Submit failed")
		}
	}
}

func options() []stagedpipe.Option[data] {
	var o []stagedpipe.Option[data]
	if rt.Param("ordered", 0) == 1 {
		o = append(o, stagedpipe.Ordered[data]())
	}
	if rt.Param("dag", 0) == 1 {
		o = append(o, stagedpipe.DAG[data]())
	}
	if d := rt.Param("delay", 0); d > 0 {
		o = append(o, stagedpipe.DelayWarning[data](5))
	}
	return o
}

// Groups (C21, C22): several groups, one after the other or at the same time.
func Groups() {
	n := rt.Param("reqs", 2)
	groups := rt.Param("groups", 1)
	sm := machine(n)
	p, err := stagedpipe.New[data]("x", rt.Param("par", 1), sm, options()...)
	rt.Assert(err == nil, "New failed")
	if rt.Param("seq", 0) == 1 {
		for g := 0; g < groups; g++ {
			user(p, sm, g, n)
			tr.AllClosed(1)
		}
		return
	}
	fin := make(chan bool, groups)
	for g := 1; g < groups; g++ {
		go func() {
			user(p, sm, g, n)
			fin <- true
		}()
	}
	user(p, sm, 0, n)
	for g := 1; g < groups; g++ {
		<-fin
	}
	tr.AllClosed(groups)
}
