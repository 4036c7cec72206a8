package pipe

import (
	"context"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

// closer is a state machine that knows when it was closed.
type closer struct {
	in     int // stages in progress
	closed int
	done   chan bool
}

func (s *closer) Start(r Req) Req {
	rt.Assert(s.closed == 0, "a stage runs after the state machine was closed")
	s.in++
	rt.Yield()
	s.in--
	rt.Assert(s.closed == 0, "the state machine was closed while a stage was running")
	if r.Data.id == 0 && rt.Param("second", 0) == 1 {
		r.Next = s.next
	}
	r.Data.out = r.Data.id + 1
	return r
}

func (s *closer) next(r Req) Req {
	rt.Assert(s.closed == 0, "a stage runs after the state machine was closed")
	return r
}

func (s *closer) Close() {
	rt.Assert(s.closed == 0, "the state machine was closed twice")
	rt.Assert(s.in == 0, "the state machine was closed while a stage was running")
	s.closed++
	s.done <- true
}

// Close (C25): groups with any number of requests; the pipelines are closed as
// soon as everything was submitted, or after the groups were drained.
func Close() {
	rt.NoLeak()
	n := rt.Param("reqs", 1)
	groups := rt.Param("groups", 1)
	early := rt.Param("early", 0) == 1
	sm := &closer{done: make(chan bool, 3)}
	p, err := stagedpipe.New[data]("x", rt.Param("par", 1), sm, options()...)
	rt.Assert(err == nil, "New failed")
	fin := make(chan bool, groups)
	submitted := make(chan bool, groups)
	one := func(g int) {
		grp := p.NewRequestGroup()
		taken, sent, closing, closed := 0, 0, false, false
		ctx, cancel := context.WithCancel(tr.Background())
		if rt.Param("dead", 0) == 1 && rt.Bool("dead") {
			cancel()
		}
		go func() {
			for i := 0; i < n; i++ {
				if grp.Submit(Req{Ctx: ctx, Data: data{group: g, id: i}}) == nil {
					sent++
				} else {
					rt.Assert(ctx.Err() != nil, "Submit failed")
					rt.Cover("not submitted")
				}
			}
			submitted <- true
			closing = true
			grp.Close()
			closed = true
			tr.Closed()
			rt.Assert(taken+2 >= sent, "closing a group did not wait for its requests")
		}()
		for range grp.Out() {
			taken++
			rt.Yield()
		}
		rt.Assert(closing, "the output of a group was closed although the group was not")
		rt.Assert(taken == sent, "the output of a group was closed before its last request came out")
		_ = closed
		cancel()
		fin <- true
	}
	for g := 1; g < groups; g++ {
		go one(g)
	}
	if early {
		go func() {
			for g := 0; g < groups; g++ {
				<-submitted
			}
			p.Close()
		}()
	}
	if groups > 0 {
		one(0)
		for g := 0; g < groups; g++ {
			<-fin
		}
	}
	if !early {
		rt.Assert(sm.closed == 0, "the state machine was closed although the pipelines were not")
		p.Close()
	}
	<-sm.done
	rt.Assert(sm.closed == 1, "the state machine was not closed exactly once")
	tr.AllClosed(groups)
	st := p.Stats()
	rt.Assert(st.Running == 0, "requests are running after the state machine was closed")
	rt.Cover("closed")
}

// GroupClose (C25): Close returns only after everything was taken out, and it does return.
func GroupClose() {
	n := rt.Param("reqs", 2)
	sm := &closer{done: make(chan bool, 3)}
	p, err := stagedpipe.New[data]("x", rt.Param("par", 1), sm, options()...)
	rt.Assert(err == nil, "New failed")
	grp := p.NewRequestGroup()
	fin := make(chan bool, 1)
	go func() {
		for i := 0; i < n; i++ {
			rt.Assert(grp.Submit(Req{Ctx: tr.Background(), Data: data{id: i}}) == nil, "Submit failed")
		}
		grp.Close()
		rt.Assert(sm.in == 0, "closing a group returned while a stage was running")
		st := p.Stats()
		rt.Assert(st.Completed == int64(n) && st.Running == 0, "closing a group returned although requests were in progress")
		fin <- true
	}()
	taken := 0
	for range grp.Out() {
		taken++
	}
	rt.Assert(taken == n, "the output of a group was closed before its last request came out")
	<-fin
	// others can go on
	if rt.Param("next", 0) == 1 {
		g2 := p.NewRequestGroup()
		go func() {
			rt.Assert(g2.Submit(Req{Ctx: tr.Background(), Data: data{id: 1}}) == nil, "Submit failed")
			g2.Close()
		}()
		for range g2.Out() {
			taken++
		}
		rt.Assert(taken == n+1, "the output of a group was closed before its last request came out")
	}
	rt.Cover("closed")
}

// ---------------------------------------------------------------- statistics

type timing struct {
	before, after int64 // around Submit
	start, end    int64 // in the stages
	out           int64 // when it came out
}

type timed struct {
	t     []timing
	exact bool
}

func (s *timed) Start(r Req) Req {
	s.t[r.Data.id].start = rt.Clock()
	if rt.Param("yield", 0) == 1 {
		rt.Yield()
	}
	rt.Advance(rt.Int("time", 0, rt.Param("max", 7)))
	s.t[r.Data.id].end = rt.Clock()
	if r.Data.fail {
		r.Err = &E{}
	}
	return r
}

func (s *timed) Close() {}

func within(v time.Duration, lo, up int64, msg string) {
	rt.Assert(int64(v) >= lo, msg+" is too small")
	rt.Assert(int64(v) <= up, msg+" is too big")
}

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// Stats (C26)
func Stats() {
	n := rt.Param("reqs", 2)
	par := rt.Param("par", 1)
	sm := &timed{t: make([]timing, n)}
	p, err := stagedpipe.New[data]("x", par, sm)
	rt.Assert(err == nil, "New failed")
	st := p.Stats()
	rt.Assert(st == stagedpipe.Stats{}, "the statistics are not zero before the first request")
	g := p.NewRequestGroup()
	step := make(chan bool, 1)
	lock := rt.Param("lock", 0) == 1
	submitted := int64(0)
	done := false
	go func() {
		for i := 0; i < n; i++ {
			rt.Advance(rt.Int("pause", 0, rt.Param("pause", 0)))
			sm.t[i].before = rt.Clock()
			fail := rt.Bool("fail")
			submitted++
			err := g.Submit(Req{Ctx: tr.Background(), Data: data{id: i, fail: fail}})
			rt.Assert(err == nil, "Submit failed")
			sm.t[i].after = rt.Clock()
			if lock {
				<-step
			}
		}
		g.Close()
	}()
	looks := rt.Param("looks", 0)
	fin := make(chan bool, 1)
	if looks > 0 {
		go func() {
			var last int64
			for i := 0; i < looks; i++ {
				rt.Yield()
				s := p.Stats()
				rt.Assert(s.Running >= 0, "Running is negative")
				rt.Assert(s.Running <= submitted, "Running exceeds the number of submitted requests")
				rt.Assert(s.Running <= int64(par), "Running exceeds the number of workers")
				rt.Assert(s.Completed >= last, "Completed decreases")
				rt.Assert(s.Completed <= submitted, "Completed exceeds the number of submitted requests")
				last = s.Completed
				if s.Running > 0 {
					rt.Cover("running")
				}
			}
			fin <- true
		}()
	}
	seen := 0
	for r := range g.Out() {
		seen++
		sm.t[r.Data.id].out = rt.Clock()
		if lock {
			step <- true
		}
		s := p.Stats()
		rt.Assert(s.Completed >= int64(seen), "Completed is less than the number of requests that came out")
	}
	done = true
	if looks > 0 {
		<-fin
	}
	_ = done
	rt.Assert(seen == n, "not every request came out")
	st = p.Stats()
	rt.Assert(st.Running == 0, "Running is not 0 although nothing runs")
	rt.Assert(st.Completed == int64(n), "Completed is not the number of requests")
	// the times are known up to what the environment did in between
	var minLo, minUp, maxLo, maxUp, sumLo, sumUp int64
	var qminLo, qminUp, qmaxLo, qmaxUp, qsumLo, qsumUp int64
	for i := 0; i < n; i++ {
		t := sm.t[i]
		lo, up := t.end-t.start, t.out-t.before
		if rt.Param("exact", 0) == 1 {
			up = lo
		}
		qlo, qup := int64(0), t.start-t.before
		if par == 1 && i > 0 {
			// the only worker had to finish the request before
			qlo = max(0, sm.t[i-1].end-max(t.after, t.before))
		}
		if i == 0 {
			minLo, minUp, maxLo, maxUp = lo, up, lo, up
			qminLo, qminUp, qmaxLo, qmaxUp = qlo, qup, qlo, qup
		}
		minLo, minUp = min(minLo, lo), min(minUp, up)
		maxLo, maxUp = max(maxLo, lo), max(maxUp, up)
		qminLo, qminUp = min(qminLo, qlo), min(qminUp, qup)
		qmaxLo, qmaxUp = max(qmaxLo, qlo), max(qmaxUp, qup)
		sumLo += lo
		sumUp += up
		qsumLo += qlo
		qsumUp += qup
	}
	within(st.Min, minLo, minUp, "the minimum run time")
	within(st.Max, maxLo, maxUp, "the maximum run time")
	if rt.Param("avg", 1) == 1 {
		k := int64(st.Completed)
		rt.Assert(int64(st.Avg)*k <= sumUp, "the average run time is too big")
		rt.Assert(int64(st.Avg)*k+k > sumLo, "the average run time is too small")
		rt.Assert(int64(st.IngestStats.Avg)*k <= qsumUp, "the average ingestion time is too big")
		rt.Assert(int64(st.IngestStats.Avg)*k+k > qsumLo, "the average ingestion time is too small")
	}
	within(st.IngestStats.Min, qminLo, qminUp, "the minimum ingestion time")
	within(st.IngestStats.Max, qmaxLo, qmaxUp, "the maximum ingestion time")
	if minLo > 0 && minLo < maxLo {
		rt.Cover("different run times")
	}
	if qmaxLo > 0 {
		rt.Cover("a request waited")
	}
	if qminLo > 0 {
		rt.Cover("every request waited")
	}
}

// ---------------------------------------------------------------- concurrency

// gate is a state machine whose stages wait to be let go.
type gate struct {
	in, limit, total int
	arrived          chan bool
	open             chan bool
}

func (s *gate) Start(r Req) Req {
	s.in++
	rt.Assert(s.in <= s.limit, "more requests are executed at once than pipelines times stages")
	s.arrived <- true
	<-s.open
	s.in--
	return r
}
func (s *gate) Close() {}

type gate2 struct{ gate }

func (s *gate2) Start(r Req) Req { return s.gate.Start(r) }
func (s *gate2) Other(r Req) Req { return r }
func (s *gate2) NoStage(i int)   {}

type gate3 struct{ gate2 }

func (s *gate3) Start(r Req) Req { return s.gate.Start(r) }
func (s *gate3) Third(r Req) Req { return r }

type sub1 struct{}

func (sub1) One(r Req) Req      { return r }
func (sub1) hidden(r Req) Req   { return r }
func (sub1) Helper(string) bool { return true }

type sub2 struct{}

func (*sub2) One(r Req) Req      { return r }
func (*sub2) Two(r Req) Req      { return r }
func (*sub2) Wrong(r *Req) Req   { return *r }
func (*sub2) Wrong2(r Req) error { return nil }

// Parallel (C27)
func Parallel() {
	par := rt.Param("par", 1)
	limit := 0
	g1 := gate{arrived: make(chan bool, 9), open: make(chan bool)}
	var sm stagedpipe.StateMachine[data]
	var s *gate
	switch rt.Param("stages", 1) {
	case 1:
		s = &g1
		sm = s
		limit = 1
	case 2:
		m := &gate2{g1}
		s = &m.gate
		sm = m
		limit = 2
	case 3:
		m := &gate3{gate2{g1}}
		s = &m.gate
		sm = m
		limit = 3
	}
	var opts []stagedpipe.Option[data]
	switch rt.Param("subs", 0) {
	case 1:
		opts = append(opts, stagedpipe.CountSubStages[data](sub1{}))
		limit++
	case 2:
		opts = append(opts, stagedpipe.CountSubStages[data](&sub2{}))
		limit += 2
	case 3:
		opts = append(opts, stagedpipe.CountSubStages[data](sub1{}, &sub2{}))
		limit += 3
	case 4:
		opts = append(opts, stagedpipe.CountSubStages[data](sub1{}), stagedpipe.CountSubStages[data](sub1{}))
		limit += 2
	}
	limit *= par
	s.limit = limit
	p, err := stagedpipe.New[data]("x", par, sm, opts...)
	rt.Assert(err == nil, "New failed")
	g := p.NewRequestGroup()
	n := limit + rt.Param("more", 1)
	go func() {
		for i := 0; i < n; i++ {
			rt.Assert(g.Submit(Req{Ctx: tr.Background(), Data: data{id: i}}) == nil, "Submit failed")
		}
		g.Close()
	}()
	go func() {
		for i := 0; i < limit; i++ {
			<-s.arrived
		}
		rt.Assert(s.in == limit, "not as many requests as pipelines times stages are executed at once")
		rt.Cover("full")
		close(s.open)
	}()
	seen := 0
	for range g.Out() {
		seen++
	}
	rt.Assert(seen == n, "not every request came out")
}

// Construct (C27)
func Construct() {
	rt.NoLeak()
	n := rt.Int("num", -2, rt.Param("num", 2))
	withSM := rt.Bool("machine")
	withDelay := rt.Bool("delay")
	d := time.Duration(0)
	if withDelay {
		d = time.Duration(rt.Int("by", -3, 3))
	}
	var sm stagedpipe.StateMachine[data]
	c := &closer{done: make(chan bool, 1)}
	if withSM {
		sm = c
	}
	var opts []stagedpipe.Option[data]
	if rt.Bool("dag") {
		opts = append(opts, stagedpipe.DAG[data]())
	}
	if withDelay {
		opts = append(opts, stagedpipe.DelayWarning[data](d))
	}
	if rt.Bool("ordered") {
		opts = append(opts, stagedpipe.Ordered[data]())
	}
	p, err := stagedpipe.New[data]("x", n, sm, opts...)
	bad := n < 1 || !withSM || d < 0
	rt.Assert((err != nil) == bad, "New does not fail exactly for a bad number, a missing state machine or a negative delay")
	rt.Assert((p == nil) == bad, "New returns pipelines and an error, or neither")
	if bad {
		rt.Cover("refused")
		return
	}
	p.Close()
	<-c.done
	rt.Cover("made")
}
