package pipe

import (
	"context"
	"errors"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

// rdata is what the requests of the routing harnesses carry.
type rdata struct {
	id int
}

type RReq = stagedpipe.Request[rdata]

// plan is one request with what has to happen to it.
type plan struct {
	step int   // stages run so far
	want int   // the stage that has to run next (-1: none)
	pre  int   // preprocessors run for it so far
	ran  []int // how often each stage ran
	err  error // the error the request has to have in the end
	dag  bool  // the request is to be stopped as cyclic
	left int   // steps left before the request must leave
	die  bool  // the context is cancelled
	stop func()
	ctx  context.Context
	busy bool
	span *tr.Span
}

// router is a state machine whose stages go anywhere.
type router struct {
	plans []*plan
	dag   bool
	prep  int
	errs  bool
	kill  bool
}

// Stages beyond these are only taken one after the other, by the line runs.
const stages = 3

func (s *router) next(k int, r RReq) RReq {
	p := s.plans[r.Data.id]
	rt.Assert(!p.busy, "two stages of one request run at the same time")
	p.busy = true
	rt.Assert(r.Next == nil, "Next is set when a stage begins")
	rt.Assert(r.Err == nil, "a stage runs although the request has an error")
	rt.Assert(p.want == k, "a stage runs that the request was not routed to")
	rt.Assert(p.pre == s.prep, "a stage runs before all preprocessors did")
	rt.Assert(!p.die, "a stage runs although the context was cancelled before")
	rt.Assert(r.Ctx != nil, "a stage runs without context")
	p.span = tr.Stage(r.Ctx, p.span)
	p.ran[k]++
	p.pre = 0
	p.step++
	p.want = -1
	if p.left > 0 {
		p.left--
		n := p.step + 1
		if p.step >= rt.Param("line", 0) {
			last := stages
			if l := rt.Param("line", 0); l > last {
				last = l
			}
			n = rt.Int("next", 0, last) // 0: the end
		}
		if n > 0 {
			p.want = n - 1
			r.Next = s.stage(n - 1)
		}
	}
	if s.errs && rt.Bool("fail") {
		p.err = &E{p.step}
		r.Err = p.err
		p.want = -1
	}
	if s.kill && !p.die && rt.Bool("cancel") {
		p.die = true
		p.stop()
	}
	s.settle(p)
	if rt.Param("yield", 0) == 1 {
		rt.Yield()
	}
	p.busy = false
	return r
}

// settle decides what the next step of the request has to be.
func (s *router) settle(p *plan) {
	if p.want < 0 || p.err != nil {
		p.want = -1
		return
	}
	if p.die {
		p.want = -1
		p.err = context.Canceled
		return
	}
	if s.dag && p.ran[p.want] > 0 {
		p.want = -1
		p.dag = true
	}
}

func (s *router) Start(r RReq) RReq { return s.next(0, r) }
func (s *router) b(r RReq) RReq     { return s.next(1, r) }
func (s *router) c(r RReq) RReq     { return s.next(2, r) }
func (s *router) d(r RReq) RReq     { return s.next(3, r) }
func (s *router) e(r RReq) RReq     { return s.next(4, r) }
func (s *router) f(r RReq) RReq     { return s.next(5, r) }
func (s *router) g(r RReq) RReq     { return s.next(6, r) }
func (s *router) h(r RReq) RReq     { return s.next(7, r) }
func (s *router) i(r RReq) RReq     { return s.next(8, r) }
func (s *router) j(r RReq) RReq     { return s.next(9, r) }
func (s *router) k(r RReq) RReq     { return s.next(10, r) }
func (s *router) l(r RReq) RReq     { return s.next(11, r) }
func (s *router) Close()            {}

// other is a sub-stage object; its method is called like one of router.
type other struct{ s *router }

func (o *other) Start(r RReq) RReq { return o.s.next(1, r) }

func (s *router) stage(k int) stagedpipe.Stage[rdata] {
	switch k {
	case 1:
		if rt.Param("sub", 0) == 1 {
			return (&other{s}).Start
		}
		return s.b
	case 2:
		return s.c
	case 3:
		return s.d
	case 4:
		return s.e
	case 5:
		return s.f
	case 6:
		return s.g
	case 7:
		return s.h
	case 8:
		return s.i
	case 9:
		return s.j
	case 10:
		return s.k
	case 11:
		return s.l
	}
	return s.Start
}

// preprocessor is the i-th preprocessor.
func (s *router) preprocessor(i int) stagedpipe.PreProcesor[rdata] {
	return func(r RReq) RReq {
		p := s.plans[r.Data.id]
		rt.Assert(r.Next == nil, "Next is set when a preprocessor runs")
		rt.Assert(r.Err == nil, "a preprocessor runs although the request has an error")
		rt.Assert(p.want >= 0, "a preprocessor runs although no stage follows")
		rt.Assert(p.pre == i, "the preprocessors do not run once each in their order")
		p.pre++
		if s.errs && rt.Param("prefail", 1) == 1 && rt.Bool("prefail") {
			p.err = &E{100 + i}
			r.Err = p.err
			p.want = -1
		}
		return r
	}
}

func (s *router) start(n int) *plan {
	k := stages
	if l := rt.Param("line", 0); l > k {
		k = l
	}
	p := &plan{ran: make([]int, k), left: rt.Param("steps", 3) - 1}
	p.ctx, p.stop = context.WithCancel(tr.Background())
	return p
}

// check looks at a request that came out.
func (s *router) check(r RReq, base context.Context) {
	p := s.plans[r.Data.id]
	rt.Assert(p.want == -1, "a request came out before it was done")
	if p.dag {
		rt.Assert(stagedpipe.IsErrCyclic(r.Err), "a request that repeats a stage has no cyclic error")
		rt.Cover("cyclic")
	} else if p.err != nil {
		rt.Assert(errors.Is(r.Err, p.err), "a request came out without its error")
		rt.Assert(!stagedpipe.IsErrCyclic(r.Err), "a request that repeats no stage has a cyclic error")
		rt.Cover("error")
	} else {
		rt.Assert(!stagedpipe.IsErrCyclic(r.Err), "a request that repeats no stage has a cyclic error")
		rt.Assert(r.Err == nil, "a request came out with an error nobody gave it")
		rt.Cover("done")
	}
	if s.dag {
		for k := range p.ran {
			rt.Assert(p.ran[k] <= 1, "a stage ran twice for one request of a DAG pipeline")
		}
	} else {
		for k := range p.ran {
			if p.ran[k] > 1 {
				rt.Cover("repeated")
			}
		}
	}
}

// Route (C23, C24)
func Route() {
	n := rt.Param("reqs", 1)
	sm := &router{
		dag:  rt.Param("dag", 0) == 1,
		prep: rt.Param("prep", 0),
		errs: rt.Param("errs", 0) == 1,
		kill: rt.Param("kill", 0) == 1,
	}
	for i := 0; i < n; i++ {
		sm.plans = append(sm.plans, sm.start(i))
	}
	var opts []stagedpipe.Option[rdata]
	if sm.dag {
		opts = append(opts, stagedpipe.DAG[rdata]())
	}
	// all at once or in two options
	if sm.prep == 2 && rt.Param("split", 0) == 1 {
		opts = append(opts, stagedpipe.PreProcessors(sm.preprocessor(0)), stagedpipe.PreProcessors(sm.preprocessor(1)))
	} else if sm.prep == 2 {
		opts = append(opts, stagedpipe.PreProcessors(sm.preprocessor(0), sm.preprocessor(1)))
	} else if sm.prep == 1 {
		opts = append(opts, stagedpipe.PreProcessors(sm.preprocessor(0)))
	}
	p, err := stagedpipe.New[rdata]("x", rt.Param("par", 1), sm, opts...)
	rt.Assert(err == nil, "New failed")
	g := p.NewRequestGroup()
	go func() {
		for i := 0; i < n; i++ {
			req := RReq{Ctx: sm.plans[i].ctx, Data: rdata{id: i}}
			if rt.Param("preset", 0) == 1 {
				req.Next = sm.b
			}
			err := g.Submit(req)
			rt.Assert(err == nil, "Submit failed")
		}
		g.Close()
		tr.Closed()
	}()
	seen := 0
	for r := range g.Out() {
		seen++
		sm.check(r, nil)
	}
	rt.Assert(seen == n, "not every request came out")
	tr.AllClosed(1)
}

// Again (C24): a request that came out is submitted to another set of pipelines.
func Again() {
	first := &router{dag: rt.Param("dag1", 1) == 1}
	second := &router{dag: rt.Param("dag2", 0) == 1}
	var out RReq
	for i, sm := range []*router{first, second} {
		sm.plans = []*plan{sm.start(0)}
		var opts []stagedpipe.Option[rdata]
		if sm.dag {
			opts = append(opts, stagedpipe.DAG[rdata]())
		}
		p, err := stagedpipe.New[rdata]("x", 1, sm, opts...)
		rt.Assert(err == nil, "New failed")
		g := p.NewRequestGroup()
		if i == 0 {
			out = RReq{Ctx: tr.Background(), Data: rdata{id: 0}}
		} else {
			out.Err = nil
		}
		req := out
		go func() {
			rt.Assert(g.Submit(req) == nil, "Submit failed")
			g.Close()
		}()
		seen := 0
		for r := range g.Out() {
			seen++
			sm.check(r, nil)
			out = r
		}
		rt.Assert(seen == 1, "not every request came out")
	}
}
