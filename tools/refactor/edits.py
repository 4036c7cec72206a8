L = 'goroutines/limited/goroutines.go'; P = 'goroutines/pooled/goroutines.go'; G = 'goroutines/goroutines.go'
R = 'goroutines/internal/register/register.go'; W = 'prim/wait/wait.go'; S = 'prim/slices/slice.go'; C = 'prim/chans/chans.go'
A = 'prim/atomics/atomics.go'; T = 'pipelines/stagedpipe/stagedpipe.go'; ST = 'pipelines/stagedpipe/stats.go'; Q = 'pipelines/stagedpipe/internal/queue/queue.go'
REFACTORINGS = [
('limited-helpers', 'C01 C02 C03 C04 C05 C07', [(L, '''	if !opts.NonBlocking {
		select {
		case p.queue <- struct{}{}:
		default:
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.wg.Add(1)
	p.running.Add(1)

	go func() {
		defer p.wg.Done()
		defer p.running.Add(-1)
		if !opts.NonBlocking {
			// The slot is ours until the job is done.
			defer func() { <-p.queue }()
		}
		runner(ctx)
	}()

	return nil
}
''', '''	release := func() {}
	if !opts.NonBlocking {
		p.acquire(spanner, fcn, now)
		release = p.release
	}
	p.begin()
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
	go p.exec(ctx, runner, release)
	return nil
}

func (p *Pool) acquire(spanner span.Span, fcn string, now time.Time) {
	select {
	case p.queue <- struct{}{}:
		return
	default:
	}
	p.blockEvent(spanner, fcn, now)
	p.queue <- struct{}{}
}

func (p *Pool) release() { <-p.queue }

func (p *Pool) begin() {
	p.running.Add(1)
	p.wg.Add(1)
}

func (p *Pool) exec(ctx context.Context, runner goroutines.Job, release func()) {
	defer func() {
		release()
		p.running.Add(-1)
		p.wg.Done()
	}()
	runner(ctx)
}
''')]),
('limited-options-loop', 'C01 C02 C03 C04', [(L, '''	opts := pool.SubmitOptions{Type: pool.PTLimited}
	var err error
	for _, o := range options {
		opts, err = o(opts)
		if err != nil {
			spanner.Error(err)
			return err
		}
	}
''', '''	opts := pool.SubmitOptions{Type: pool.PTLimited}
	for i := 0; i < len(options); i++ {
		next, err := options[i](opts)
		if err != nil {
			spanner.Error(err)
			return err
		}
		opts = next
	}
''')]),
('pooled-helpers', 'C01 C02 C04 C05 C07 C09 C10', [(P, '''	for s := range p.queue {
		s.job(s.ctx)
		p.running.Add(-1)
		p.wg.Done()
	}
}
''', '''	for {
		s, ok := <-p.queue
		if !ok {
			return
		}
		p.run(s)
	}
}

// run runs a job and accounts for it.
func (p *Pool) run(s submit) {
	s.job(s.ctx)
	p.done()
}

func (p *Pool) done() {
	p.running.Add(-1)
	p.wg.Done()
}

func (p *Pool) offer(s submit) bool {
	select {
	case p.queue <- s:
		return true
	default:
		return false
	}
}
'''), (P, '''	if opts.NonBlocking {
		select {
		case p.queue <- s:
		default:
			go func() {
				defer p.wg.Done()
				defer p.running.Add(-1)
				s.job(ctx)
			}()
		}
		p.submitEvent(spanner, fcn, opts.NonBlocking, now)
		return nil
	}

	select {
	case p.queue <- s:
	default:
		p.blockEvent(spanner, fcn, now)
		p.queue <- s
	}
	p.submitEvent(''', '''	switch {
	case p.offer(s):
	case opts.NonBlocking:
		go p.run(s)
	default:
		p.blockEvent(spanner, fcn, now)
		p.queue <- s
	}
	p.submitEvent(''')]),
('errors-rwmutex', 'C08', [(G, 'mu     sync.Mutex', 'mu     sync.RWMutex'), (G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	if len(e.errors) == 0 {
		return nil
	}
	return e.errors[0]
''', '''	e.mu.RLock()
	var err error
	if len(e.errors) > 0 {
		err = e.errors[0]
	}
	e.mu.RUnlock()
	return err
'''), (G, '''	e.mu.Lock()
	defer e.mu.Unlock()

	return append([]error(nil), e.errors...)
''', '''	e.mu.RLock()
	defer e.mu.RUnlock()

	if len(e.errors) == 0 {
		return nil
	}
	out := make([]error, len(e.errors))
	copy(out, e.errors)
	return out
''')]),
('register-list', 'C05 C06', [(R, '''	go func() {
		defer close(ch)
		mu.RLock()
		defer mu.RUnlock()
		for _, p := range registry {
			ch <- p
		}
	}()
	return ch
''', '''	go func() {
		mu.RLock()
		var all []goroutines.Pool
		for _, p := range registry {
			all = append(all, p)
		}
		mu.RUnlock()
		for _, p := range all {
			ch <- p
		}
		close(ch)
	}()
	return ch
'''), (R, '''	mu.Lock()
	defer mu.Unlock()

	name := pool.GetName()
	if name == "" {
		return nil
	}

	if _''', '''	name := pool.GetName()
	if name == "" {
		return nil
	}

	mu.Lock()
	defer mu.Unlock()

	if _''')]),
('register-cut', 'C06', [(R, '''	sp := strings.Split(name, "-")
	n, err := strconv.Atoi(sp[1])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}

	n++
	return fmt.Sprintf("%s-%d", sp[0], n)
''', '''	i := strings.LastIndex(name, "-")
	n, err := strconv.Atoi(name[i+1:])
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}
	return name[:i] + "-" + strconv.Itoa(n+1)
''')]),
('wait-one-job', 'C09 C10 C11 C12 C13 C16', [(W, '''	if w.Pool == nil {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()
		return
	}

	w.wg.Add(1)
	err := w.Pool.Submit(
		ctx,
		func(ctx context.Context) {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},
		w.PoolOptions...,
	)
	if err != nil {
		// The pool did not take the function, so nobody else will account for it.
		applyErr(&w.errors, err)
		w.count.Add(-1)
		w.wg.Done()
	}
}
''', '''	w.wg.Add(1)
	job := func(ctx context.Context) {
		w.call(ctx, f)
		w.finished()
	}
	if w.Pool == nil {
		go job(ctx)
		return
	}
	if err := w.Pool.Submit(ctx, job, w.PoolOptions...); err != nil {
		// The pool did not take the function, so nobody else will account for it.
		applyErr(&w.errors, err)
		w.finished()
	}
}

func (w *Group) finished() {
	w.count.Add(-1)
	w.wg.Done()
}

func (w *Group) call(ctx context.Context, f FuncCall) {
	if err := ctx.Err(); err != nil {
		applyErr(&w.errors, err)
		return
	}
	err := f(ctx)
	if err == nil {
		return
	}
	applyErr(&w.errors, err)
	if cancel := w.CancelOnErr; cancel != nil {
		cancel()
	}
}
''')]),
('wait-mutex', 'C09 C10 C12 C14', [(W, '''	errors atomic.Pointer[error]
''', '''	mu     sync.Mutex
	errors error
'''), (W, 'w.errors.Store(nil)', 'w.errors = nil'), (W, '''	err := w.errors.Load()
	if err != nil {
		w.span.Error(*err)
		return *err
	}
	return nil
''', '''	w.mu.Lock()
	defer w.mu.Unlock()
	if w.errors != nil {
		w.span.Error(w.errors)
	}
	return w.errors
'''), (W, '''func applyErr(ptr *atomic.Pointer[error], err error) {
	for {
		existing := ptr.Load()
		if existing == nil {
			if ptr.CompareAndSwap(nil, &err) {
				return
			}
		} else {
			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
			joined := errors.Join(*existing, err)
			if ptr.CompareAndSwap(existing, &joined) {
				return
			}
		}
	}
}
''', '''func (w *Group) applyErr(err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.errors == nil {
		w.errors = err
		return
	}
	if err == context.Canceled || err == context.DeadlineExceeded {
		return
	}
	w.errors = errors.Join(w.errors, err)
}
'''), (W, '''	if w.Pool == nil {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
''', '''	if w.Pool == nil {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				w.applyErr(ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				w.applyErr(err)
'''), (W, '''		func(ctx context.Context) {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
''', '''		func(ctx context.Context) {
			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				w.applyErr(ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				w.applyErr(err)
'''), (W, '''		applyErr(&w.errors, err)
		w.count.Add(-1)
		w.wg.Done()
''', '''		w.applyErr(err)
		w.count.Add(-1)
		w.wg.Done()
''')]),
('slices-range', 'C13 C14 C18', [(S, '''	var stopped error
	for i := 0; i < len(s); i++ {
		i := i

		if stopped = ctx.Err(); stopped != nil {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })
			},
		)
	}
	err := wg.Wait(ctx)
	if err == nil {
		err = stopped
	}
	if err != nil {
''', '''	stopped := visit(ctx, &wg, s, access)
	err := wg.Wait(ctx)
	if err == nil {
		err = stopped
	}
	if err != nil {
'''), (S, '''func Access[T any](ctx context.Context, s []T,''', '''func Access[T any](ctx context.Context, s []T,'''), (S, '''type sliceOptions struct {''', '''func visit[T any](ctx context.Context, wg *wait.Group, s []T, access Accessor[T]) error {
	for i := range s {
		if err := ctx.Err(); err != nil {
			return err
		}
		e := element[T]{s, i, access}
		wg.Go(ctx, e.call)
	}
	return nil
}

type element[T any] struct {
	s      []T
	i      int
	access Accessor[T]
}

func (e element[T]) call(ctx context.Context) error {
	p := &e.s[e.i]
	return e.access(ctx, e.i, *p, func(v T) { *p = v })
}

type sliceOptions struct {''')]),
('chans-next', 'C15 C16 C17', [(C, '''	for {
		var v T
		open := true
		select {
		case <-ctx.Done():
		case v, open = <-input:
		}
		if !open {
			break
		}
		if stopped = ctx.Err(); stopped != nil {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(
					ctx,
					v,
				)
			},
		)
	}
''', '''	for {
		v, open := next(ctx, input)
		if open {
			stopped = ctx.Err()
		}
		if !open || stopped != nil {
			break
		}
		wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })
	}
'''), (C, '''// StreamResult is a result''', '''// next takes the next value; it stops waiting if the context is cancelled.
func next[T any](ctx context.Context, input <-chan T) (v T, open bool) {
	select {
	case v, open = <-input:
		return v, open
	case <-ctx.Done():
		return v, true
	}
}

// StreamResult is a result'''), (C, '''		r, err := mod(ctx, v)
		if err != nil {
			select {
			case <-ctx.Done():
			case output <- StreamResult[R]{Err: err}:
			}
			return err
		}
		select {
		case <-ctx.Done():
			return ctx.Err()
		case output <- StreamResult[R]{Value: r}:
		}
		return nil
''', '''		var res StreamResult[R]
		r, err := mod(ctx, v)
		if err == nil {
			res.Value = r
		} else {
			res.Err = err
		}
		select {
		case output <- res:
		case <-ctx.Done():
			if err == nil {
				err = ctx.Err()
			}
		}
		return err
''')]),
('atomics-sem', 'C19 C20', [(A, '''	v := r.v.Load()
	if v == nil {
		v = new(T)
	}
	n, err := lr(*v)
	if err != nil {
		return err
	}
	r.v.Store(&n)
	return nil
''', '''	n, err := lr(r.Load())
	if err == nil {
		r.v.Store(&n)
	}
	return err
'''), (A, '''	v := r.v.Load()
	if v == nil {
		var zero T
		return zero
	}
	return *v
''', '''	var val T
	if p := r.v.Load(); p != nil {
		val = *p
	}
	return val
''')]),
('atomics-rwmutex', 'C19 C20', [(A, '''	mu sync.Mutex
	v  atomic.Pointer[T]
''', '''	mu sync.Mutex // taken by writers
	vm sync.RWMutex
	v  T
'''), (A, '''	v := r.v.Load()
	if v == nil {
		var zero T
		return zero
	}
	return *v
''', '''	r.vm.RLock()
	defer r.vm.RUnlock()
	return r.v
'''), (A, '''	r.v.Store(&v)
}
''', '''	r.set(v)
}

func (r *RWValue[T]) set(v T) {
	r.vm.Lock()
	r.v = v
	r.vm.Unlock()
}
'''), (A, '''	v := r.v.Load()
	if v == nil {
		v = new(T)
	}
	n, err := lr(*v)
''', '''	n, err := lr(r.Load())
'''), (A, '''	r.v.Store(&n)
	return nil
''', '''	r.set(n)
	return nil
'''), (A, '''	"sync"
	"sync/atomic"
''', '''	"sync"
''')]),
('pipe-deliver', 'C21 C23 C25 C27', [(T, '''		r = r.otelStart()
		r = p.processReq(r)
		p.calcExitStats(r)
		if p.delayWarning != 0 {
			for {
				tick.Reset(p.delayWarning)
				select {
				case p.out <- r:
				case <-tick.C:
					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue
				}
				break
			}
		} else {
			p.out <- r
		}
	}
}
''', '''		r = p.processReq(r.otelStart())
		p.calcExitStats(r)
		p.deliver(r, tick, id)
	}
}

// deliver hands the request to the demultiplexer.
func (p *pipeline[T]) deliver(r Request[T], tick *time.Ticker, id string) {
	if tick == nil {
		p.out <- r
		return
	}
	for sent := false; !sent; {
		tick.Reset(p.delayWarning)
		select {
		case <-tick.C:
			log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
		case p.out <- r:
			sent = true
		}
	}
}
''')]),
('pipe-stages', 'C22 C23 C24', [(T, '''	stage, stageName := Stage[T](p.sm.Start), p.startName
	for {
		r = p.execStage(r, stage, stageName)
		if r.Err != nil {
			return r
		}
		stage = r.Next
		r.Next = nil

		if stage == nil {
			return r
		}
		stageName = methodName(stage)
	}
}
''', '''	r.Next = nil
	for stage, stageName := Stage[T](p.sm.Start), p.startName; ; stage, stageName = p.following(&r) {
		if stage == nil {
			break
		}
		r = p.execStage(r, stage, stageName)
		if r.Err != nil {
			break
		}
	}
	return r
}

// following returns the stage that the request is routed to.
func (p *pipeline[T]) following(r *Request[T]) (Stage[T], string) {
	next := r.Next
	r.Next = nil
	if next == nil {
		return nil, ""
	}
	return next, methodName(next)
}
''')]),
('stats-mutex', 'C26', [(ST, '''	for {
		c := (*current).Load()
		if v >= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	for c := current.Load(); v < c; c = current.Load() {
		if current.CompareAndSwap(c, v) {
			return
		}
	}
'''), (ST, '''	for {
		c := (*current).Load()
		if v <= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
	}
''', '''	for c := current.Load(); v > c; c = current.Load() {
		if current.CompareAndSwap(c, v) {
			return
		}
	}
''')]),
('queue-mutex', 'C28', [(Q, '''	head  atomic.Pointer[node[A]]
	tail  atomic.Pointer[node[A]]
	dummy node[A]
}
''', '''	mu   sync.Mutex
	data []A
}
'''), (Q, '''	var s simple[A]
	s.head.Store(&s.dummy)
	s.tail.Store(s.head.Load())
	return &s
''', '''	return &simple[A]{}
'''), (Q, '''	for {
		h := s.head.Load()
		n := h.next.Load()
		if n != nil {
			if s.head.CompareAndSwap(h, n) {
				return n.val, true
			} else {
				continue
			}
		} else {
			var v A
			return v, false
		}
	}
''', '''	s.mu.Lock()
	defer s.mu.Unlock()

	if len(s.data) == 0 {
		var x A
		return x, false
	}
	x := s.data[0]
	s.data = s.data[1:]
	return x, true
'''), (Q, '''	n := &node[A]{val: val}
	for {
		rt := s.tail.Load()

		if rt.next.CompareAndSwap(nil, n) {
			s.tail.Store(n)
			return
		} else {
			continue
		}
	}
''', '''	s.mu.Lock()
	defer s.mu.Unlock()

	s.data = append(s.data, val)
'''), (Q, '''	"sync/atomic"
''', '''	"sync"
	"sync/atomic"
''')]),
]
