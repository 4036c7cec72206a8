From 87552486034946711e037f1376a1849cc47bdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 01/29] fix: limited.Pool holds a slot until the job is done,
 not only during Submit

---
 goroutines/limited/goroutines.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..10e51d4 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -161,6 +160,10 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	go func() {
 		defer p.wg.Done()
 		defer p.running.Add(-1)
+		if !opts.NonBlocking {
+			// The slot is ours until the job is done.
+			defer func() { <-p.queue }()
+		}
 		runner(ctx)
 	}()
 
-- 
2.43.0


From 476dfc09fd43029233e7b646ab3537bf56448eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 02/29] fix: Pool.Len reports the size of the pool instead of
 the length of its queue

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 10e51d4..61177f1 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..b0451b1 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From 286d6104a27db1a7b38e4a4d8b279605376736b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 03/29] fix: pooled.Pool hands jobs only to free goroutines
 instead of parking one in the queue

---
 goroutines/pooled/goroutines.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index b0451b1..9dc93e2 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -48,7 +48,8 @@ func New(name string, size int) (*Pool, error) {
 		return nil, err
 	}
 
-	ch := make(chan submit, 1)
+	// Unbuffered, so that a job is only ever handed to a goroutine that is free to run it.
+	ch := make(chan submit)
 	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
-- 
2.43.0


From 0330fb68078ad51cd2cd45dd63e631b5ff988665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 04/29] fix: New finds a free name when more than two pools
 share a base name

---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e05f045 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -60,7 +60,7 @@ func NewName(name string) string {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
+	sp := strings.Split(name, "-")
 	n, err := strconv.Atoi(sp[1])
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 61177f1..6a530ec 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 9dc93e2..a0911b8 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -57,7 +57,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From 530dd93f3775378526d952f81b9597765782daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 05/29] fix: register.Pools closes its channel once all pools
 were sent

---
 goroutines/internal/register/register.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e05f045..d95aa0c 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -74,6 +74,7 @@ func NewName(name string) string {
 func Pools() chan goroutines.Pool {
 	ch := make(chan goroutines.Pool, 1)
 	go func() {
+		defer close(ch)
 		mu.RLock()
 		defer mu.RUnlock()
 		for _, p := range registry {
-- 
2.43.0


From 3ddb29fc713b299406c99560852f8f503f75f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 06/29] fix: Errors.Error and Errors.Errors read the list under
 its lock and hand out a copy

---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From cb49a14db09baefd589e479a386809b6f73f0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 07/29] fix: RWValue.LoadReplace works on the zero value when
 nothing was stored yet

---
 prim/atomics/atomics.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..c4e89cd 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -48,16 +48,10 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	defer r.mu.Unlock()
 
 	v := r.v.Load()
-	var n T
-	var err error
 	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
+		v = new(T)
 	}
-	n, err = lr(*v)
+	n, err := lr(*v)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1faa7b740a88529957c9e92f9d59b68597e7a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 08/29] fix: Group counts a function as finished before it lets
 Wait return

---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..de911c9 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -123,8 +123,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -145,8 +145,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 676ae20352209043aa659d3c49893a04d2669771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 09/29] fix: Group.Wait reports every error instead of only the
 last one

---
 prim/wait/wait.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index de911c9..a2d1d92 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From b5fc6d24488e59bde0a00a2357ca2102b2cc6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 10/29] fix: Group.Wait reports a function its pool rejected
 instead of waiting for it forever

---
 prim/wait/wait.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index a2d1d92..d46e7ec 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -143,7 +143,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	}
 
 	w.wg.Add(1)
-	w.Pool.Submit(
+	err := w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
 			defer w.wg.Done()
@@ -163,6 +163,12 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 		},
 		w.PoolOptions...,
 	)
+	if err != nil {
+		// The pool did not take the function, so nobody else will account for it.
+		applyErr(&w.errors, err)
+		w.count.Add(-1)
+		w.wg.Done()
+	}
 }
 
 // Running returns the number of goroutines that are currently running.
-- 
2.43.0


From 64f5e8b687c3bb908bf6323aed4c96aa7a0bd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 11/29] fix: slices.Access accepts its options

---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e70d5ed6177de26a67f4c225abd02e59ba490743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 12/29] fix: WithPoolOptions of slices and chans uses the given
 pool

---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 24bd314d4b7181cdc678e3592da080434ebf0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 13/29] fix: slices.Access waits for its accessors and reports
 their errors when it is stopped

---
 prim/slices/slice.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..b546a2f 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,12 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var stopped error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopped = ctx.Err(); stopped != nil {
+			break
 		}
 
 		wg.Go(
@@ -83,7 +84,11 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 			},
 		)
 	}
-	if err := wg.Wait(ctx); err != nil {
+	err := wg.Wait(ctx)
+	if err == nil {
+		err = stopped
+	}
+	if err != nil {
 		spanner.Error(err)
 		return err
 	}
-- 
2.43.0


From fa97600acd507d62cb6a65d7e756b0c57c5b5b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 14/29] fix: chans.Access waits for its accessors and reports
 their errors when it is stopped

---
 prim/chans/chans.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..a4b5c91 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,12 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var stopped error
 	for v := range input {
 		v := v
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopped = ctx.Err(); stopped != nil {
+			break
 		}
 
 		wg.Go(
@@ -148,7 +149,11 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 			},
 		)
 	}
-	if err := wg.Wait(ctx); err != nil {
+	err := wg.Wait(ctx)
+	if err == nil {
+		err = stopped
+	}
+	if err != nil {
 		spanner.Error(err)
 		return err
 	}
-- 
2.43.0


From 87629bd5acc3ee4e48996fb96bfa14056d22956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 15/29] fix: chans.Access stops on cancellation while it waits
 for input

---
 prim/chans/chans.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index a4b5c91..59105da 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -132,9 +132,16 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
 	var stopped error
-	for v := range input {
-		v := v
-
+	for {
+		var v T
+		open := true
+		select {
+		case <-ctx.Done():
+		case v, open = <-input:
+		}
+		if !open {
+			break
+		}
 		if stopped = ctx.Err(); stopped != nil {
 			break
 		}
-- 
2.43.0


From 24e9cc287c5f14e21ec40399d1dcb3a9a2f4aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 16/29] fix: chans.Modify stops on cancellation when nobody
 takes its results

---
 prim/chans/chans.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 59105da..e39b65f 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -208,7 +208,11 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 			}
 			return err
 		}
-		output <- StreamResult[R]{Value: r}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case output <- StreamResult[R]{Value: r}:
+		}
 		return nil
 	}
 
-- 
2.43.0


From 7c79c2c334abf7123c7c29c8ba1343afbea70c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 17/29] fix: chans.Modify reports the error of a modifier also
 when its context is cancelled

---
 prim/chans/chans.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index e39b65f..85816d9 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -203,7 +203,6 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 		if err != nil {
 			select {
 			case <-ctx.Done():
-				return ctx.Err()
 			case output <- StreamResult[R]{Err: err}:
 			}
 			return err
-- 
2.43.0


From fd57b9ea2dca9cf83b57a58661314fa7b4219d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 18/29] fix: Pipelines.Close finishes once all requests have
 come out

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..9f98502 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -612,6 +612,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
+				p.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
@@ -623,6 +624,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
+				p.wg.Done()
 				req.otelEnd()
 				r.user <- req
 			}
-- 
2.43.0


From d8cae7af24769276099cb68d33d5122e210fd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 19/29] fix: request groups can be created while others are
 closed

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 9f98502..bbb71e1 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -405,6 +405,8 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		func(r Request[T], err error) {
 			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
 		},
+		// Without this, adding and removing receivers at the same time loses one of the changes.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b764a282c37dd26863c366c2c4e9adbd54923ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 20/29] fix: a Request does not keep the seen stages of a DAG
 pipeline that it left

---
 pipelines/stagedpipe/stagedpipe.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index bbb71e1..b4a16f2 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -726,15 +726,16 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (done Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			seenStagesPool.Put(seen)
+			done.seenStages = nil
 		}()
 	}
 
-- 
2.43.0


From 441cad136f3e49625bd147dcc5e2e21da73e49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 21/29] fix: a Submit that is cancelled leaves no hole in an
 ordered group

---
 pipelines/stagedpipe/stagedpipe.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index b4a16f2..6aca0cd 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -498,6 +498,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// turn is held while a Request is handed to the Pipelines. This way a Request
+	// takes a place in the order only if it was handed over.
+	turn chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -541,8 +544,15 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	select {
+	case <-req.Ctx.Done():
+		return req.Ctx.Err()
+	case r.turn <- struct{}{}:
+	}
+	defer func() { <-r.turn }()
+
 	req.groupNum = r.id
-	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
+	req.itemNum = r.itemNum.Load() // This must start at 0.
 	req.queueTime = time.Now()
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
@@ -561,6 +571,7 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.wg.Done()
 		return req.Ctx.Err()
 	case r.p.in <- req:
+		r.itemNum.Add(1)
 	}
 
 	return nil
@@ -599,6 +610,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		user:      make(chan Request[T], 1),
 		p:         p,
 		startOnce: &sync.Once{},
+		turn:      make(chan struct{}, 1),
 	}
 	p.demux.AddReceiver(id, r.out)
 
-- 
2.43.0


From c0f54102091e26ef7e5ab74c55954f6be231506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 22/29] fix: Stats reports the minimum times instead of always
 0

---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..d88abb6 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,26 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
+}
+
+// loadMin returns the minimum held by current, which is 0 if nothing was measured.
+func loadMin(current *atomic.Int64) time.Duration {
+	v := current.Load()
+	if v == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(v)
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       loadMin(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +82,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: loadMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
-- 
2.43.0


From 0ea2ca56b33ea8febd65c6cb5062a516829cc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 23/29] fix: the queue reports its end only after every entry
 was popped

---
 pipelines/stagedpipe/internal/queue/queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..0a8ea18 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,15 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// This must be looked at before we pop, entries can be added until the close.
+		closed := q.closed.Load()
+
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From 3c24d9e42288f326e934ff243018967affe98e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 24/29] fix: a DAG pipeline recognises a request that is routed
 back to Start

---
 pipelines/stagedpipe/stagedpipe.go | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 6aca0cd..0216317 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -662,9 +662,11 @@ type pipeline[T any] struct {
 	name          string
 	preProcessors []PreProcesor[T]
 	id            int
-	concurrency   int
-	delayWarning  time.Duration
-	ss            bool
+	// startName is the name of the Start() method of sm.
+	startName    string
+	concurrency  int
+	delayWarning time.Duration
+	ss           bool
 }
 
 type pipelineArgs[T any] struct {
@@ -694,6 +696,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		sm:            args.sm,
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
+		startName:     startName(args.sm),
 	}
 
 	p.concurrency = numStages[T](args.sm) + args.subStages
@@ -759,9 +762,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (done Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, stageName := Stage[T](p.sm.Start), p.startName
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, stageName)
 		if r.Err != nil {
 			return r
 		}
@@ -771,14 +774,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (done Request[T]) {
 		if stage == nil {
 			return r
 		}
+		stageName = methodName(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
@@ -799,7 +801,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -848,3 +850,17 @@ func methodName(method any) string {
 		return "<not a function>"
 	}
 }
+
+// startName returns the name that methodName() gives the Start() method of sm when
+// sm is not behind the StateMachine interface, which is how stages refer to it.
+func startName(sm any) string {
+	t := reflect.TypeOf(sm)
+	if t.Kind() == reflect.Pointer {
+		// A method that has a value receiver is named after the type of the value.
+		if m, ok := t.Elem().MethodByName("Start"); ok {
+			return methodName(m.Func.Interface())
+		}
+	}
+	m, _ := t.MethodByName("Start")
+	return methodName(m.Func.Interface())
+}
-- 
2.43.0


From b0091959b8d1c30ae353b124ee6ae492af1111ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 25/29] fix: New that fails leaves no demultiplexer running

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 0216317..f061ee2 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -427,6 +427,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 
 	for _, o := range options {
 		if err := o(p); err != nil {
+			d.Close()
 			return nil, err
 		}
 	}
@@ -450,6 +451,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		_, err := newPipeline(args)
 		if err != nil {
 			close(in)
+			d.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From ec71a47152cee52c8d634769f4f309f79763de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 26/29] fix: wait.Group runs every function in its span and
 ends the span in Wait

---
 prim/wait/wait.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index d46e7ec..86f676d 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -115,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
@@ -194,6 +195,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.Span != nil {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 962ed3f879bc45566ce84dcce5b84b4604931c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 27/29] fix: the span of a stage is ended with the stage, and
 the one of its request used again

---
 pipelines/stagedpipe/stagedpipe.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index f061ee2..e0f02d0 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -782,19 +783,22 @@ func (p *pipeline[T]) processReq(r Request[T]) (done Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (done Request[T]) {
 	parentCtx := r.Ctx
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	if r.span.IsRecording() {
+		stageSpan := r.span
+		defer func() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+			// What the stage has put into the Context otherwise is kept.
+			done.Ctx = trace.ContextWithSpan(done.Ctx, trace.SpanFromContext(parentCtx))
+			done.span = parentSpan
+		}()
+	}
 
 	r.Event(stageName, "start", time.Now())
-	defer func() {
-		r.Event(stageName, "end", time.Now())
-	}()
 
 	// If the context has been cancelled, stop processing.
 	if r.Ctx.Err() != nil {
-- 
2.43.0


From 589046d522fb572461765c8d3943c19d7514889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 28/29] fix: closing a RequestGroup ends its span

---
 pipelines/stagedpipe/stagedpipe.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index e0f02d0..33870be 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -601,6 +601,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
-- 
2.43.0


From 620cfda83f2cd6f4d74d0e9f288efab1ff9e9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 29/29] fix: a Submit that fails ends the span of its request

---
 pipelines/stagedpipe/stagedpipe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 33870be..4c7c241 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -570,6 +570,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	select {
 	case <-req.Ctx.Done():
+		if spanner.IsRecording() {
+			spanner.End()
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
-- 
2.43.0

