// Package pools has the harnesses for the goroutine pools (C01 to C07).
package pools

import (
	"context"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/internal/register"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/rt"
	"github.com/gostdlib/concurrency/zzverif/tr"
)

type ctxKey struct{}

// mk makes the pool under test: kind 0 is the limited one, 1 the pooled one.
func mk(name string, size int) (goroutines.Pool, goroutines.SubmitOption) {
	if rt.Param("named", 0) == 1 {
		// the name may be taken by another live pool
		name = "a"
		if rt.Bool("name taken") {
			_, err := limited.New(name, 1)
			rt.Assert(err == nil, "New of a valid name and size failed")
		}
	}
	if rt.Param("kind", 0) == 0 {
		p, err := limited.New(name, size)
		rt.Assert(err == nil, "New of a valid name and size failed")
		return p, limited.NonBlocking()
	}
	p, err := pooled.New(name, size)
	rt.Assert(err == nil, "New of a valid name and size failed")
	return p, pooled.NonBlocking()
}

func maybeNB(nb goroutines.SubmitOption) []goroutines.SubmitOption {
	if rt.Param("oneorder", 0) == 1 {
		// few decisions: every third one
		nbCount++
		if nbCount%3 == 0 {
			return []goroutines.SubmitOption{nb}
		}
		return nil
	}
	if rt.Bool("nonblocking") {
		return []goroutines.SubmitOption{nb}
	}
	return nil
}

var nbCount int

// contexts returns a function that gives the context of each Submit: a plain
// one or, with the parameter, maybe one that is cancelled at any moment.
func contexts() func() context.Context {
	plain := context.WithValue(tr.Background(), ctxKey{}, 7)
	if rt.Param("ctx", 0) == 0 {
		return func() context.Context { return plain }
	}
	stopped, cancel := context.WithCancel(plain)
	if rt.Param("ctx", 0) == 1 {
		cancel()
	} else {
		go func() {
			rt.Model()
			rt.Yield()
			cancel()
		}()
	}
	return func() context.Context {
		if rt.Bool("cancelled context") {
			return stopped
		}
		return plain
	}
}

// Jobs (C01): jobs are submitted by the main goroutine and by a second one;
// Wait; then once more.
func Jobs() {
	size := rt.Param("size", 1)
	n := rt.Param("jobs", 2)
	m := rt.Param("more", 0)
	p, nb := mk("", size)
	ran := make([]int, n+m+1)
	fin := make([]int, n+m+1)
	contextOf := contexts()
	submit := func(i int) {
		ctx := contextOf()
		err := p.Submit(ctx, func(c context.Context) {
			rt.Assert(c == ctx, "the job did not get the context given to Submit")
			ran[i]++
			rt.Yield()
			fin[i]++
		}, maybeNB(nb)...)
		rt.Assert(err == nil, "Submit of a valid job failed")
	}
	done := make(chan bool, 1)
	if m > 0 {
		go func() {
			for i := n; i < n+m; i++ {
				submit(i)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		submit(i)
	}
	if m > 0 {
		<-done
	}
	p.Wait()
	for i := 0; i < n+m; i++ {
		rt.Assert(ran[i] == 1, "a job did not run exactly once before Wait returned")
		rt.Assert(fin[i] == 1, "Wait returned before a job had finished")
	}
	rt.Cover("first wait")
	if rt.Param("again", 0) == 1 {
		submit(n + m)
		p.Wait()
		rt.Assert(fin[n+m] == 1, "a job submitted after Wait did not run to its end before the next Wait returned")
		rt.Assert(ran[n+m] == 1, "a job submitted after Wait ran more than once")
		rt.Cover("second wait")
	}
	for i := 0; i < n+m; i++ {
		rt.Assert(ran[i] == 1, "a job ran again")
	}
}

// Early (C01): Wait is called while a second goroutine is still submitting;
// the jobs whose Submit has returned are covered.
func Early() {
	p, nb := mk("", rt.Param("size", 1))
	contextOf := contexts()
	var submitted, finished [3]bool
	n := rt.Param("jobs", 2)
	stop := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			err := p.Submit(contextOf(), func(context.Context) {
				rt.Yield()
				rt.Atomic(func() { finished[i] = true })
			}, maybeNB(nb)...)
			rt.Assert(err == nil, "Submit of a valid job failed")
			rt.Atomic(func() { submitted[i] = true })
		}
		close(stop)
	}()
	// not before the first Submit has returned: WaitGroup rules
	rt.Yield()
	var before [3]bool
	ok := false
	rt.Atomic(func() { before = submitted; ok = submitted[0] })
	rt.Assume(ok)
	p.Wait()
	rt.Atomic(func() {
		for i := range before {
			rt.Assert(!before[i] || finished[i], "Wait returned before a job had finished whose Submit had returned")
		}
	})
	<-stop
	p.Wait()
	for i := 0; i < n; i++ {
		rt.Assert(finished[i], "Wait returned before a job had finished")
	}
	rt.Cover("end")
}

// Limit (C02): never more blocking jobs at a time than the size.
func Limit() {
	size := rt.Param("size", 1)
	n := rt.Param("jobs", 2)
	m := rt.Param("more", 0)
	nbs := rt.Param("nb", 0)
	p, nb := mk("", size)
	contextOf := contexts()
	cur := 0
	job := func(context.Context) {
		rt.Atomic(func() {
			cur++
			rt.Assert(cur <= size, "more blocking jobs run at the same time than the size of the pool")
		})
		rt.Atomic(func() { cur-- })
	}
	free := func(context.Context) { rt.Yield() }
	done := make(chan bool, 1)
	if m > 0 {
		go func() {
			for i := 0; i < m; i++ {
				rt.Assert(p.Submit(contextOf(), job) == nil, "Submit of a valid job failed")
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		if nbs > 0 && rt.Bool("nonblocking first") {
			rt.Assert(p.Submit(contextOf(), free, nb) == nil, "Submit of a valid job failed")
		}
		rt.Assert(p.Submit(contextOf(), job) == nil, "Submit of a valid job failed")
	}
	if m > 0 {
		<-done
	}
	p.Wait()
	rt.Assert(cur == 0, "Wait returned while jobs were running")
	rt.Cover("end")
}

// Full (C02): the pool runs as many jobs at the same time as its size; a
// further Submit waits until one of them finishes and then goes through.
func Full() {
	size := rt.Param("size", 2)
	p, _ := mk("", size)
	contextOf := contexts()
	started := make(chan bool)
	release := make(chan bool)
	job := func(context.Context) {
		started <- true
		<-release
	}
	for i := 0; i < size; i++ {
		rt.Assert(p.Submit(contextOf(), job) == nil, "Submit of a valid job failed")
	}
	for i := 0; i < size; i++ {
		<-started
	}
	rt.Cover("all slots run")
	lateRan := false
	through := make(chan bool)
	released := false
	go func() {
		rt.Assert(p.Submit(contextOf(), func(context.Context) {
			rt.Atomic(func() {
				rt.Assert(released, "a blocking job ran although the pool was saturated")
				lateRan = true
			})
		}) == nil, "Submit of a valid job failed")
		rt.Atomic(func() { rt.Assert(released, "a blocking Submit returned although the pool was saturated") })
		close(through)
	}()
	rt.Yield()
	rt.Atomic(func() { released = true })
	release <- true // one job finishes
	<-through       // the waiting Submit goes through
	for i := 1; i < size; i++ {
		release <- true
	}
	p.Wait()
	rt.Assert(lateRan, "the job of a Submit that had to wait did not run")
	rt.Cover("end")
}

// Reject (C03): a Submit that returns an error has no effect.
func Reject() {
	size := rt.Param("size", 1)
	kind := rt.Param("kind", 0)
	p, _ := mk("", size)
	contextOf := contexts()
	ran := false
	job := func(context.Context) { rt.Atomic(func() { ran = true }) }
	nOpts := rt.Int("options", 0, rt.Param("maxopts", 2))
	bad := false
	var opts []goroutines.SubmitOption
	for i := 0; i < nOpts; i++ {
		switch rt.Int("option", 0, 3) {
		case 0:
			opts = append(opts, limited.NonBlocking())
			bad = bad || kind != 0
		case 1:
			opts = append(opts, pooled.NonBlocking())
			bad = bad || kind != 1
		case 2:
			opts = append(opts, limited.Caller("x"))
			bad = bad || kind != 0
		case 3:
			opts = append(opts, pooled.Caller("x"))
			bad = bad || kind != 1
		}
	}
	if rt.Bool("nil job") {
		job = nil
		bad = true
	}
	err := p.Submit(contextOf(), job, opts...)
	if bad {
		rt.Assert(err != nil, "Submit of a nil job or with an option of the other kind of pool was accepted")
		rt.Assert(p.Running() == 0, "a rejected Submit changed Running")
		rt.Cover("rejected")
	} else {
		rt.Assert(err == nil, "Submit of a valid job failed")
		rt.Cover("accepted")
	}
	p.Wait() // must not block on a rejected job
	if !bad {
		rt.Assert(ran, "an accepted job did not run")
	} else {
		rt.Assert(!ran, "a rejected job ran")
	}
	// the pool still has all its slots
	started := make(chan bool)
	release := make(chan bool)
	for i := 0; i < size; i++ {
		rt.Assert(p.Submit(contextOf(), func(context.Context) { started <- true; <-release }) == nil, "Submit of a valid job failed")
	}
	for i := 0; i < size; i++ {
		<-started
	}
	rt.Assert(p.Running() >= size, "Running is less than the number of executing jobs")
	close(release)
	p.Wait()
	rt.Assert(p.Running() == 0, "Running is not 0 after Wait")
	if bad {
		rt.Assert(!ran, "a rejected job ran")
	}
	rt.Cover("end")
}

// NonBlocking (C04): the non-blocking job is the one that all others wait for.
func NonBlocking() {
	size := rt.Param("size", 1)
	p, nb := mk("", size)
	contextOf := contexts()
	release := make(chan bool)
	total := rt.Param("jobs", 2)
	late := make(chan bool)
	if rt.Param("late", 0) == 1 {
		// a blocking Submit competes with the non-blocking one
		go func() {
			rt.Assert(p.Submit(contextOf(), func(context.Context) { <-release }) == nil, "Submit of a valid job failed")
			close(late)
		}()
	} else {
		close(late)
	}
	for i := 0; i < total; i++ {
		var opts []goroutines.SubmitOption
		if rt.Param("late", 0) == 1 || i >= size || rt.Bool("nonblocking") {
			opts = append(opts, nb)
		}
		rt.Assert(p.Submit(contextOf(), func(context.Context) { <-release }, opts...) == nil, "Submit of a valid job failed")
	}
	rt.Cover("others submitted")
	rt.Assert(p.Submit(contextOf(), func(context.Context) { close(release) }, nb) == nil, "Submit of a valid job failed")
	<-late
	p.Wait()
	rt.Cover("end")
}

// Close (C05)
func Close() {
	rt.NoLeak()
	size := rt.Param("size", 1)
	n := rt.Param("jobs", 1)
	p, nb := mk("a", size)
	rt.Assert(p.GetName() == "a", "the first pool of a name does not have that name")
	contextOf := contexts()
	fin := make([]int, n)
	for i := 0; i < n; i++ {
		err := p.Submit(contextOf(), func(c context.Context) {
			rt.Yield()
			fin[i]++
		}, maybeNB(nb)...)
		rt.Assert(err == nil, "Submit of a valid job failed")
	}
	p.Close()
	for i := 0; i < n; i++ {
		rt.Assert(fin[i] == 1, "Close returned before a job had finished")
	}
	rt.Cover("closed")
	var q goroutines.Pool
	var err error
	if rt.Bool("other kind") == (rt.Param("kind", 0) == 0) {
		q, err = pooled.New("a", 1)
	} else {
		q, err = limited.New("a", 1)
	}
	rt.Assert(err == nil, "New of a valid name and size failed")
	rt.Assert(q.GetName() == "a", "the name of a closed pool is not free")
	q.Close()
	q, err = limited.New("a", 1)
	rt.Assert(err == nil && q.GetName() == "a", "the name of a closed pool is not free")
	q.Close()
	rt.Cover("end")
}

// Validate (C06): any short name, any size.
func Validate() {
	name := rt.String("name", rt.Param("len", 4))
	size := rt.Int("size", -1, 2)
	bad := size < 1
	vt := false
	for i := 0; i < len(name); i++ {
		c := name[i]
		bad = bad || (c >= '0' && c <= '9') || c == '-' || c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'
		vt = vt || c == '\v'
	}
	rt.Assume(!vt) // not decided here: not in the documented class everywhere
	var err error
	if rt.Param("kind", 0) == 0 {
		_, err = limited.New(name, size)
	} else {
		_, err = pooled.New(name, size)
	}
	if bad {
		rt.Assert(err != nil, "New accepted a bad name or size")
		rt.Cover("refused")
	} else {
		rt.Assert(err == nil, "New refused a good name and size")
		rt.Cover("accepted")
	}
}

// numbered tells whether s is base, a hyphen and a number.
func numbered(s, base string) bool {
	if len(s) < len(base)+2 || s[:len(base)] != base || s[len(base)] != '-' {
		return false
	}
	for i := len(base) + 1; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func newAny(name string) goroutines.Pool {
	var p goroutines.Pool
	var err error
	if rt.Param("kind", 0) == 0 {
		p, err = limited.New(name, 1)
	} else {
		p, err = pooled.New(name, 1)
	}
	rt.Assert(err == nil, "New of a valid name and size failed")
	return p
}

// Names (C06): many pools of one name, one of which may be closed meanwhile.
func Names() {
	n := rt.Param("pools", 3)
	base := "a"
	if rt.Param("multi", 0) == 1 && rt.Bool("long base") {
		base = "ab_c"
	}
	live := make([]goroutines.Pool, 0, n+1)
	for i := 0; i < n; i++ {
		p := newAny(base)
		if len(live) == 0 {
			rt.Assert(p.GetName() == base, "the first pool of a name does not have that name")
		} else {
			rt.Assert(p.GetName() == base || numbered(p.GetName(), base), "a later pool is not called base-number")
		}
		for _, q := range live {
			rt.Assert(q.GetName() != p.GetName(), "two live pools have the same name")
		}
		live = append(live, p)
		if rt.Param("closing", 0) == 1 && i == n-2 {
			k := rt.Int("close", 0, n-1)
			if k < len(live) {
				live[k].Close()
				live = append(live[:k], live[k+1:]...)
			}
		}
	}
	if rt.Param("list", 1) == 1 {
		list(live)
	}
	rt.Cover("end")
}

// list checks the registry against the live named pools.
func list(live []goroutines.Pool) {
	seen := make([]int, len(live))
	for p := range register.Pools() {
		found := false
		for i, q := range live {
			if p == q {
				seen[i]++
				found = true
			}
		}
		rt.Assert(found, "a pool that is not live and named is listed")
	}
	for i := range seen {
		rt.Assert(seen[i] == 1, "a live pool is not listed exactly once")
	}
}

// Concurrent (C06): pools of one name made at the same time.
func Concurrent() {
	n := rt.Param("pools", 2)
	ps := make([]goroutines.Pool, n)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		go func() {
			ps[i] = newAny("a")
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	base := 0
	for i := range ps {
		if ps[i].GetName() == "a" {
			base++
		} else {
			rt.Assert(numbered(ps[i].GetName(), "a"), "a later pool is not called base-number")
		}
		for j := range ps {
			rt.Assert(i == j || ps[i].GetName() != ps[j].GetName(), "two live pools have the same name")
		}
	}
	rt.Assert(base == 1, "not exactly one pool got the base name")
	list(ps)
	rt.Cover("end")
}

// Unnamed (C06): pools with the empty name are not registered.
func Unnamed() {
	a, err := limited.New("", 1)
	rt.Assert(err == nil && a.GetName() == "", "an unnamed pool failed or got a name")
	b, err := pooled.New("", 1)
	rt.Assert(err == nil && b.GetName() == "", "an unnamed pool failed or got a name")
	list(nil)
	c := newAny("a")
	if rt.Bool("close unnamed") {
		a.Close()
	}
	d := newAny("b")
	rt.Assert(c.GetName() == "a" && d.GetName() == "b", "the first pool of a name does not have that name")
	list([]goroutines.Pool{c, d})
	rt.Cover("end")
}

// Counters (C07)
func Counters() {
	size := rt.Param("size", 1)
	n := rt.Param("jobs", 2)
	p, nb := mk("", size)
	contextOf := contexts()
	rt.Assert(p.Len() == size, "Len of a new pool is not its size")
	rt.Assert(p.Running() == 0, "Running of a new pool is not 0")
	begun, executing := 0, 0
	look := func() {
		rt.Atomic(func() {
			r := p.Running()
			rt.Assert(r >= 0, "Running is negative")
			rt.Assert(r >= executing, "Running is less than the number of executing jobs")
			rt.Assert(r <= begun, "Running is more than the number of submissions")
		})
		rt.Assert(p.Len() == size, "Len is not the size of the pool")
	}
	if rt.Param("watch", 1) == 1 {
		go func() {
			rt.Model()
			for i := 0; i < rt.Param("looks", 1); i++ {
				rt.Yield()
				look()
			}
		}()
	}
	for round := 0; round < rt.Param("again", 1); round++ {
		for i := 0; i < n; i++ {
			rt.Atomic(func() { begun++ })
			rt.Assert(p.Submit(contextOf(), func(context.Context) {
				rt.Atomic(func() { executing++ })
				if rt.Param("inside", 0) == 1 {
					look()
				}
				rt.Atomic(func() { executing-- })
			}, maybeNB(nb)...) == nil, "Submit of a valid job failed")
		}
		p.Wait()
		rt.Assert(p.Running() == 0, "Running is not 0 after Wait")
		rt.Assert(p.Len() == size, "Len is not the size of the pool")
		rt.Cover("waited")
	}
}

// Working (C06): Close waits for a job; the pool is live meanwhile and keeps its name.
func Working() {
	p, nb := mk("a", 1)
	rt.Assert(p.GetName() == "a", "the first pool of a name does not have that name")
	var mid goroutines.Pool
	err := p.Submit(context.Background(), func(context.Context) {
		if rt.Bool("other name") {
			b := newAny("b")
			rt.Assert(b.GetName() == "b", "the first pool of a name does not have that name")
			list([]goroutines.Pool{p, b})
			b.Close()
			return
		}
		mid = newAny("a")
		rt.Assert(mid.GetName() != "a", "two live pools have the same name")
		list([]goroutines.Pool{p, mid})
	}, maybeNB(nb)...)
	rt.Assert(err == nil, "Submit of a valid job failed")
	p.Close()
	live := []goroutines.Pool{newAny("a")}
	rt.Assert(live[0].GetName() == "a", "the name of a closed pool is not free")
	if mid != nil {
		live = append(live, mid)
		rt.Cover("made meanwhile")
	}
	list(live)
	rt.Cover("end")
}

// Churn (C06): a pool is closed while others of its name are made and listed.
func Churn() {
	n := rt.Param("pools", 1)
	p := newAny("a")
	ps := make([]goroutines.Pool, n)
	done := make(chan bool, n+2)
	for i := 0; i < n; i++ {
		go func() {
			ps[i] = newAny("a")
			done <- true
		}()
	}
	go func() {
		p.Close()
		done <- true
	}()
	if rt.Param("look", 0) == 1 {
		go func() {
			k := 0
			for q := range register.Pools() {
				rt.Assert(q != nil, "a nil pool is listed")
				k++
			}
			rt.Assert(k <= n+1, "more pools are listed than there are")
			done <- true
		}()
		<-done
	}
	for i := 0; i < n+1; i++ {
		<-done
	}
	for i := range ps {
		rt.Assert(ps[i].GetName() == "a" || numbered(ps[i].GetName(), "a"), "a later pool is not called base-number")
		for j := range ps {
			rt.Assert(i == j || ps[i].GetName() != ps[j].GetName(), "two live pools have the same name")
		}
	}
	list(ps)
	q := newAny("a")
	for i := range ps {
		rt.Assert(q.GetName() != ps[i].GetName(), "two live pools have the same name")
	}
	rt.Cover("end")
}
