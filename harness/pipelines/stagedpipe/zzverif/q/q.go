// Package q has the harness for the internal queue (C28).
package q

import (
	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/zzverif/rt"
)

// op is one push or pop with the moments of its begin and its end.
type op struct {
	val        int
	begin, end int
	ok         bool
}

// Queue (C28)
func Queue() {
	pushers := rt.Param("pushers", 1)
	poppers := rt.Param("poppers", 1)
	each := rt.Param("each", 2) // pushes per pusher
	size := rt.Param("size", 0)
	n := pushers * each
	pops := rt.Param("pops", 0) // pops per popper, 0: until the end
	q := queue.New[int](size)
	now := 0
	push := make([]op, n)
	pushed := 0  // returned pushes
	started := 0 // pops begun
	closed := false
	pfin := make(chan bool, pushers)
	for i := 0; i < pushers; i++ {
		go func() {
			for k := 0; k < each; k++ {
				o := &push[i*each+k]
				o.val = i*each + k + 1
				now++
				o.begin = now
				q.Push(o.val)
				now++
				o.end = now
				pushed++
				if size > 0 {
					rt.Assert(pushed-started <= size, "the queue holds more than its size")
				}
			}
			pfin <- true
		}()
	}
	cfin := make(chan bool, poppers)
	got := make([][]op, poppers)
	seen := make([]int, n+1)
	popped, inside := 0, 0
	late := rt.Param("late", 0) == 1 // the poppers begin after Close
	open := make(chan bool)
	for c := 0; c < poppers; c++ {
		go func() {
			if late {
				<-open
			}
			for k := 0; pops == 0 || k < pops; k++ {
				var o op
				now++
				o.begin = now
				wasClosed := closed
				started++
				inside++
				o.val, o.ok = q.Pop()
				inside--
				now++
				o.end = now
				if !o.ok {
					rt.Assert(closed, "Pop reports the end although the queue is open")
					rt.Assert(o.val == 0, "Pop returns a value at the end")
					// what is left can only be in the hands of others inside Pop
					rt.Assert(pushed-popped <= inside, "Pop reports the end although values are left")
					rt.Cover("end")
					got[c] = append(got[c], o)
					break
				}
				_ = wasClosed
				rt.Assert(o.val >= 1 && o.val <= n, "Pop returns a value that was not pushed")
				seen[o.val]++
				popped++
				rt.Assert(seen[o.val] == 1, "a value was popped twice")
				rt.Assert(push[o.val-1].begin > 0, "Pop returns a value that was not pushed")
				got[c] = append(got[c], o)
				if late {
					rt.Yield()
				}
			}
			cfin <- true
		}()
	}
	for i := 0; i < pushers; i++ {
		<-pfin
	}
	if pops == 0 || rt.Param("close", 0) == 1 {
		closed = true
		q.Close()
	}
	close(open)
	for c := 0; c < poppers; c++ {
		<-cfin
	}
	if pops == 0 {
		for v := 1; v <= n; v++ {
			rt.Assert(seen[v] == 1, "the end was reported before every value was popped")
		}
	}
	// order: x pushed before y is popped before y
	where := make([]*op, n+1)
	for c := range got {
		last := -1
		for k := range got[c] {
			o := &got[c][k]
			if o.ok {
				where[o.val] = o
			}
			if pushers == 1 && o.ok {
				rt.Assert(o.val > last, "values are popped out of order")
				last = o.val
			}
		}
	}
	for x := 1; x <= n; x++ {
		for y := 1; y <= n; y++ {
			if push[x-1].end < push[y-1].begin && where[y] != nil {
				rt.Assert(where[x] != nil, "a value was popped before one that was pushed earlier")
				rt.Assert(where[y].end > where[x].begin, "values are popped out of order")
			}
		}
	}
	rt.Cover("all")
}

// Full (C28): Push waits for room and Pop makes room.
func Full() {
	size := rt.Param("size", 1)
	q := queue.New[int](size)
	for i := 1; i <= size; i++ {
		q.Push(i)
	}
	done, room := false, false
	fin := make(chan bool, 1)
	go func() {
		q.Push(size + 1)
		done = true
		rt.Assert(room, "Push did not wait for room")
		fin <- true
	}()
	rt.Yield()
	rt.Assert(!done, "Push did not wait for room")
	room = true
	for i := 1; i <= size+1; i++ {
		v, ok := q.Pop()
		rt.Assert(ok && v == i, "Pop does not return the values in order")
	}
	<-fin
	q.Close()
	v, ok := q.Pop()
	rt.Assert(!ok && v == 0, "Pop of a closed empty queue returns a value")
	v, ok = q.Pop()
	rt.Assert(!ok && v == 0, "Pop of a closed empty queue returns a value")
	rt.Cover("end")
}
