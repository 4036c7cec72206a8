// Package errs has the harness for goroutines.Errors (C08).
package errs

import (
	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/zzverif/rt"
)

type E struct {
	who, n     int
	begin, end int
}

func (e *E) Error() string { return "e" }

func index(l []error, e *E) int {
	at := -1
	for i := range l {
		if l[i] == error(e) {
			rt.Assert(at < 0, "a recorded error is in Errors twice")
			at = i
		}
	}
	return at
}

// Record has some goroutines record errors while others look.
func Record() {
	n := rt.Param("recorders", 2)
	k := rt.Param("each", 2)
	looks := rt.Param("looks", 0)
	e := &goroutines.Errors{}
	rt.Assert(e.Error() == nil, "Error of an empty collection is not nil")
	rt.Assert(len(e.Errors()) == 0, "Errors of an empty collection is not empty")
	var all []*E
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			all = append(all, &E{who: i, n: j})
		}
	}
	clock := 0
	tick := func(p *int) { rt.Atomic(func() { clock++; *p = clock }) }
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		go func() {
			for j := 0; j < k; j++ {
				x := all[i*k+j]
				if rt.Param("stamps", 1) == 1 {
					tick(&x.begin)
				}
				e.Record(x)
				if rt.Param("stamps", 1) == 1 {
					tick(&x.end)
				}
				if rt.Param("self", 0) == 1 {
					rt.Assert(index(e.Errors(), x) >= 0, "an error that was recorded is missing from Errors")
					rt.Assert(e.Error() != nil, "Error is nil although an error was recorded")
				}
			}
			done <- true
		}()
	}
	for i := 0; i < looks; i++ {
		first := e.Error()
		l := e.Errors()
		rt.Assert(len(l) <= n*k, "Errors has more elements than were recorded")
		saved := make([]error, len(l))
		copy(saved, l)
		if first != nil {
			rt.Assert(len(l) > 0 && l[0] == first, "Error is not the first element of Errors")
		}
		rt.Yield()
		for i := range saved {
			rt.Assert(saved[i] != nil, "Errors has an element that nobody recorded")
			rt.Assert(l[i] == saved[i], "a list handed out was changed by a later Record")
		}
		rt.Cover("looked")
	}
	for i := 0; i < n; i++ {
		<-done
	}
	l := e.Errors()
	rt.Assert(len(l) == n*k, "Errors does not hold exactly the recorded errors")
	for _, a := range all {
		rt.Assert(index(l, a) >= 0, "a recorded error is lost")
		for _, b := range all {
			before := a.who == b.who && a.n < b.n
			before = before || a.end != 0 && a.end < b.begin
			if before {
				rt.Assert(index(l, a) < index(l, b), "the order of Errors contradicts the order of the Record calls")
			}
		}
	}
	rt.Assert(e.Error() == l[0], "Error is not the first element of Errors")
	rt.Cover("end")
}

// Handed: lists handed out between records stay as they are, and what the
// caller does with them does not change the collection.
func Handed() {
	e := &goroutines.Errors{}
	n := rt.Param("each", 4)
	all := make([]*E, n)
	var lists [8][]error
	for i := 0; i < n; i++ {
		all[i] = &E{n: i}
		e.Record(all[i])
		lists[i] = e.Errors()
		if rt.Bool("scribble") {
			// the list is the caller's
			_ = append(lists[i], &E{n: -1})
		}
	}
	for i := 0; i < n; i++ {
		rt.Assert(len(lists[i]) == i+1, "a list handed out has the wrong length")
		for j := range lists[i] {
			rt.Assert(lists[i][j] == error(all[j]), "a list handed out was changed by a later Record")
		}
	}
	l := e.Errors()
	rt.Assert(len(l) == n && e.Error() == error(all[0]), "Errors or Error is wrong")
	rt.Cover("end")
}
