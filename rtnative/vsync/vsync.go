// Package vsync has the parts of package sync whose internal steps are
// scheduling points of the executor.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/gostdlib/concurrency/zzverif/rt"
)

type Once struct {
	done atomic.Uint32
	m    sync.Mutex
}

func (o *Once) Do(f func()) {
	rt.P("atomic", "?")
	if o.done.Load() == 0 {
		o.doSlow(f)
	}
}

func (o *Once) doSlow(f func()) {
	rt.P("lock", "?")
	o.m.Lock()
	defer func() { rt.P("unlock", "?"); o.m.Unlock() }()
	rt.P("atomic", "?")
	if o.done.Load() == 0 {
		defer func() { rt.P("atomic", "?"); o.done.Store(1) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// Pool keeps at most one item; whether Get takes it is an input.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	full bool
	slot any
}

func (p *Pool) Put(x any) {
	rt.P("pool", "?")
	p.mu.Lock()
	if !p.full {
		p.full, p.slot = true, x
	}
	p.mu.Unlock()
}

func (p *Pool) Get() any {
	rt.P("pool", "?")
	p.mu.Lock()
	if p.full && rt.Bool("pool reuse") {
		x := p.slot
		p.full, p.slot = false, nil
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

type Map = sync.Map
