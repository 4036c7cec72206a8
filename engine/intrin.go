package main

// Intrinsics: synchronisation primitives, harness primitives, and the
// environment functions that are modelled rather than executed.

import (
	"fmt"
	"go/types"
	"path/filepath"
	"reflect"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type OpCtx struct {
	ex   *Exec
	t    *Thread
	g    Lit
	args []Value
	site *Site
	key  string
	name string
	fn   *ssa.Function
}

type VisDef struct {
	kind    string
	targets func(c *OpCtx) []Target
	enabled func(c *OpCtx) Lit
	effect  func(c *OpCtx) Value
	cont    func(c *OpCtx)
	never   bool
}

type Intrin struct {
	pure func(c *OpCtx) Value
	vis  *VisDef
}

var intrinsics = map[string]*Intrin{}

func pureFn(name string, f func(c *OpCtx) Value) { intrinsics[name] = &Intrin{pure: f} }
func visFn(name string, d *VisDef)               { intrinsics[name] = &Intrin{vis: d} }

const spanPkg = "github.com/gostdlib/internals/otel/span"

func unit() Value { return &Agg{} }

// cells of a pointer argument; nil alternatives are violations.
type cellAlt struct {
	g Lit
	c *Cell
}

func (c *OpCtx) cells(p Value, leaf func(*Cell) *Cell) []cellAlt {
	u, ok := p.(*Union)
	if !ok {
		panic(unsupported{c.name + " on " + show(p)})
	}
	var out []cellAlt
	for _, a := range u.alts {
		ga := and(c.g, a.g)
		if ga == False {
			continue
		}
		pa, ok := a.a.(PtrA)
		if !ok {
			panic(unsupported{c.name + " on " + showAtom(a.a)})
		}
		if pa.o == nil {
			c.ex.violate("panic", "nil pointer dereference in "+c.name+" at "+c.site.loc, ga)
			c.g = and(c.g, not(a.g))
			continue
		}
		cell := pa.o.cell(pa.path)
		if leaf != nil {
			cell = leaf(cell)
		}
		out = append(out, cellAlt{a.g, cell})
	}
	return out
}

func leafNamed(name string) func(*Cell) *Cell {
	return func(c *Cell) *Cell { return findLeaf(c, name) }
}

func findLeaf(c *Cell, name string) *Cell {
	if !c.agg {
		return c
	}
	st, ok := c.typ.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return firstLeaf(c.kids[i])
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if c.kids[i].agg {
				if l := findLeaf(c.kids[i], name); l != nil && (!l.agg) {
					return l
				}
			}
		}
	}
	return nil
}

func firstLeaf(c *Cell) *Cell {
	if !c.agg {
		return c
	}
	for _, k := range c.kids {
		if l := firstLeaf(k); l != nil {
			return l
		}
	}
	return nil
}

func targetsOf(leaf func(*Cell) *Cell, write bool) func(c *OpCtx) []Target {
	return func(c *OpCtx) []Target {
		var out []Target
		if u, ok := c.args[0].(*Union); ok {
			for _, a := range u.alts {
				if p, ok := a.a.(PtrA); ok && p.o != nil && and(c.g, a.g) != False {
					cell := p.o.cell(p.path)
					if leaf != nil {
						cell = leaf(cell)
					}
					out = append(out, Target{cell.id, write})
				}
			}
		}
		return out
	}
}

func intIs(v Value, k int64) Lit {
	i, ok := v.(*Int)
	if !ok {
		panic(unsupported{"state " + show(v)})
	}
	return intEqConst(i, uint64(k)&mask(i.w))
}

func init() {
	atomics()
	locks()
	harness()
	environment()
}

func atomics() {
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		uns := !strings.HasPrefix(ty, "Int")
		_ = uns
		rd := func(c *OpCtx, write bool, f func(ca cellAlt, old Value) (nv Value, cond Lit)) Value {
			var val Value
			for _, ca := range c.cells(c.args[0], firstLeaf) {
				ga := and(c.g, ca.g)
				old := ca.c.ch.read(ga)
				if write {
					nv, cond := f(ca, old)
					ca.c.ch.write(and(ga, cond), nv)
				}
				val = mux(ca.g, old, val)
			}
			return val
		}
		visFn("sync/atomic.Load"+ty, &VisDef{kind: "atomic", targets: targetsOf(firstLeaf, false), effect: func(c *OpCtx) Value {
			return rd(c, false, nil)
		}})
		visFn("sync/atomic.Store"+ty, &VisDef{kind: "atomic", targets: targetsOf(firstLeaf, true), effect: func(c *OpCtx) Value {
			rd(c, true, func(ca cellAlt, old Value) (Value, Lit) { return c.args[1], True })
			return unit()
		}})
		visFn("sync/atomic.Swap"+ty, &VisDef{kind: "atomic", targets: targetsOf(firstLeaf, true), effect: func(c *OpCtx) Value {
			return rd(c, true, func(ca cellAlt, old Value) (Value, Lit) { return c.args[1], True })
		}})
		for _, op := range []string{"Add", "And", "Or"} {
			if ty == "Pointer" {
				continue
			}
			op := op
			sym := map[string]string{"Add": "+", "And": "&", "Or": "|"}[op]
			visFn("sync/atomic."+op+ty, &VisDef{kind: "atomic", targets: targetsOf(firstLeaf, true), effect: func(c *OpCtx) Value {
				var val Value
				for _, ca := range c.cells(c.args[0], firstLeaf) {
					ga := and(c.g, ca.g)
					old, ok1 := ca.c.ch.read(ga).(*Int)
					d, ok2 := c.args[1].(*Int)
					if !ok1 || !ok2 {
						panic(unsupported{c.name})
					}
					nv, _ := intBin(sym, old, d, false)
					ca.c.ch.write(ga, nv)
					if op == "Add" {
						val = mux(ca.g, nv, val)
					} else {
						val = mux(ca.g, old, val)
					}
				}
				return val
			}})
		}
		visFn("sync/atomic.CompareAndSwap"+ty, &VisDef{kind: "atomic", targets: targetsOf(firstLeaf, true), effect: func(c *OpCtx) Value {
			var val Value
			for _, ca := range c.cells(c.args[0], firstLeaf) {
				ga := and(c.g, ca.g)
				old := ca.c.ch.read(ga)
				eq := eqVal(old, c.args[1])
				ca.c.ch.write(and(ga, eq), c.args[2])
				val = mux(ca.g, eq, val)
			}
			return val
		}})
	}
	vleaf := leafNamed("v")
	visFn("(*sync/atomic.Value).Load", &VisDef{kind: "atomic", targets: targetsOf(vleaf, false), effect: func(c *OpCtx) Value {
		var val Value
		for _, ca := range c.cells(c.args[0], vleaf) {
			val = mux(ca.g, ca.c.ch.read(and(c.g, ca.g)), val)
		}
		return val
	}})
	visFn("(*sync/atomic.Value).Store", &VisDef{kind: "atomic", targets: targetsOf(vleaf, true), effect: func(c *OpCtx) Value {
		for _, ca := range c.cells(c.args[0], vleaf) {
			ca.c.ch.write(and(c.g, ca.g), c.args[1])
		}
		return unit()
	}})
	visFn("(*sync/atomic.Value).Swap", &VisDef{kind: "atomic", targets: targetsOf(vleaf, true), effect: func(c *OpCtx) Value {
		var val Value
		for _, ca := range c.cells(c.args[0], vleaf) {
			val = mux(ca.g, ca.c.ch.read(and(c.g, ca.g)), val)
			ca.c.ch.write(and(c.g, ca.g), c.args[1])
		}
		return val
	}})
	visFn("(*sync/atomic.Value).CompareAndSwap", &VisDef{kind: "atomic", targets: targetsOf(vleaf, true), effect: func(c *OpCtx) Value {
		var val Value
		for _, ca := range c.cells(c.args[0], vleaf) {
			ga := and(c.g, ca.g)
			eq := eqVal(ca.c.ch.read(ga), c.args[1])
			ca.c.ch.write(and(ga, eq), c.args[2])
			val = mux(ca.g, eq, val)
		}
		return val
	}})
}

func locks() {
	st := leafNamed("state")
	free := func(c *OpCtx) Lit {
		r := False
		for _, ca := range c.cells(c.args[0], st) {
			r = or(r, and(ca.g, intIs(ca.c.ch.read(and(c.g, ca.g)), 0)))
		}
		return r
	}
	setI := func(c *OpCtx, leaf func(*Cell) *Cell, w int, v int64) {
		for _, ca := range c.cells(c.args[0], leaf) {
			ca.c.ch.write(and(c.g, ca.g), cint(w, v))
		}
	}
	visFn("(*sync.Mutex).Lock", &VisDef{kind: "lock", targets: targetsOf(st, true), enabled: free, effect: func(c *OpCtx) Value {
		setI(c, st, 32, 1)
		return unit()
	}})
	visFn("(*sync.Mutex).TryLock", &VisDef{kind: "trylock", targets: targetsOf(st, true), effect: func(c *OpCtx) Value {
		f := free(c)
		g := c.g
		c.g = and(g, f)
		setI(c, st, 32, 1)
		c.g = g
		return f
	}})
	visFn("(*sync.Mutex).Unlock", &VisDef{kind: "unlock", never: true, targets: targetsOf(st, true), effect: func(c *OpCtx) Value {
		f := free(c)
		c.ex.violate("panic", "unlock of unlocked mutex at "+c.site.loc, and(c.g, f))
		c.g = and(c.g, not(f))
		setI(c, st, 32, 0)
		return unit()
	}})

	// RWMutex: writerSem = 1 while a writer holds it, readerCount = readers
	ws, rc := leafNamed("writerSem"), leafNamed("readerCount")
	readers := func(c *OpCtx) (Lit, Lit) { // no writer, no reader
		nw, nr := False, False
		for _, ca := range c.cells(c.args[0], ws) {
			nw = or(nw, and(ca.g, intIs(ca.c.ch.read(and(c.g, ca.g)), 0)))
		}
		for _, ca := range c.cells(c.args[0], rc) {
			nr = or(nr, and(ca.g, intIs(ca.c.ch.read(and(c.g, ca.g)), 0)))
		}
		return nw, nr
	}
	addR := func(c *OpCtx, d int64) {
		for _, ca := range c.cells(c.args[0], rc) {
			ga := and(c.g, ca.g)
			old := ca.c.ch.read(ga).(*Int)
			nv, _ := intBin("+", old, cint(old.w, d), false)
			ca.c.ch.write(ga, nv)
		}
	}
	visFn("(*sync.RWMutex).Lock", &VisDef{kind: "lock", targets: targetsOf(ws, true), enabled: func(c *OpCtx) Lit {
		a, b := readers(c)
		return and(a, b)
	}, effect: func(c *OpCtx) Value {
		setI(c, ws, 32, 1)
		return unit()
	}})
	visFn("(*sync.RWMutex).TryLock", &VisDef{kind: "trylock", targets: targetsOf(ws, true), effect: func(c *OpCtx) Value {
		a, b := readers(c)
		f := and(a, b)
		g := c.g
		c.g = and(g, f)
		setI(c, ws, 32, 1)
		c.g = g
		return f
	}})
	visFn("(*sync.RWMutex).Unlock", &VisDef{kind: "unlock", never: true, targets: targetsOf(ws, true), effect: func(c *OpCtx) Value {
		nw, _ := readers(c)
		c.ex.violate("panic", "unlock of unlocked RWMutex at "+c.site.loc, and(c.g, nw))
		c.g = and(c.g, not(nw))
		setI(c, ws, 32, 0)
		return unit()
	}})
	writerParked := func(c *OpCtx) Lit {
		r := False
		ids := map[string]Lit{}
		for _, ca := range c.cells(c.args[0], ws) {
			ids[ca.c.id] = ca.g
		}
		for _, u := range c.ex.threads {
			if u == c.t {
				continue
			}
			for _, k := range sortedKeys(u.front) {
				q := u.front[k]
				if q.op == nil || q.op.name != "(*sync.RWMutex).Lock" {
					continue
				}
				for _, t := range q.op.targets {
					if l, ok := ids[t.id]; ok {
						r = or(r, and(l, and(q.parked, q.g)))
					}
				}
			}
		}
		return r
	}
	visFn("(*sync.RWMutex).RLock", &VisDef{kind: "lock", targets: targetsOf(ws, true), enabled: func(c *OpCtx) Lit {
		nw, _ := readers(c)
		return and(nw, not(writerParked(c)))
	}, effect: func(c *OpCtx) Value {
		addR(c, 1)
		return unit()
	}})
	visFn("(*sync.RWMutex).TryRLock", &VisDef{kind: "trylock", targets: targetsOf(ws, true), effect: func(c *OpCtx) Value {
		nw, _ := readers(c)
		f := and(nw, not(writerParked(c)))
		g := c.g
		c.g = and(g, f)
		addR(c, 1)
		c.g = g
		return f
	}})
	visFn("(*sync.RWMutex).RUnlock", &VisDef{kind: "unlock", never: true, targets: targetsOf(ws, true), effect: func(c *OpCtx) Value {
		_, nr := readers(c)
		c.ex.violate("panic", "RUnlock of unlocked RWMutex at "+c.site.loc, and(c.g, nr))
		c.g = and(c.g, not(nr))
		addR(c, -1)
		return unit()
	}})

	// WaitGroup: state holds the counter
	add := func(c *OpCtx, d *Int) Value {
		for _, ca := range c.cells(c.args[0], st) {
			ga := and(c.g, ca.g)
			old, ok := ca.c.ch.read(ga).(*Int)
			if !ok {
				panic(unsupported{"WaitGroup state"})
			}
			nv, _ := intBin("+", old, resize(d, old.w, false), false)
			ng, _ := intBin("<", nv.(*Int), cint(old.w, 0), false)
			bad := and(ga, ng.(Lit))
			if bad != False {
				c.ex.violate("panic", "negative WaitGroup counter at "+c.site.loc, bad)
				c.g = and(c.g, not(and(ca.g, ng.(Lit))))
			}
			ca.c.ch.write(ga, nv)
		}
		return unit()
	}
	visFn("(*sync.WaitGroup).Add", &VisDef{kind: "wgadd", targets: targetsOf(st, true), effect: func(c *OpCtx) Value {
		d, ok := c.args[1].(*Int)
		if !ok {
			panic(unsupported{"WaitGroup.Add"})
		}
		return add(c, d)
	}})
	visFn("(*sync.WaitGroup).Done", &VisDef{kind: "wgdone", never: true, targets: targetsOf(st, true), effect: func(c *OpCtx) Value {
		return add(c, cint(64, -1))
	}})
	visFn("(*sync.WaitGroup).Wait", &VisDef{kind: "wgwait", targets: targetsOf(st, true), enabled: func(c *OpCtx) Lit {
		r := False
		for _, ca := range c.cells(c.args[0], st) {
			r = or(r, and(ca.g, intIs(ca.c.ch.read(and(c.g, ca.g)), 0)))
		}
		return r
	}, effect: func(c *OpCtx) Value { return unit() }})

	// sync.Pool: keeps at most one item
	full := leafNamed("localSize")
	visFn("(*sync.Pool).Put", &VisDef{kind: "pool", targets: targetsOf(full, true), effect: func(c *OpCtx) Value {
		for _, ca := range c.cells(c.args[0], full) {
			ga := and(c.g, ca.g)
			slot := c.ex.side(ca.c, "slot")
			emp := intIs(ca.c.ch.read(ga), 0)
			slot.write(and(ga, emp), c.args[1])
			ca.c.ch.write(ga, cint(64, 1))
		}
		return unit()
	}})
	visFn("(*sync.Pool).Get", &VisDef{kind: "pool", targets: targetsOf(full, true), cont: func(c *OpCtx) {
		ex := c.ex
		for _, ca := range c.cells(c.args[0], full) {
			ga := and(c.g, ca.g)
			slot := ex.side(ca.c, "slot")
			has := not(intIs(ca.c.ch.read(ga), 0))
			take := False
			if and(ga, has) != False {
				l := ex.input(c.t, c.key+"pool", "pool reuse", and(ga, has))
				take = and(has, l)
			}
			gt := and(ga, take)
			if gt != False {
				v := slot.read(gt)
				ca.c.ch.write(gt, cint(64, 0))
				c.site.cont(gt, v)
			}
			gn := and(ga, not(take))
			if gn == False {
				continue
			}
			nf := leafParentField(c, ca.c, "New").ch.read(gn)
			ex.callback(c, nf, nil, gn, "new", func(g Lit, v Value) { c.site.cont(g, v) }, func(g Lit) { c.site.cont(g, nilIface()) })
		}
	}})
}

// leafParentField finds a sibling field in the struct that contains leaf.
func leafParentField(c *OpCtx, leaf *Cell, name string) *Cell {
	for _, ca := range c.cells(c.args[0], nil) {
		if findLeaf(ca.c, "localSize") == leaf {
			return findLeaf(ca.c, name)
		}
	}
	return nil
}

func (ex *Exec) side(c *Cell, name string) *Chain {
	k := "side:" + c.id + ":" + name
	o, isNew := ex.obj(k, "side", nil)
	if isNew {
		o.root = &Cell{obj: o}
	}
	return &o.root.ch
}

// callback calls a function value from an intrinsic.
func (ex *Exec) callback(c *OpCtx, fv Value, args []Value, g Lit, tag string, cont func(g Lit, v Value), onNil func(g Lit)) {
	key := c.key + tag
	s := ex.siteFor(key, c.t, c.site.fr)
	if s.fv == nil {
		s.fv = &Chain{}
		for range args {
			s.args = append(s.args, &Chain{})
		}
		s.loc = c.site.loc
		s.cont = cont
		s.eval = func(g Lit) ([]Callee, Lit) {
			var as []Value
			for _, a := range s.args {
				as = append(as, a.read(g))
			}
			return ex.calleesFn(s.fv.read(g), as, g, s.loc)
		}
	}
	u := fv.(*Union)
	if onNil != nil {
		for _, a := range u.alts {
			if f, ok := a.a.(FnA); ok && f.fn == nil && and(g, a.g) != False {
				onNil(and(g, a.g))
				g = and(g, not(a.g))
			}
		}
	}
	if g == False {
		return
	}
	s.fv.write(g, fv)
	for i, a := range args {
		s.args[i].write(g, a)
	}
	cs, _ := s.eval(g)
	ex.dispatch(s, cs)
}

// input makes a fresh boolean input and records it for the replay.
func (ex *Exec) input(t *Thread, key, name string, g Lit) Lit {
	l := ex.fresh(fmt.Sprintf("in %s r%d", name, ex.round))
	ex.inputs = append(ex.inputs, InputRec{t: t, key: key, name: name, g: g, v: l, round: ex.round})
	return l
}

func conStr(v Value) (string, bool) {
	if u, ok := v.(*Union); ok && len(u.alts) == 1 {
		if s, ok := u.alts[0].a.(StrA); ok {
			return s.s, true
		}
	}
	return "", false
}
func conInt(v Value) (int64, bool) {
	if i, ok := v.(*Int); ok {
		if c, ok := i.konst(); ok {
			return sext(c, i.w), true
		}
	}
	return 0, false
}

const rtPath = "github.com/gostdlib/concurrency/zzverif/rt"

func harness() {
	p := rtPath + "."
	pureFn(p+"Bool", func(c *OpCtx) Value {
		n, _ := conStr(c.args[0])
		return c.ex.input(c.t, c.key, n, c.g)
	})
	pureFn(p+"Int", func(c *OpCtx) Value {
		n, _ := conStr(c.args[0])
		lo, ok1 := conInt(c.args[1])
		hi, ok2 := conInt(c.args[2])
		if !ok1 || !ok2 || hi < lo {
			panic(unsupported{"rt.Int bounds"})
		}
		if hi-lo >= maxAlts { // bits
			w := 0
			for int64(1)<<uint(w) <= hi-lo {
				w++
			}
			b := make([]Lit, 64)
			for i := range b {
				b[i] = False
				if i < w {
					b[i] = c.ex.fresh(fmt.Sprintf("in %s bit %d r%d", n, i, c.ex.round))
				}
			}
			x := bitsInt(64, b)
			le, _ := intBin("<=", x, cint(64, hi-lo), false)
			c.ex.assumes = append(c.ex.assumes, implies(c.g, le.(Lit)))
			r, _ := intBin("+", x, cint(64, lo), false)
			c.ex.inputs = append(c.ex.inputs, InputRec{t: c.t, key: c.key, name: n, g: c.g, v: r, round: c.ex.round})
			return r
		}
		out := &Int{w: 64}
		rest := True
		for k := lo; k <= hi; k++ {
			g := rest
			if k < hi {
				l := c.ex.fresh(fmt.Sprintf("in %s=%d r%d", n, k, c.ex.round))
				g = and(rest, l)
				rest = and(rest, not(l))
			}
			out.alts = append(out.alts, IntAlt{g, uint64(k)})
		}
		c.ex.inputs = append(c.ex.inputs, InputRec{t: c.t, key: c.key, name: n, g: c.g, v: out, round: c.ex.round})
		return out
	})
	pureFn(p+"String", func(c *OpCtx) Value { // String(name, maxLen): any bytes below 0x80
		n, _ := conStr(c.args[0])
		ml, ok := conInt(c.args[1])
		if !ok {
			panic(unsupported{"rt.String"})
		}
		var val Value
		ln := &Int{w: 64}
		rest := True
		var bs []*Int
		for i := int64(0); i < ml; i++ {
			b := make([]Lit, 8)
			for j := 0; j < 7; j++ {
				b[j] = c.ex.fresh(fmt.Sprintf("in %s[%d] bit %d", n, i, j))
			}
			b[7] = False
			bs = append(bs, &Int{w: 8, bits: b})
		}
		for k := int64(0); k <= ml; k++ {
			g := rest
			if k < ml {
				l := c.ex.fresh(fmt.Sprintf("in len(%s)=%d", n, k))
				g = and(rest, l)
				rest = and(rest, not(l))
			}
			ln.alts = append(ln.alts, IntAlt{g, uint64(k)})
			if k == 0 {
				val = mux(g, cstr(""), val)
			} else {
				val = mux(g, one(&SymStr{bs[:k]}), val)
			}
		}
		c.ex.inputs = append(c.ex.inputs, InputRec{t: c.t, key: c.key, name: n, g: c.g, v: val, round: c.ex.round})
		return val
	})
	pureFn(p+"Param", func(c *OpCtx) Value {
		n, _ := conStr(c.args[0])
		v, ok := c.ex.cfg.params[n]
		if !ok {
			d, _ := conInt(c.args[1])
			v = int(d)
		}
		return cint(64, int64(v))
	})
	pureFn(p+"Assert", func(c *OpCtx) Value {
		l, ok := c.args[0].(Lit)
		m, _ := conStr(c.args[1])
		if !ok {
			c.ex.incomplete("assertion on an unknown value: "+m, c.g)
			return unit()
		}
		c.ex.violate("assert", m, and(c.g, not(l)))
		c.g = and(c.g, l)
		return unit()
	})
	pureFn(p+"Assume", func(c *OpCtx) Value {
		l, ok := c.args[0].(Lit)
		if !ok {
			panic(unsupported{"assumption on an unknown value"})
		}
		c.ex.assumes = append(c.ex.assumes, implies(c.g, l))
		c.g = and(c.g, l)
		return unit()
	})
	pureFn(p+"Cover", func(c *OpCtx) Value {
		m, _ := conStr(c.args[0])
		c.ex.covers[m] = or(orF(c.ex.covers, m), c.g)
		return unit()
	})
	pureFn(p+"Fatal", func(c *OpCtx) Value {
		m, _ := conStr(c.args[0])
		c.ex.violate("panic", "fatal: "+m+" at "+c.site.loc, c.g)
		c.g = False
		return unit()
	})
	pureFn(p+"Stop", func(c *OpCtx) Value {
		c.t.done = or(c.t.done, c.g)
		c.g = False
		return unit()
	})
	for _, n := range []string{"Point", "Lock", "Unlock"} {
		pureFn(p+n, func(c *OpCtx) Value { return unit() })
	}
	pureFn(p+"NoLeak", func(c *OpCtx) Value {
		c.ex.leakG = or(c.ex.leakG, c.g)
		return unit()
	})
	pureFn(p+"Model", func(c *OpCtx) Value { // the current goroutine is part of the environment
		c.t.model = true
		return unit()
	})
	visFn(p+"Yield", &VisDef{kind: "yield", effect: func(c *OpCtx) Value { return unit() }})
	pureFn(p+"TimeNs", func(c *OpCtx) Value {
		a, ok := c.args[0].(*Agg)
		if !ok {
			return Opaque{"time"}
		}
		return a.f[1]
	})
	pureFn(p+"MkTime", func(c *OpCtx) Value {
		return &Agg{[]Value{cint(64, 0), c.args[0], one(PtrA{})}}
	})
	pureFn(p+"Advance", func(c *OpCtx) Value {
		ch := c.ex.clock()
		cur, ok := ch.read(c.g).(*Int)
		d, ok2 := c.args[0].(*Int)
		if !ok || !ok2 {
			panic(unsupported{"clock"})
		}
		nv, _ := intBin("+", cur, d, false)
		ch.write(c.g, nv)
		return unit()
	})
	pureFn(p+"Clock", func(c *OpCtx) Value {
		ex := c.ex
		ch := ex.clock()
		cur, ok := ch.read(c.g).(*Int)
		if !ok {
			panic(unsupported{"clock"})
		}
		if ex.cfg.clockBits == 0 {
			ex.inputs = append(ex.inputs, InputRec{t: c.t, key: c.key, name: "clock", g: c.g, v: cur, round: ex.round})
			return cur
		}
		b := make([]Lit, 64)
		for i := range b {
			b[i] = False
			if i < ex.cfg.clockBits {
				b[i] = ex.fresh(fmt.Sprintf("clock r%d t%d bit %d", ex.round, c.t.id, i))
			}
		}
		nv, _ := intBin("+", cur, bitsInt(64, b), false)
		ch.write(c.g, nv)
		ex.inputs = append(ex.inputs, InputRec{t: c.t, key: c.key, name: "clock", g: c.g, v: nv, round: ex.round})
		return nv
	})
}

// clock is the current time of the model.
func (ex *Exec) clock() *Chain {
	if ex.clockLast == nil {
		c := &Chain{}
		c.write(True, cint(64, 1000))
		ex.clockLast = c
	}
	return ex.clockLast.(*Chain)
}

func environment() {
	pureFn("runtime.Gosched", func(c *OpCtx) Value { return unit() })
	visFn("runtime.Gosched", &VisDef{kind: "yield", effect: func(c *OpCtx) Value { return unit() }})
	visFn("time.Sleep", &VisDef{kind: "yield", effect: func(c *OpCtx) Value { return unit() }})
	visFn("builtin close", &VisDef{kind: "close", targets: func(c *OpCtx) []Target { return chanTargets(c.args[0], c.g, true) }, effect: func(c *OpCtx) Value {
		v, g := c.ex.closeChan(c.site, c.args[0], c.g)
		c.g = g
		return v
	}})
	visFn("builtin chanlen", &VisDef{kind: "len", targets: func(c *OpCtx) []Target { return chanTargets(c.args[0], c.g, false) }, effect: func(c *OpCtx) Value {
		return c.ex.lenCap(c.site, "len", c.args[0], c.g)
	}})
	pureFn("runtime.NumCPU", func(c *OpCtx) Value { return cint(64, int64(c.ex.cfg.numCPU)) })
	pureFn("runtime.GOMAXPROCS", func(c *OpCtx) Value { return cint(64, int64(c.ex.cfg.numCPU)) })
	pureFn("runtime.Caller", func(c *OpCtx) Value {
		return &Agg{[]Value{one(PcA{"caller"}), cstr("file"), cint(64, 1), True}}
	})
	pureFn("runtime.FuncForPC", func(c *OpCtx) Value {
		// the program counter is carried by the pointer
		u, ok := c.args[0].(*Union)
		if !ok {
			panic(unsupported{"FuncForPC"})
		}
		return u
	})
	pureFn("(*runtime.Func).Name", func(c *OpCtx) Value {
		var val Value
		u, ok := c.args[0].(*Union)
		if !ok {
			return Opaque{"function name"}
		}
		for _, a := range u.alts {
			p, ok := a.a.(PcA)
			if !ok {
				return Opaque{"function name"}
			}
			val = mux(a.g, cstr(p.name), val)
		}
		return val
	})
	// reflection, as far as method enumeration and function names need it
	pureFn("reflect.ValueOf", func(c *OpCtx) Value { return c.args[0] })
	pureFn("reflect.TypeOf", func(c *OpCtx) Value { return wrapRType(c, c.args[0]) })
	pureFn("(reflect.Value).Interface", func(c *OpCtx) Value { return c.args[0] })
	pureFn("(*reflect.rtype).Elem", func(c *OpCtx) Value {
		i, ok := c.args[0].(*Iface)
		if !ok {
			panic(unsupported{"Elem"})
		}
		var val Value
		for _, a := range i.alts {
			if and(c.g, a.g) == False {
				continue
			}
			if a.t == nil {
				c.ex.violate("panic", "nil pointer dereference in reflect.Type.Elem at "+c.site.loc, and(c.g, a.g))
				c.g = and(c.g, not(a.g))
				continue
			}
			p, ok := a.t.(*types.Pointer)
			if !ok {
				panic(unsupported{"Elem of " + a.t.String()})
			}
			val = mux(a.g, mkIface(p.Elem(), Opaque{"value of a type"}), val)
		}
		return wrapRType(c, val)
	})
	pureFn("(*reflect.rtype).MethodByName", func(c *OpCtx) Value {
		i, ok := c.args[0].(*Iface)
		name, ok2 := conStr(c.args[1])
		if !ok || !ok2 {
			panic(unsupported{"MethodByName"})
		}
		mt := c.fn.Signature.Results().At(0).Type()
		var val Value
		for _, a := range i.alts {
			if and(c.g, a.g) == False {
				continue
			}
			if a.t == nil {
				c.ex.violate("panic", "nil pointer dereference in reflect.Type.MethodByName at "+c.site.loc, and(c.g, a.g))
				c.g = and(c.g, not(a.g))
				continue
			}
			m := zero(mt).(*Agg)
			found := False
			if s := types.NewMethodSet(a.t).Lookup(nil, name); s != nil && s.Obj().Exported() {
				found = True
				fn := c.ex.prog.ssa.MethodValue(s)
				m = &Agg{append([]Value(nil), m.f...)}
				m.f[0] = cstr(name)
				m.f[3] = mkIface(fn.Signature, one(FnA{fn: fn}))
			}
			val = mux(a.g, &Agg{[]Value{m, found}}, val)
		}
		return val
	})
	pureFn("(reflect.Value).IsValid", func(c *OpCtx) Value {
		var val Value
		for _, a := range c.args[0].(*Iface).alts {
			val = mux(a.g, cbool(a.t != nil), val)
		}
		return val
	})
	pureFn("(reflect.Value).IsNil", func(c *OpCtx) Value {
		var val Value
		for _, a := range c.args[0].(*Iface).alts {
			if a.t == nil {
				panic(unsupported{"IsNil of an invalid value"})
			}
			val = mux(a.g, eqVal(a.v, zero(a.t)), val)
		}
		return val
	})
	kind := func(c *OpCtx) Value {
		var val Value
		i, ok := c.args[0].(*Iface)
		if !ok {
			panic(unsupported{"Kind"})
		}
		for _, a := range i.alts {
			k := reflect.Invalid
			if a.t != nil {
				switch u := a.t.Underlying().(type) {
				case *types.Signature:
					k = reflect.Func
				case *types.Pointer:
					k = reflect.Ptr
				case *types.Struct:
					k = reflect.Struct
				case *types.Slice:
					k = reflect.Slice
				case *types.Map:
					k = reflect.Map
				case *types.Chan:
					k = reflect.Chan
				case *types.Basic:
					switch u.Kind() {
					case types.Int:
						k = reflect.Int
					case types.String:
						k = reflect.String
					case types.Bool:
						k = reflect.Bool
					default:
						panic(unsupported{"Kind of " + a.t.String()})
					}
				default:
					panic(unsupported{"Kind of " + a.t.String()})
				}
			}
			val = mux(a.g, cint(64, int64(k)), val)
		}
		return val
	}
	pureFn("(reflect.Value).Kind", kind)
	pureFn("(*reflect.rtype).Kind", kind)
	methods := func(t types.Type) []*types.Selection {
		ms := types.NewMethodSet(t)
		var out []*types.Selection
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				out = append(out, ms.At(i))
			}
		}
		return out
	}
	pureFn("(reflect.Value).NumMethod", func(c *OpCtx) Value {
		var val Value
		for _, a := range c.args[0].(*Iface).alts {
			if a.t == nil {
				c.ex.violate("panic", "NumMethod of an invalid value at "+c.site.loc, and(c.g, a.g))
				c.g = and(c.g, not(a.g))
				continue
			}
			val = mux(a.g, cint(64, int64(len(methods(a.t)))), val)
		}
		return val
	})
	pureFn("(reflect.Value).Method", func(c *OpCtx) Value {
		ix, ok := c.args[1].(*Int)
		if !ok || ix.alts == nil {
			panic(unsupported{"Method index"})
		}
		var val Value
		for _, a := range c.args[0].(*Iface).alts {
			if and(c.g, a.g) == False || a.t == nil {
				continue
			}
			ms := methods(a.t)
			for _, x := range ix.alts {
				if int(x.c) >= len(ms) {
					continue
				}
				// the method value's type is the signature without the receiver
				sig := ms[x.c].Obj().(*types.Func).Type().(*types.Signature)
				s2 := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
				m := c.ex.prog.ssa.MethodValue(ms[x.c])
				o, isNew := c.ex.obj(c.key+u16(int(x.c)), "clo", nil)
				if isNew {
					o.root = &Cell{agg: true, obj: o, kids: []*Cell{{obj: o}}}
				}
				o.root.kids[0].ch.write(c.g, a.v)
				val = mux(and(a.g, x.g), mkIface(s2, one(FnA{fn: m, o: o})), val)
			}
		}
		return val
	})
	pureFn("(reflect.Value).Type", func(c *OpCtx) Value { return wrapRType(c, c.args[0]) })
	pureFn("(reflect.Value).Pointer", func(c *OpCtx) Value {
		var val Value
		for _, a := range c.args[0].(*Iface).alts {
			if and(c.g, a.g) == False {
				continue
			}
			u, ok := a.v.(*Union)
			if !ok {
				panic(unsupported{"Pointer of " + show(a.v)})
			}
			for _, f := range u.alts {
				fa, ok := f.a.(FnA)
				if !ok {
					panic(unsupported{"Pointer of " + showAtom(f.a)})
				}
				if fa.fn == nil {
					val = mux(and(a.g, f.g), one(PcA{"nil"}), val)
					continue
				}
				val = mux(and(a.g, f.g), one(PcA{runtimeName(fa.fn)}), val)
			}
		}
		return val
	})
	// the otel span: a span that does not record
	sp := spanPkg
	pureFn(sp+".New", func(c *OpCtx) Value {
		return &Agg{[]Value{c.args[0], zero(c.fn.Signature.Results().At(1).Type())}}
	})
	pureFn(sp+".Get", func(c *OpCtx) Value { return zero(c.fn.Signature.Results().At(0).Type()) })
	for _, m := range []string{"Event", "Error"} {
		pureFn("("+sp+".Span)."+m, func(c *OpCtx) Value { return nilIface() })
	}
	for _, m := range []string{"Status", "End"} {
		pureFn("("+sp+".Span)."+m, func(c *OpCtx) Value { return unit() })
	}
	pureFn("("+sp+".Span).IsRecording", func(c *OpCtx) Value { return False })
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf"} {
		pureFn(n, func(c *OpCtx) Value { return opaqueFor(c.fn.Signature.Results(), "io") })
	}
	for _, n := range []string{"log.Fatalf", "log.Fatal", "log.Fatalln", "log.Panicf", "os.Exit"} {
		pureFn(n, func(c *OpCtx) Value {
			m, _ := conStr(c.args[0])
			c.ex.violate("panic", c.name+" at "+c.site.loc+" "+m, c.g)
			c.g = False
			return unit()
		})
	}
	for _, n := range []string{"encoding/json.Marshal", "github.com/go-json-experiment/json.Marshal"} {
		// text for people, no error
		pureFn(n, func(c *OpCtx) Value {
			rs := c.fn.Signature.Results()
			return &Agg{[]Value{zero(rs.At(0).Type()), zero(rs.At(1).Type())}}
		})
	}
	pureFn("fmt.Errorf", fmtErrorf)
	pureFn("fmt.Sprintf", func(c *OpCtx) Value { return sprintf(c, c.args[0], c.args[1]) })
	pureFn("fmt.Sprint", func(c *OpCtx) Value { return Opaque{"Sprint"} })
	for _, n := range []string{"WriteString", "WriteByte", "WriteRune", "Write", "String", "Len", "Grow", "Reset"} {
		// what is built with a Builder is text for people: not interpreted
		pureFn("(*strings.Builder)."+n, func(c *OpCtx) Value { return opaqueFor(c.fn.Signature.Results(), "text") })
	}
	pureFn("regexp.MustCompile", func(c *OpCtx) Value {
		s, ok := conStr(c.args[0])
		if !ok {
			panic(unsupported{"regexp"})
		}
		o, isNew := c.ex.obj("regexp:"+s, "regexp", nil)
		if isNew {
			o.root = &Cell{obj: o}
			o.extra = s
		}
		return ptrTo(o)
	})
	pureFn("(*regexp.Regexp).MatchString", matchString)
	pureFn("math/rand.Intn", func(c *OpCtx) Value { return cint(64, 0) })
	pureFn("(*time.Ticker).Reset", func(c *OpCtx) Value { return unit() })
	pureFn("(*time.Ticker).Stop", func(c *OpCtx) Value { return unit() })
	pureFn("(*time.Timer).Stop", func(c *OpCtx) Value { return True })
	pureFn("(*time.Timer).Reset", func(c *OpCtx) Value { return True })
	pureFn("(time.Time).UTC", func(c *OpCtx) Value { return c.args[0] })
	pureFn("(time.Time).Local", func(c *OpCtx) Value { return c.args[0] })
	pureFn("sync.runtime_registerPoolCleanup", func(c *OpCtx) Value { return unit() })
	pureFn("sync.fatal", func(c *OpCtx) Value {
		c.ex.violate("panic", "fatal error in sync at "+c.site.loc, c.g)
		c.g = False
		return unit()
	})
	pureFn("runtime.SetFinalizer", func(c *OpCtx) Value { return unit() })
	pureFn("runtime.KeepAlive", func(c *OpCtx) Value { return unit() })
}

func wrapRType(c *OpCtx, v Value) Value {
	// reflect.Type is represented by an interface holding *reflect.rtype whose
	// value is the reflected interface itself
	rp := c.ex.prog.ssa.ImportedPackage("reflect")
	t := types.NewPointer(rp.Type("rtype").Type())
	return mkIface(t, v)
}

func init() {
	pureFn("(*reflect.rtype).AssignableTo", func(c *OpCtx) Value {
		self := c.args[0].(*Iface)
		o, ok := c.args[1].(*Iface)
		if !ok {
			panic(unsupported{"AssignableTo"})
		}
		var val Value
		for _, q := range o.alts {
			qi, ok := q.v.(*Iface)
			if !ok {
				panic(unsupported{"AssignableTo"})
			}
			for _, a := range self.alts {
				for _, b := range qi.alts {
					g := and(q.g, and(a.g, b.g))
					if g == False {
						continue
					}
					if a.t == nil || b.t == nil {
						panic(unsupported{"AssignableTo nil"})
					}
					val = mux(g, cbool(types.AssignableTo(a.t, b.t)), val)
				}
			}
		}
		return val
	})
}

func runtimeName(fn *ssa.Function) string {
	s := fn.String()
	suffix := ""
	if strings.HasSuffix(s, "$bound") {
		s = strings.TrimSuffix(s, "$bound")
		suffix = "-fm"
	}
	if strings.HasSuffix(s, "$thunk") {
		s = strings.TrimSuffix(s, "$thunk")
	}
	// (*pkg/path.T).M -> pkg/path.(*T).M ; (pkg/path.T).M -> pkg/path.T.M
	if strings.HasPrefix(s, "(") {
		end := strings.LastIndex(s, ").")
		recv := s[1:end]
		m := s[end+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		targs := ""
		if i := strings.Index(recv, "["); i >= 0 {
			recv = recv[:i]
			targs = "[...]"
		}
		d := strings.LastIndex(recv, ".")
		pkg, t := recv[:d], recv[d+1:]
		if ptr {
			return pkg + ".(*" + t + targs + ")." + m + suffix
		}
		return pkg + "." + t + targs + "." + m + suffix
	}
	if i := strings.Index(s, "["); i >= 0 {
		s = s[:i] + "[...]"
	}
	return s + suffix
}

// ---------------------------------------------------------------- formatting

// concreteArgs turns a slice of interfaces into Go values, if they are constants.
func concreteArgs(c *OpCtx, v Value) ([]*Iface, bool) {
	u, ok := v.(*Union)
	if !ok || len(u.alts) != 1 {
		return nil, false
	}
	s, ok := u.alts[0].a.(SliceA)
	if !ok {
		return nil, false
	}
	var out []*Iface
	for k := 0; k < s.len; k++ {
		e, ok := s.o.cell(s.path + rune1(s.off+k)).read(c.g).(*Iface)
		if !ok {
			out = append(out, nil)
			continue
		}
		out = append(out, e)
	}
	return out, true
}

func sprintf(c *OpCtx, f, av Value) Value {
	format, ok := conStr(f)
	if !ok {
		return Opaque{"Sprintf"}
	}
	as, ok := concreteArgs(c, av)
	if !ok {
		return Opaque{"Sprintf"}
	}
	// product over the alternatives
	type st struct {
		g Lit
		a []interface{}
	}
	cur := []st{{True, nil}}
	for _, a := range as {
		if a == nil {
			return Opaque{"Sprintf"}
		}
		var nx []st
		for _, al := range a.alts {
			switch v := al.v.(type) {
			case *Int:
				if v.alts == nil {
					return Opaque{"Sprintf"}
				}
				for _, ia := range v.alts {
					for _, s := range cur {
						g := and(s.g, and(al.g, ia.g))
						if g != False {
							nx = append(nx, st{g, append(append([]interface{}{}, s.a...), sext(ia.c, v.w))})
						}
					}
				}
			case *Union:
				for _, ua := range v.alts {
					sa, ok := ua.a.(StrA)
					if !ok {
						return Opaque{"Sprintf"}
					}
					for _, s := range cur {
						g := and(s.g, and(al.g, ua.g))
						if g != False {
							nx = append(nx, st{g, append(append([]interface{}{}, s.a...), sa.s)})
						}
					}
				}
			default:
				return Opaque{"Sprintf"}
			}
		}
		cur = nx
		if len(cur) > 64 {
			return Opaque{"Sprintf"}
		}
	}
	var val Value
	for _, s := range cur {
		val = mux(s.g, cstr(fmt.Sprintf(format, s.a...)), val)
	}
	return val
}

func fmtErrorf(c *OpCtx) Value {
	format, ok := conStr(c.args[0])
	if !ok {
		panic(unsupported{"Errorf with an unknown format"})
	}
	var wIdx []int
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			wIdx = append(wIdx, n)
		}
		n++
	}
	ex := c.ex
	as, _ := concreteArgs(c, c.args[1])
	var errs []Value
	for _, k := range wIdx {
		if k < len(as) && as[k] != nil {
			errs = append(errs, as[k])
		}
	}
	msg := sprintf(c, cstr(strings.ReplaceAll(format, "%w", "%v")), c.args[1])
	switch len(errs) {
	case 0:
		t := ex.prog.ssa.ImportedPackage("errors").Type("errorString").Type()
		o := ex.newVar(c.key+"err", t, c.g, "error")
		o.root.write(c.g, &Agg{[]Value{msg}})
		return mkIface(types.NewPointer(t), ptrTo(o))
	case 1:
		t := ex.prog.ssa.ImportedPackage("fmt").Type("wrapError").Type()
		o := ex.newVar(c.key+"err", t, c.g, "error")
		o.root.write(c.g, &Agg{[]Value{msg, errs[0]}})
		return mkIface(types.NewPointer(t), ptrTo(o))
	}
	t := ex.prog.ssa.ImportedPackage("fmt").Type("wrapErrors").Type()
	et := types.Universe.Lookup("error").Type()
	arr := ex.newVar(c.key+"errs", types.NewArray(et, int64(len(errs))), c.g, "errors")
	for i, e := range errs {
		arr.root.kids[i].write(c.g, e)
	}
	o := ex.newVar(c.key+"err", t, c.g, "error")
	o.root.write(c.g, &Agg{[]Value{msg, one(SliceA{o: arr, len: len(errs), cap: len(errs)})}})
	return mkIface(types.NewPointer(t), ptrTo(o))
}

// matchString simulates the compiled expression over the (symbolic) bytes.
func matchString(c *OpCtx) Value {
	u := c.args[0].(*Union)
	if len(u.alts) != 1 {
		panic(unsupported{"regexp"})
	}
	o := u.alts[0].a.(PtrA).o
	if o == nil || o.extra == nil {
		panic(unsupported{"regexp"})
	}
	re, err := syntax.Parse(o.extra.(string), syntax.Perl)
	if err != nil {
		panic(unsupported{"regexp"})
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported{"regexp"})
	}
	su, ok := c.args[1].(*Union)
	if !ok {
		panic(unsupported{"regexp input"})
	}
	var val Value
	for _, a := range su.alts {
		if and(c.g, a.g) == False {
			continue
		}
		bs, ok := strBytes(a.a)
		if !ok {
			panic(unsupported{"regexp input"})
		}
		val = mux(a.g, nfa(prog, bs), val)
	}
	return val
}

func nfa(p *syntax.Prog, bs []*Int) Lit {
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth {
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				panic(unsupported{"regexp assertion"})
			}
		}
	}
	matched := False
	cur := make([]Lit, len(p.Inst))
	for i := range cur {
		cur[i] = False
	}
	var add func(set []Lit, pc uint32, g Lit, pos int, depth int)
	add = func(set []Lit, pc uint32, g Lit, pos int, depth int) {
		if g == False || depth > 2*len(p.Inst) {
			return
		}
		if entails(g, set[pc]) && set[pc] != False {
			return
		}
		set[pc] = or(set[pc], g)
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, g, pos, depth+1)
			add(set, in.Arg, g, pos, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, g, pos, depth+1)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			ok := true
			if e&syntax.EmptyBeginText != 0 && pos != 0 {
				ok = false
			}
			if e&syntax.EmptyEndText != 0 && pos != len(bs) {
				ok = false
			}
			if ok {
				add(set, in.Out, g, pos, depth+1)
			}
		case syntax.InstMatch:
			matched = or(matched, g)
		}
	}
	for pos := 0; pos <= len(bs); pos++ {
		add(cur, uint32(p.Start), True, pos, 0)
		if pos == len(bs) {
			break
		}
		next := make([]Lit, len(p.Inst))
		for i := range next {
			next[i] = False
		}
		for pc, g := range cur {
			if g == False {
				continue
			}
			in := p.Inst[pc]
			var ok Lit = False
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				for ch := 0; ch < 128; ch++ {
					if in.MatchRune(rune(ch)) {
						ok = or(ok, intEqConst(bs[pos], uint64(ch)))
					}
				}
			default:
				continue
			}
			add(next, in.Out, and(g, ok), pos+1, 0)
		}
		cur = next
	}
	return matched
}

// ---------------------------------------------------------------- native evaluation on constants

var natives = map[string]interface{}{
	"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.SplitAfterN": strings.SplitAfterN,
	"strings.Contains":    strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Trim": strings.Trim,
	"strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft, "strings.TrimSpace": strings.TrimSpace,
	"strings.ContainsAny": strings.ContainsAny, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count,
	"strings.Cut": strings.Cut, "strings.Fields": strings.Fields, "strings.Repeat": strings.Repeat, "strings.Join": strings.Join,
	"strings.EqualFold": strings.EqualFold, "strings.ReplaceAll": strings.ReplaceAll, "strings.Replace": strings.Replace,
	"strings.IndexAny": strings.IndexAny, "strings.ContainsRune": strings.ContainsRune, "strings.Compare": strings.Compare,
	"strconv.Atoi": strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.Quote": strconv.Quote,
	"path/filepath.Base": filepath.Base,
}

func (ex *Exec) nativeFn(name string) *Intrin {
	f, ok := natives[name]
	if !ok {
		return nil
	}
	return &Intrin{pure: func(c *OpCtx) Value { return callNative(c, f) }}
}

type natAlt struct {
	g Lit
	v []reflect.Value
}

func callNative(c *OpCtx, f interface{}) Value {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	cur := []natAlt{{True, nil}}
	for i, a := range c.args {
		var nx []natAlt
		pt := ft.In(i)
		add := func(g Lit, v interface{}) {
			for _, s := range cur {
				gg := and(s.g, g)
				if and(c.g, gg) != False {
					nx = append(nx, natAlt{gg, append(append([]reflect.Value{}, s.v...), reflect.ValueOf(v).Convert(pt))})
				}
			}
		}
		switch x := a.(type) {
		case *Int:
			if x.alts == nil {
				if c2, ok := x.konst(); ok {
					add(True, sext(c2, x.w))
					break
				}
				panic(unsupported{c.name + " of a symbolic integer"})
			}
			for _, al := range x.alts {
				add(al.g, sext(al.c, x.w))
			}
		case Lit:
			add(x, true)
			add(not(x), false)
		case *Union:
			for _, al := range x.alts {
				switch s := al.a.(type) {
				case StrA:
					add(al.g, s.s)
				case SliceA:
					if pt != reflect.TypeOf([]string{}) {
						panic(unsupported{c.name})
					}
					var ss []string
					for k := 0; k < s.len; k++ {
						e, ok := conStr(s.o.cell(s.path + rune1(s.off+k)).read(and(c.g, al.g)))
						if !ok {
							panic(unsupported{c.name + " of symbolic strings"})
						}
						ss = append(ss, e)
					}
					add(al.g, ss)
				default:
					panic(unsupported{c.name + " of a symbolic string"})
				}
			}
		default:
			panic(unsupported{c.name + " of " + show(a)})
		}
		cur = nx
		if len(cur) > 400 {
			panic(unsupported{c.name + ": too many alternatives"})
		}
	}
	var val Value
	for n, s := range cur {
		out := fv.Call(s.v)
		var vs []Value
		for k, o := range out {
			vs = append(vs, c.fromNative(o, n, k, and(c.g, s.g)))
		}
		var v Value
		switch len(vs) {
		case 1:
			v = vs[0]
		default:
			v = &Agg{vs}
		}
		val = mux(s.g, v, val)
	}
	return val
}

func (c *OpCtx) fromNative(o reflect.Value, n, k int, g Lit) Value {
	switch o.Kind() {
	case reflect.String:
		return cstr(o.String())
	case reflect.Bool:
		return cbool(o.Bool())
	case reflect.Int, reflect.Int64:
		return cint(64, o.Int())
	case reflect.Uint64:
		return cint(64, int64(o.Uint()))
	case reflect.Slice:
		ss, ok := o.Interface().([]string)
		if !ok {
			panic(unsupported{c.name})
		}
		arr := c.ex.newVar(c.key+u16(n)+u16(k)+"n"+u16(len(ss)), types.NewArray(types.Typ[types.String], int64(len(ss))), g, "strings")
		for i, s := range ss {
			arr.root.kids[i].write(g, cstr(s))
		}
		return one(SliceA{o: arr, len: len(ss), cap: len(ss)})
	case reflect.Interface:
		if o.IsNil() {
			return nilIface()
		}
		if e, ok := o.Interface().(error); ok {
			t := c.ex.prog.ssa.ImportedPackage("errors").Type("errorString").Type()
			ob := c.ex.newVar(c.key+u16(n)+u16(k)+"e", t, g, "error")
			ob.root.write(g, &Agg{[]Value{cstr(e.Error())}})
			return mkIface(types.NewPointer(t), ptrTo(ob))
		}
	}
	panic(unsupported{c.name + " result"})
}
