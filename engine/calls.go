package main

// Calls, defers, go statements and the dispatch to intrinsics.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Callee struct {
	g     Lit
	id    int
	fn    *ssa.Function
	binds []Value
	args  []Value
	blt   string
	intr  *Intrin
	name  string
	// atomic entry
	atomicEntry bool
}

// Site is a place where a call happens: a call instruction, a deferred call
// about to run, the start of a goroutine, or a callback from an intrinsic.
type Site struct {
	key    string
	t      *Thread
	fr     *Frame // calling frame (nil for a goroutine root)
	atomic bool
	lib    bool
	cont   func(g Lit, v Value)
	eval   func(g Lit) ([]Callee, Lit)
	loc    string
	instr  ssa.Instruction
	rtype  types.Type
	// stored operands (go, defer)
	fv   *Chain
	args []*Chain
	com  *ssa.CallCommon
	g    Lit
}

func (ex *Exec) callees(com *ssa.CallCommon, get func(v ssa.Value) Value, g Lit, loc string) ([]Callee, Lit) {
	var args []Value
	for _, a := range com.Args {
		args = append(args, get(a))
	}
	return ex.calleesOf(com, get(com.Value), args, g, loc)
}

func (ex *Exec) calleesOf(com *ssa.CallCommon, fv Value, args []Value, g Lit, loc string) ([]Callee, Lit) {
	if com != nil && com.IsInvoke() {
		i, ok := fv.(*Iface)
		if !ok {
			panic(unsupported{"interface call on " + show(fv) + " at " + loc})
		}
		var out []Callee
		for _, a := range i.alts {
			ga := and(g, a.g)
			if ga == False {
				continue
			}
			if a.t == nil {
				ex.violate("panic", "nil pointer dereference (interface call) at "+loc, ga)
				g = and(g, not(a.g))
				continue
			}
			m := ex.prog.ssa.LookupMethod(a.t, com.Method.Pkg(), com.Method.Name())
			if m == nil {
				panic(unsupported{"method " + com.Method.Name() + " of " + a.t.String()})
			}
			out = append(out, ex.mkCallee(ga, m, nil, append([]Value{a.v}, args...)))
		}
		return out, g
	}
	return ex.calleesFn(fv, args, g, loc)
}

func (ex *Exec) calleesFn(fv Value, args []Value, g Lit, loc string) ([]Callee, Lit) {
	u, ok := fv.(*Union)
	if !ok {
		panic(unsupported{"call of " + show(fv) + " at " + loc})
	}
	var out []Callee
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		f, ok := a.a.(FnA)
		if !ok {
			panic(unsupported{"call of " + showAtom(a.a)})
		}
		if f.blt != "" {
			c := Callee{g: ga, id: ex.id("builtin " + f.blt), blt: f.blt, args: args, name: "builtin " + f.blt}
			if f.blt == "close" {
				c.blt = ""
				c.intr = intrinsics["builtin close"]
			}
			if f.blt == "len" && len(args) == 1 && isChanVal(args[0]) {
				c.blt = ""
				c.intr = intrinsics["builtin chanlen"]
			}
			out = append(out, c)
			continue
		}
		if f.fn == nil {
			ex.violate("panic", "call of a nil function at "+loc, ga)
			g = and(g, not(a.g))
			continue
		}
		var binds []Value
		if f.o != nil {
			for _, k := range f.o.root.kids {
				binds = append(binds, k.ch.read(ga))
			}
		}
		c := ex.mkCallee(ga, f.fn, binds, args)
		if f.o != nil {
			c.id = ex.id(f.fn.String() + "@" + f.o.id)
		}
		out = append(out, c)
	}
	return out, g
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) mkCallee(g Lit, fn *ssa.Function, binds, args []Value) Callee {
	name := fnName(fn)
	c := Callee{g: g, fn: fn, binds: binds, args: args, name: name, id: ex.id(fn.String())}
	if in, ok := intrinsics[name]; ok {
		c.intr = in
		return c
	}
	if s, ok := ex.prog.subst[name]; ok {
		c.fn = s
		c.name = s.String()
	}
	if ex.prog.atomicFns[c.fn] {
		c.atomicEntry = true
	}
	if c.intr == nil && !ex.prog.executable(c.fn) {
		if in := ex.nativeFn(c.name); in != nil {
			c.intr = in
		}
	}
	return c
}

// call handles a call instruction. done means that control has been handed to
// pushed points; otherwise execution continues inline under the new guard.
func (ex *Exec) call(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, x *ssa.Call, g Lit, pt *Point, at bool) (bool, Lit) {
	loc := ex.pos(x.Pos())
	cs, ng := ex.callees(&x.Call, func(v ssa.Value) Value { return ex.get(fr, v, g) }, g, loc)
	g = ng
	if g == False || len(cs) == 0 {
		return true, False
	}
	key := ex.ptKey(fr, b, iters, i)
	s := ex.siteFor(key, fr.t, fr)
	if s.cont == nil {
		s.instr = x
		s.loc = loc
		s.rtype = x.Type()
		s.com = &x.Call
		s.cont = func(g Lit, v Value) {
			if v != nil {
				fr.set(x, g, v)
			}
			ex.pushBlock(fr, b, iters, i+1, g)
		}
		s.eval = func(g Lit) ([]Callee, Lit) {
			return ex.callees(&x.Call, func(v ssa.Value) Value { return ex.get(fr, v, g) }, g, loc)
		}
	}
	// fast path: a single intrinsic without a scheduling point
	if len(cs) == 1 {
		c := cs[0]
		if c.blt != "" || (c.intr != nil && c.intr.pure != nil) {
			v, rg := ex.pureCall(s, c, g)
			if rg == False {
				return true, False
			}
			if v != nil {
				fr.set(x, rg, v)
			}
			return false, rg
		}
	}
	ex.dispatch(s, cs)
	return true, False
}

func (ex *Exec) siteFor(key string, t *Thread, fr *Frame) *Site {
	s := ex.sites[key]
	if s == nil {
		s = &Site{key: key, t: t, fr: fr}
		if fr != nil {
			s.atomic = fr.atomic
			s.lib = fr.lib
		}
		ex.sites[key] = s
	}
	return s
}

func (ex *Exec) pureCall(s *Site, c Callee, g Lit) (Value, Lit) {
	ga := and(g, c.g)
	if c.blt != "" {
		return ex.builtin(s, c, ga)
	}
	oc := &OpCtx{ex: ex, t: s.t, g: ga, args: c.args, site: s, key: s.key + u16(c.id), name: c.name, fn: c.fn}
	v := c.intr.pure(oc)
	return v, oc.g
}

func (ex *Exec) dispatch(s *Site, cs []Callee) {
	for _, c := range cs {
		c := c
		if c.g == False {
			continue
		}
		switch {
		case c.blt != "" || (c.intr != nil && c.intr.pure != nil):
			ex.protect(c.g, func() {
				v, g := ex.pureCall(s, c, c.g)
				if g != False {
					s.cont(g, v)
				}
			})
		case c.intr != nil: // visible operation
			id := c.id
			key := s.key + u16(id)
			run := func(pt *Point) { ex.visSite(s, id, pt) }
			s.t.push(key, c.g, False, run, nil, c.name)
		case c.atomicEntry && !s.atomic:
			id := c.id
			key := s.key + u16(id)
			run := func(pt *Point) { ex.atomicSite(s, id, pt) }
			s.t.push(key, c.g, False, run, nil, "atomic "+c.name)
		default:
			ex.protect(c.g, func() { ex.enterCallee(s, c, c.g) })
		}
	}
}

func (ex *Exec) enterCallee(s *Site, c Callee, g Lit) {
	if !ex.prog.executable(c.fn) {
		if ex.prog.benign(c.fn) {
			// no effect on the properties: the result is unknown
			s.cont(g, opaqueFor(c.fn.Signature.Results(), "result of "+c.name))
			return
		}
		panic(unsupported{"call of " + c.name + " at " + s.loc})
	}
	prefix := s.key + u16(c.id)
	cont := s.cont
	ex.enter(s.t, s.fr, prefix, c.fn, c.binds, c.args, g, s.loc, func(g Lit, v Value) { cont(g, v) })
}

func opaqueFor(res *types.Tuple, why string) Value {
	one := func(t types.Type) Value {
		switch t.Underlying().(type) {
		case *types.Basic, *types.Struct:
			return opaqueOf(t, why)
		}
		return Opaque{why}
	}
	switch res.Len() {
	case 0:
		return &Agg{}
	case 1:
		return one(res.At(0).Type())
	}
	a := &Agg{}
	for i := 0; i < res.Len(); i++ {
		a.f = append(a.f, one(res.At(i).Type()))
	}
	return a
}

func opaqueOf(t types.Type, why string) Value {
	return Opaque{why}
}

// pick evaluates the alternatives of a site and selects one.
func (ex *Exec) pick(s *Site, id int, g Lit) (Callee, bool) {
	cs, _ := s.eval(g)
	for _, c := range cs {
		if c.id == id {
			return c, true
		}
	}
	return Callee{}, false
}

// visSite executes a visible intrinsic at its control point.
func (ex *Exec) visSite(s *Site, id int, pt *Point) {
	g := pt.g
	c, ok := ex.pick(s, id, g)
	if !ok {
		return
	}
	mk := func(g Lit) *OpCtx {
		return &OpCtx{ex: ex, t: s.t, g: g, args: c.args, site: s, key: pt.key, name: c.name, fn: c.fn}
	}
	d := c.intr.vis
	op := &VisOp{kind: d.kind, name: c.name, loc: s.loc, upos: userLoc(s.fr, s.loc)}
	if d.targets != nil {
		op.targets = d.targets(mk(g))
	}
	op.enabled = func(h Lit) Lit {
		if d.enabled == nil {
			return True
		}
		c2, ok := ex.pick(s, id, h)
		if !ok {
			return False
		}
		oc := mk(h)
		oc.args = c2.args
		return d.enabled(oc)
	}
	op.always = d.kind == "yield"
	op.never = d.never
	op.lib = s.lib
	goG := ex.schedule(s.t, pt, g, op, s.atomic)
	if goG == False {
		return
	}
	c, ok = ex.pick(s, id, goG)
	if !ok {
		return
	}
	oc := mk(goG)
	oc.args = c.args
	if d.cont != nil {
		d.cont(oc)
		return
	}
	v := d.effect(oc)
	if oc.g != False {
		s.cont(oc.g, v)
	}
}

// atomicSite is the single scheduling point of an atomic function.
func (ex *Exec) atomicSite(s *Site, id int, pt *Point) {
	c, ok := ex.pick(s, id, pt.g)
	if !ok {
		return
	}
	op := &VisOp{kind: "atomic", name: c.name, loc: s.loc, lib: s.lib}
	op.enabled = func(h Lit) Lit { return True }
	tg := ex.prog.atomicTarget[c.fn]
	if tg != "" {
		op.targets = []Target{{strings.TrimPrefix(tg, "!"), strings.HasPrefix(tg, "!")}}
	} else {
		op.always = true
	}
	goG := ex.schedule(s.t, pt, pt.g, op, false)
	if goG == False {
		return
	}
	c, ok = ex.pick(s, id, goG)
	if !ok {
		return
	}
	ex.enterCallee(s, c, goG)
}

// ---------------------------------------------------------------- go and defer

func (ex *Exec) storeCall(s *Site, com *ssa.CallCommon, get func(v ssa.Value) Value, g Lit) {
	if s.fv == nil {
		s.fv = &Chain{}
		for range com.Args {
			s.args = append(s.args, &Chain{})
		}
		s.com = com
	}
	s.fv.write(g, get(com.Value))
	for i, a := range com.Args {
		s.args[i].write(g, get(a))
	}
}

func (ex *Exec) storedCallees(s *Site, g Lit) ([]Callee, Lit) {
	var args []Value
	for _, a := range s.args {
		args = append(args, a.read(g))
	}
	return ex.calleesOf(s.com, s.fv.read(g), args, g, s.loc)
}

func (ex *Exec) goStmt(fr *Frame, x *ssa.Go, key string, g Lit) {
	tkey := fr.t.key + "/" + key
	loc := ex.pos(x.Pos())
	st := "go:" + tkey
	s := ex.sites[st]
	isNew := s == nil
	if isNew {
		s = &Site{key: "T" + tkey + "/"}
		ex.sites[st] = s
	}
	ex.storeCall(s, &x.Call, func(v ssa.Value) Value { return ex.get(fr, v, g) }, g)
	s.loc = loc
	ex.events = append(ex.events, Event{round: ex.round, t: fr.t, g: g, kind: "go", pos: loc, desc: "go", child: tkey})
	ex.spawn(tkey, fr.t, key, g, fmt.Sprintf("go@%s", loc), func(t *Thread) {
		s.t = t
		s.lib = fr.lib
		if s.cont == nil {
			s.cont = func(g Lit, v Value) { t.done = or(t.done, g) }
			s.eval = func(g Lit) ([]Callee, Lit) { return ex.storedCallees(s, g) }
		}
		skey := s.key
		run := func(pt *Point) {
			cs, _ := s.eval(pt.g)
			ex.dispatch(s, cs)
		}
		if p, ok := t.front[skey]; ok {
			p.g = or(p.g, g)
		} else if q, ok := t.inq[skey]; ok && t.active {
			q.g = or(q.g, g)
		} else {
			t.front[skey] = &Point{key: skey, g: g, parked: False, run: run, desc: "start"}
		}
	})
}

func (ex *Exec) deferStmt(fr *Frame, x *ssa.Defer, key, local string, g Lit) {
	s := fr.defers[local]
	if s == nil {
		s = &Site{key: key, t: fr.t, fr: fr, atomic: fr.atomic, lib: fr.lib, loc: ex.pos(x.Pos()), g: False}
		fr.defers[local] = s
	}
	ex.storeCall(s, &x.Call, func(v ssa.Value) Value { return ex.get(fr, v, g) }, g)
	s.g = or(s.g, g)
}

// runDefers runs the deferred calls, last first, then continues after it.
func (ex *Exec) runDefers(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, g Lit) {
	base := ex.ptKey(fr, b, iters, i)
	// start at the first deferred call
	ex.nextDefer(fr, b, iters, i, base, "", g)
}

func (ex *Exec) nextDefer(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, base, after string, g Lit) {
	if g == False {
		return
	}
	ks := sortedKeys(fr.defers)
	for j := len(ks) - 1; j >= 0; j-- {
		k := ks[j]
		if after != "" && k >= after {
			continue
		}
		s := fr.defers[k]
		if and(g, s.g) == False {
			continue
		}
		key := base + neg(k)
		fr.t.push(key, g, False, func(pt *Point) {
			ex.oneDefer(fr, b, iters, i, base, k, key, pt.g)
		}, nil, "defer")
		return
	}
	ex.pushBlock(fr, b, iters, i+1, g)
}

func (ex *Exec) oneDefer(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, base, k, key string, g Lit) {
	s := fr.defers[k]
	run := and(g, s.g)
	skip := and(g, not(s.g))
	// the registration is consumed: a later execution of the same frame starts afresh
	s.g = and(s.g, not(g))
	ex.nextDefer(fr, b, iters, i, base, k, skip)
	if run == False {
		return
	}
	ds := ex.siteFor(key, fr.t, fr)
	if ds.cont == nil {
		ds.loc = s.loc
		ds.cont = func(g Lit, v Value) { ex.nextDefer(fr, b, iters, i, base, k, g) }
		ds.eval = func(g Lit) ([]Callee, Lit) { return ex.storedCallees(s, g) }
	}
	cs, _ := ds.eval(run)
	ex.dispatch(ds, cs)
}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(s *Site, c Callee, g Lit) (Value, Lit) {
	a := c.args
	switch c.blt {
	case "len", "cap":
		return ex.lenCap(s, c.blt, a[0], g), g
	case "append":
		return ex.appendB(s, a, g)
	case "copy":
		return ex.copyB(s, a, g)
	case "delete":
		ex.mapDelete(g, a[0], a[1])
		return &Agg{}, g
	case "close":
		return ex.closeChan(s, a[0], g)
	case "print", "println":
		return &Agg{}, g
	case "min", "max":
		var v Value = a[0]
		uns := false
		for _, y := range a[1:] {
			x, ok1 := v.(*Int)
			z, ok2 := y.(*Int)
			if !ok1 || !ok2 {
				panic(unsupported{"min/max"})
			}
			if s.com != nil {
				uns = isUnsigned(s.com.Args[0].Type())
			}
			lt, _ := intBin("<", x, z, uns)
			if c.blt == "min" {
				v = mux(lt.(Lit), x, z)
			} else {
				v = mux(lt.(Lit), z, x)
			}
		}
		return v, g
	case "recover":
		return nilIface(), g
	case "ssa:wrapnilchk":
		return a[0], g
	case "clear":
		u, ok := a[0].(*Union)
		if ok {
			for _, al := range u.alts {
				if p, ok := al.a.(PtrA); ok && p.o != nil && p.o.kind == "map" {
					for _, e := range p.o.ents {
						e.present.write(and(g, al.g), False)
					}
				} else {
					panic(unsupported{"clear"})
				}
			}
			return &Agg{}, g
		}
	}
	panic(unsupported{"builtin " + c.blt})
}

func (ex *Exec) lenCap(s *Site, which string, v Value, g Lit) Value {
	switch x := v.(type) {
	case *Agg:
		return cint(64, int64(len(x.f)))
	case *Union:
		var val Value
		for _, a := range x.alts {
			ga := and(g, a.g)
			if ga == False {
				continue
			}
			var r Value
			switch p := a.a.(type) {
			case SliceA:
				if which == "len" {
					r = cint(64, int64(p.len))
				} else {
					r = cint(64, int64(p.cap))
				}
			case StrA:
				r = cint(64, int64(len(p.s)))
			case *SymStr:
				r = cint(64, int64(len(p.b)))
			case PtrA:
				switch {
				case p.o == nil:
					r = cint(64, 0)
				case p.o.kind == "map":
					r = ex.mapLen(ga, one(p))
				case p.o.kind == "chan":
					if which == "cap" {
						r = cint(64, int64(p.o.n))
					} else {
						ex.access(s.t, p.o.id, false, true, s.key, s.loc, s.lib)
						r = p.o.root.kids[1].ch.read(ga)
					}
				default:
					r = cint(64, int64(len(p.o.cell(p.path).kids)))
				}
			}
			val = mux(a.g, r, val)
		}
		return val
	case Opaque:
		return Opaque{"len"}
	}
	panic(unsupported{which + " of " + show(v)})
}

func (ex *Exec) sliceAlts(v Value) []Alt {
	u, ok := v.(*Union)
	if !ok {
		panic(unsupported{"slice " + show(v)})
	}
	return u.alts
}

func (ex *Exec) appendB(s *Site, a []Value, g Lit) (Value, Lit) {
	if len(a) == 1 {
		return a[0], g
	}
	et := types.Type(nil)
	if s.com != nil {
		if st, ok := s.com.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
	}
	var val Value
	for _, x := range ex.sliceAlts(a[0]) {
		for _, y := range ex.sliceAlts(a[1]) {
			ga := and(and(g, x.g), y.g)
			if ga == False {
				continue
			}
			sx, ok := x.a.(SliceA)
			if !ok {
				panic(unsupported{"append"})
			}
			var elems []Value
			switch sy := y.a.(type) {
			case SliceA:
				for k := 0; k < sy.len; k++ {
					elems = append(elems, sy.o.cell(sy.path+rune1(sy.off+k)).read(ga))
				}
			default:
				bs, ok := strBytes(y.a)
				if !ok {
					panic(unsupported{"append"})
				}
				for _, b := range bs {
					elems = append(elems, b)
				}
			}
			n := sx.len + len(elems)
			if len(elems) == 0 {
				val = mux(and(x.g, y.g), one(sx), val)
				continue
			}
			var r SliceA
			if n <= sx.cap {
				r = SliceA{o: sx.o, path: sx.path, off: sx.off, len: n, cap: sx.cap}
			} else {
				c := 2 * sx.cap
				if c < n {
					c = n
				}
				if c > ex.cfg.maxSlice {
					ex.incomplete("slice capacity over the bound", ga)
					g = and(g, not(and(x.g, y.g)))
					continue
				}
				o := ex.newVar(s.key+u16(n)+u16(c)+"a", types.NewArray(et, int64(c)), ga, "append")
				for k := 0; k < sx.len; k++ {
					o.cell(rune1(k)).write(ga, sx.o.cell(sx.path+rune1(sx.off+k)).read(ga))
				}
				r = SliceA{o: o, len: n, cap: c}
			}
			for k, e := range elems {
				r.o.cell(r.path+rune1(r.off+sx.len+k)).write(ga, e)
			}
			val = mux(and(x.g, y.g), one(r), val)
		}
	}
	return val, g
}

func (ex *Exec) copyB(s *Site, a []Value, g Lit) (Value, Lit) {
	var val Value
	for _, x := range ex.sliceAlts(a[0]) {
		for _, y := range ex.sliceAlts(a[1]) {
			ga := and(and(g, x.g), y.g)
			if ga == False {
				continue
			}
			sx := x.a.(SliceA)
			var elems []Value
			switch sy := y.a.(type) {
			case SliceA:
				for k := 0; k < sy.len; k++ {
					elems = append(elems, sy.o.cell(sy.path+rune1(sy.off+k)).read(ga))
				}
			default:
				bs, _ := strBytes(y.a)
				for _, b := range bs {
					elems = append(elems, b)
				}
			}
			n := len(elems)
			if sx.len < n {
				n = sx.len
			}
			for k := 0; k < n; k++ {
				sx.o.cell(sx.path+rune1(sx.off+k)).write(ga, elems[k])
			}
			val = mux(and(x.g, y.g), cint(64, int64(n)), val)
		}
	}
	return val, g
}

// plainAccess inserts a scheduling point before accesses that may race.
func (ex *Exec) plainAccess(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, in ssa.Instruction, addr ssa.Value, pt *Point, g Lit, at, write bool) (Lit, bool) {
	if !ex.cfg.races || !fr.lib || fr.atomic {
		return g, false
	}
	if al, ok := addr.(*ssa.Alloc); ok && !al.Heap {
		return g, false
	}
	u, ok := ex.get(fr, addr, g).(*Union)
	if !ok {
		return g, false
	}
	key := ex.ptKey(fr, b, iters, i)
	vis := false
	var tg []Target
	var ptrs []Alt
	for _, a := range u.alts {
		p, ok := a.a.(PtrA)
		if !ok || p.o == nil || p.o.root == nil || and(g, a.g) == False {
			continue
		}
		for _, leaf := range leaves(p.o.cell(p.path), nil) {
			ex.access(fr.t, leaf.id, write, false, key, ex.pos(in.Pos()), true)
			if ex.shared["plain "+leaf.id] {
				vis = true
				tg = append(tg, Target{leaf.id, write})
			}
		}
		ptrs = append(ptrs, a)
	}
	if !vis {
		return g, false
	}
	if !at {
		ex.pushBlock(fr, b, iters, i, g)
		return g, true
	}
	op := &VisOp{kind: "plain", name: "access", loc: ex.pos(in.Pos()), write: write, targets: tg, lib: true, always: true}
	op.enabled = func(h Lit) Lit { return True }
	op.plain = func(h Lit) []Alt {
		u, ok := ex.get(fr, addr, h).(*Union)
		if !ok {
			return nil
		}
		return u.alts
	}
	goG := ex.schedule(fr.t, pt, g, op, false)
	if goG == False {
		return goG, true
	}
	// another thread about to make a conflicting access: a data race
	for _, u := range ex.threads {
		if u == fr.t {
			continue
		}
		for _, k := range sortedKeys(u.front) {
			q := u.front[k]
			if q.op == nil || q.op.plain == nil || (!write && !q.op.write) {
				continue
			}
			both := and(goG, q.g)
			if both == False {
				continue
			}
			for _, x := range q.op.plain(q.g) {
				for _, y := range ptrs {
					px, ok1 := x.a.(PtrA)
					py, ok2 := y.a.(PtrA)
					if !ok1 || !ok2 || px.o != py.o || px.o == nil {
						continue
					}
					if !strings.HasPrefix(px.path, py.path) && !strings.HasPrefix(py.path, px.path) {
						continue
					}
					ex.violate("race", "data race: "+op.loc+" and "+q.op.loc, and(both, and(x.g, y.g)))
				}
			}
		}
	}
	return goG, false
}

func leaves(c *Cell, out []*Cell) []*Cell {
	if c.agg {
		for _, k := range c.kids {
			out = leaves(k, out)
		}
		return out
	}
	return append(out, c)
}

var _ = token.NoPos

func isChanVal(v Value) bool {
	u, ok := v.(*Union)
	if !ok {
		return false
	}
	for _, a := range u.alts {
		if p, ok := a.a.(PtrA); ok && p.o != nil && p.o.kind == "chan" {
			return true
		}
	}
	return false
}

// userLoc is the innermost position outside the standard library's sync
// packages; "?" inside sync itself.
func userLoc(fr *Frame, loc string) string {
	for fr != nil && strings.Contains(loc, "/src/sync/atomic/") {
		loc = fr.loc
		fr = fr.parent
	}
	if strings.Contains(loc, "/src/") {
		return "?"
	}
	return loc
}
