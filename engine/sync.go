package main

// Visible operations: scheduling points, channels, selects.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Target struct {
	id    string
	write bool
}

type ChanOp struct {
	ch   Value
	send bool
	val  Value // value sent
	// complete writes the result of a rendezvous completed by the partner
	// under guard m and resumes the thread.
	complete func(m Lit, v Value, ok Lit)
}

type VisOp struct {
	kind    string
	name    string
	loc     string
	targets []Target
	enabled func(g Lit) Lit
	chans   func(g Lit) []ChanOp
	plain   func(g Lit) []Alt
	write   bool
	always  bool // a scheduling point whatever the sharing
	never   bool // never one (left movers)
	lib     bool
	upos    string
}

func (ex *Exec) access(t *Thread, id string, write, syn bool, key, pos string, lib bool) {
	m := ex.accessed[id]
	if m == nil {
		m = map[accKey]*Access{}
		ex.accessed[id] = m
	}
	k := accKey{t.id, write, syn, lib}
	a := m[k]
	if a == nil {
		a = &Access{maxKey: key, pos: pos}
		m[k] = a
		return
	}
	if key > a.maxKey {
		a.maxKey = key
	}
}

// schedule decides under which guard the operation at pt happens now; the rest
// of pt stays where it is. It returns that guard.
func (ex *Exec) schedule(t *Thread, pt *Point, g Lit, op *VisOp, atomic bool) Lit {
	vis := op.always
	if !atomic {
		for _, x := range op.targets {
			ex.access(t, x.id, x.write, true, pt.key, op.loc, op.lib)
			if ex.shared[x.id] {
				vis = true
			}
		}
		if op.never {
			vis = false
		}
	} else {
		vis = false
		for _, x := range op.targets {
			ex.access(t, x.id, x.write, true, pt.key, op.loc, op.lib)
		}
	}
	rec := func(g Lit, v bool) {
		if !atomic && op.kind != "plain" {
			pos := op.loc
			if op.upos != "" {
				pos = op.upos
			}
			ex.events = append(ex.events, Event{round: ex.round, t: t, g: g, kind: op.kind, pos: pos, desc: op.name, vis: v})
		}
	}
	if !vis {
		en := op.enabled(g)
		if and(g, not(en)) == False || en == True {
			rec(g, false)
			return g
		}
		if atomic {
			ex.incomplete("blocking operation in an atomic section at "+op.loc, and(g, not(en)))
			return and(g, en)
		}
	}
	ex.nVis++
	var g1, en Lit
	spend := func(p Lit) {
		for i := len(ex.preempted) - 1; i > 0; i-- {
			ex.preempted[i] = or(ex.preempted[i], and(ex.preempted[i-1], p))
		}
		ex.preempted[0] = or(ex.preempted[0], p)
	}
	var pre []Lit
	budget := ex.cfg.switches
	switch {
	case budget < 0 || t.model:
		g1 = and(g, ex.fresh(fmt.Sprintf("run r%d t%d %s", ex.round, t.id, op.loc)))
		en = op.enabled(g1)
	case op.kind == "yield":
		// The others run meanwhile; not to let them is counted like a preemption.
		en = True
		g1 = and(g, pt.rest)
		if p := and(g, not(pt.rest)); budget > 0 && p != False {
			p = and(p, not(or(ex.fresh(fmt.Sprintf("sleep r%d t%d %s", ex.round, t.id, op.loc)), ex.preempted[budget-1])))
			spend(p)
			g1 = or(g1, p)
		}
	default:
		// A thread goes on until it blocks, except for a bounded number of
		// preemptions in the whole execution, each of which lasts for hold turns.
		en = op.enabled(g)
		g1 = g
		if e := and(g, en); budget > 0 && e != False {
			held := False
			pre = append(pre, False)
			for _, p := range pt.pre {
				if len(pre) < ex.cfg.hold {
					held = or(held, p)
					pre = append(pre, and(e, p))
				}
			}
			run := or(ex.fresh(fmt.Sprintf("run r%d t%d %s", ex.round, t.id, op.loc)), ex.preempted[budget-1])
			pre[0] = and(e, not(or(run, held)))
			spend(pre[0])
			g1 = and(g, or(not(en), and(run, not(held))))
		}
	}
	goG := and(g1, en)
	if goG != g && and(goG, g) == False {
		goG = False // the simplified form of what enables it hides the contradiction
	}
	st := and(g, not(goG))
	parked := and(or(pt.parked, and(g1, not(en))), st)
	if en == True {
		parked = False
	}
	t.stay(pt, st, parked, op)
	if p := t.front[pt.key]; p != nil && st != False {
		for j, l := range pre {
			if j < len(p.pre) {
				p.pre[j] = or(p.pre[j], l)
			} else {
				p.pre = append(p.pre, l)
			}
		}
	}
	rec(goG, true)
	return goG
}

// ---------------------------------------------------------------- channels

func (ex *Exec) newChan(key string, n int, et types.Type, g Lit) *Obj {
	o, isNew := ex.obj(key, "chan", et)
	if isNew {
		o.n = n
		o.root = &Cell{agg: true, obj: o, id: o.id}
		for i := 0; i < n+2; i++ {
			o.root.kids = append(o.root.kids, &Cell{obj: o})
		}
	}
	w := g
	if isNew {
		w = True
	}
	o.root.kids[0].ch.write(w, False)       // closed
	o.root.kids[1].ch.write(w, cint(64, 0)) // count
	return o
}

func (o *Obj) closed(g Lit) Lit {
	l, _ := o.root.kids[0].ch.read(g).(Lit)
	return l
}
func (o *Obj) count(g Lit) *Int { return o.root.kids[1].ch.read(g).(*Int) }

func (o *Obj) bufPush(g Lit, v Value) {
	c := o.count(g)
	for _, a := range c.alts {
		ga := and(g, a.g)
		if ga == False || sext(a.c, 64) < 0 || int(a.c) >= o.n {
			continue
		}
		o.root.kids[2+int(a.c)].ch.write(ga, v)
	}
	o.root.kids[1].ch.write(g, shiftCount(c, g, 1, o.n))
}

func (o *Obj) bufPop(g Lit) Value {
	v := o.root.kids[2].ch.read(g)
	for i := 0; i+1 < o.n; i++ {
		o.root.kids[2+i].ch.write(g, o.root.kids[3+i].ch.read(g))
	}
	c := o.count(g)
	o.root.kids[1].ch.write(g, shiftCount(c, g, -1, o.n))
	return v
}

// shiftCount moves the number of buffered elements within [0, max]; the
// alternatives outside cannot occur on this path.
func shiftCount(c *Int, g Lit, d, max int) *Int {
	out := &Int{w: 64}
	for _, a := range c.alts {
		k := int(sext(a.c, 64)) + d
		if k < 0 || k > max || and(g, a.g) == False {
			continue
		}
		out.alts = append(out.alts, IntAlt{a.g, uint64(k)})
	}
	if len(out.alts) == 0 {
		return cint(64, 0)
	}
	if len(out.alts) == 1 {
		out.alts[0].g = True
	}
	return out
}

func chanAlts(v Value, g Lit) []Alt {
	u, ok := v.(*Union)
	if !ok {
		panic(unsupported{"channel " + show(v)})
	}
	var out []Alt
	for _, a := range u.alts {
		if and(g, a.g) != False {
			out = append(out, a)
		}
	}
	return out
}

type partner struct {
	t  *Thread
	pt *Point
	op ChanOp
	av Lit // available: parked there, on this channel
}

// partners lists the other threads parked on the channel in the opposite direction.
func (ex *Exec) partners(t *Thread, o *Obj, send bool, g Lit, anyFront bool) []partner {
	var out []partner
	for _, u := range ex.threads {
		if u == t {
			continue
		}
		for _, k := range sortedKeys(u.front) {
			q := u.front[k]
			if q.op == nil || q.op.chans == nil {
				continue
			}
			av := q.parked
			if anyFront {
				av = q.g
			}
			av = and(av, q.g)
			if and(av, g) == False {
				continue
			}
			for _, c := range q.op.chans(and(av, g)) {
				if c.send == send {
					continue
				}
				on := False
				if _, ok := c.ch.(*Union); !ok {
					// mostly an impossible combination that was not recognised as such
					ex.incomplete("not encoded: channel of a partner at "+q.op.loc, and(av, g))
					continue
				}
				for _, a := range chanAlts(c.ch, and(av, g)) {
					if p, ok := a.a.(PtrA); ok && p.o == o {
						on = or(on, a.g)
					}
				}
				if x := and(av, on); and(x, g) != False {
					out = append(out, partner{u, q, c, x})
				}
			}
		}
	}
	return out
}

// readiness of one channel operation
func (ex *Exec) chanReady(t *Thread, c ChanOp, g Lit, anyFront bool) Lit {
	r := False
	for _, a := range chanAlts(c.ch, g) {
		o := a.a.(PtrA).o
		if o == nil {
			continue
		}
		ga := and(g, a.g)
		var rd Lit
		if c.send {
			rd = o.closed(ga)
			if o.n > 0 {
				lt, _ := intBin("<", o.count(ga), cint(64, int64(o.n)), false)
				rd = or(rd, lt.(Lit))
			}
		} else {
			rd = o.closed(ga)
			if o.n > 0 {
				gt, _ := intBin(">", o.count(ga), cint(64, 0), false)
				rd = or(rd, gt.(Lit))
			}
		}
		if o.n == 0 {
			for _, p := range ex.partners(t, o, c.send, ga, anyFront) {
				rd = or(rd, p.av)
			}
		}
		r = or(r, and(a.g, rd))
	}
	return r
}

// chanDo performs the operation under g (where it is ready); result value and ok.
func (ex *Exec) chanDo(t *Thread, c ChanOp, g Lit, et types.Type, loc string) (val Value, okL Lit, out Lit) {
	out = g
	okL = False
	for _, a := range chanAlts(c.ch, g) {
		o := a.a.(PtrA).o
		if o == nil {
			continue
		}
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		cl := o.closed(ga)
		if c.send {
			ex.violate("panic", "send on closed channel at "+loc, and(ga, cl))
			if and(ga, cl) != False {
				out = and(out, not(and(a.g, cl)))
				ga = and(ga, not(cl))
			}
			if o.n > 0 {
				o.bufPush(ga, c.val)
				continue
			}
			ex.rendezvous(t, o, c, ga, loc)
			continue
		}
		// receive
		if o.n > 0 {
			ne, _ := intBin(">", o.count(ga), cint(64, 0), false)
			has := ne.(Lit)
			gh := and(ga, has)
			var v Value
			if gh != False {
				v = o.bufPop(gh)
			}
			gz := and(ga, not(has))
			if gz != False {
				v = mux(has, v, zero(et))
			}
			val = mux(a.g, v, val)
			okL = or(okL, and(a.g, has))
			continue
		}
		gr := and(ga, not(cl))
		var v Value
		if gr != False {
			v = ex.rendezvous(t, o, c, gr, loc)
		}
		if and(ga, cl) != False {
			v = mux(cl, zero(et), v)
		}
		val = mux(a.g, v, val)
		okL = or(okL, and(a.g, not(cl)))
	}
	return
}

func (ex *Exec) rendezvous(t *Thread, o *Obj, c ChanOp, g Lit, loc string) Value {
	ps := ex.partners(t, o, c.send, g, false)
	taken := False
	var val Value
	for i, p := range ps {
		sel := and(p.av, not(taken))
		later := False
		for _, q := range ps[i+1:] {
			later = or(later, q.av)
		}
		if later != False && and(and(g, sel), later) != False {
			ch := ex.fresh(fmt.Sprintf("partner r%d t%d %s", ex.round, t.id, loc))
			sel = and(sel, or(ch, not(later)))
		}
		m := and(g, sel)
		taken = or(taken, sel)
		if m == False {
			continue
		}
		if c.send {
			p.op.complete(m, c.val, True)
		} else {
			val = mux(sel, p.op.val, val)
			p.op.complete(m, nil, True)
		}
		p.pt.g = and(p.pt.g, not(m))
		p.pt.parked = and(p.pt.parked, not(m))
		ex.events = append(ex.events, Event{round: ex.round, t: p.t, g: m, kind: "partner", pos: p.pt.op.loc, desc: "by t" + fmt.Sprint(t.id), by: t.id})
	}
	return val
}

func chanTargets(v Value, g Lit, write bool) []Target {
	var out []Target
	u, ok := v.(*Union)
	if !ok {
		return nil
	}
	for _, a := range u.alts {
		if p, ok := a.a.(PtrA); ok && p.o != nil && and(g, a.g) != False {
			out = append(out, Target{p.o.id, write})
		}
	}
	return out
}

// chanInstr executes Send, Recv and Select at their control point; it returns
// the guard under which control continues inline.
func (ex *Exec) chanInstr(fr *Frame, b *ssa.BasicBlock, iters []uint16, i int, in ssa.Instruction, pt *Point) Lit {
	t := fr.t
	loc := ex.pos(in.Pos())
	key := ex.ptKey(fr, b, iters, i)
	resume := func(m Lit) {
		k := key + "\x00\x01"
		// the partner is not running: put the point in its frontier
		if p, ok := t.front[k]; ok {
			p.g = or(p.g, m)
			return
		}
		t.front[k] = &Point{key: k, g: m, parked: False, desc: "resumed", run: func(q *Point) {
			ex.execBlock(fr, b, iters, i+1, &Point{key: k, g: q.g, parked: False, run: q.run})
		}}
	}
	op := &VisOp{loc: loc, lib: fr.lib}
	switch x := in.(type) {
	case *ssa.Send:
		op.kind = "send"
		et := x.Chan.Type().Underlying().(*types.Chan).Elem()
		mk := func(g Lit) ChanOp {
			return ChanOp{ch: ex.get(fr, x.Chan, g), send: true, val: ex.get(fr, x.X, g), complete: func(m Lit, v Value, ok Lit) { resume(m) }}
		}
		op.chans = func(g Lit) []ChanOp { return []ChanOp{mk(g)} }
		op.targets = chanTargets(ex.get(fr, x.Chan, pt.g), pt.g, true)
		op.enabled = func(g Lit) Lit { return ex.chanReady(t, mk(g), g, ex.cur == nil) }
		goG := ex.schedule(t, pt, pt.g, op, fr.atomic)
		if goG == False {
			return False
		}
		_, _, out := ex.chanDo(t, mk(goG), goG, et, loc)
		return out
	case *ssa.UnOp:
		op.kind = "recv"
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		setRes := func(g Lit, v Value, ok Lit) {
			if x.CommaOk {
				fr.set(x, g, &Agg{[]Value{v, ok}})
			} else {
				fr.set(x, g, v)
			}
		}
		mk := func(g Lit) ChanOp {
			return ChanOp{ch: ex.get(fr, x.X, g), complete: func(m Lit, v Value, ok Lit) {
				setRes(m, v, ok)
				resume(m)
			}}
		}
		op.chans = func(g Lit) []ChanOp { return []ChanOp{mk(g)} }
		op.targets = chanTargets(ex.get(fr, x.X, pt.g), pt.g, true)
		op.enabled = func(g Lit) Lit { return ex.chanReady(t, mk(g), g, ex.cur == nil) }
		goG := ex.schedule(t, pt, pt.g, op, fr.atomic)
		if goG == False {
			return False
		}
		v, ok, out := ex.chanDo(t, mk(goG), goG, et, loc)
		setRes(goG, v, ok)
		return out
	case *ssa.Select:
		op.kind = "select"
		tt := x.Type().(*types.Tuple)
		nRecv := 0
		recvIdx := make([]int, len(x.States))
		for k, s := range x.States {
			if s.Dir == types.RecvOnly {
				recvIdx[k] = 2 + nRecv
				nRecv++
			}
		}
		result := func(k int, v Value, ok Lit) Value {
			a := &Agg{make([]Value, tt.Len())}
			a.f[0] = cint(64, int64(k))
			a.f[1] = ok
			for j := 2; j < tt.Len(); j++ {
				a.f[j] = zero(tt.At(j).Type())
			}
			if k >= 0 && x.States[k].Dir == types.RecvOnly {
				a.f[recvIdx[k]] = v
			}
			return a
		}
		mk := func(g Lit) []ChanOp {
			var out []ChanOp
			for k, s := range x.States {
				k := k
				c := ChanOp{ch: ex.get(fr, s.Chan, g), send: s.Dir == types.SendOnly}
				if c.send {
					c.val = ex.get(fr, s.Send, g)
				}
				c.complete = func(m Lit, v Value, ok Lit) {
					if x.States[k].Dir == types.SendOnly {
						ok = False
					}
					fr.set(x, m, result(k, v, ok))
					resume(m)
				}
				out = append(out, c)
			}
			return out
		}
		if x.Blocking {
			op.chans = mk
		}
		for _, s := range x.States {
			op.targets = append(op.targets, chanTargets(ex.get(fr, s.Chan, pt.g), pt.g, true)...)
		}
		op.enabled = func(g Lit) Lit {
			if !x.Blocking {
				return True
			}
			r := False
			for _, c := range mk(g) {
				r = or(r, ex.chanReady(t, c, g, ex.cur == nil))
			}
			return r
		}
		goG := ex.schedule(t, pt, pt.g, op, fr.atomic)
		if goG == False {
			return False
		}
		cs := mk(goG)
		rd := make([]Lit, len(cs))
		for k, c := range cs {
			rd[k] = ex.chanReady(t, c, goG, false)
		}
		taken := False
		out := goG
		for k, c := range cs {
			sel := and(rd[k], not(taken))
			later := False
			for _, l := range rd[k+1:] {
				later = or(later, l)
			}
			if later != False && and(and(goG, sel), later) != False {
				ch := ex.fresh(fmt.Sprintf("select r%d t%d %s case %d", ex.round, t.id, loc, k))
				sel = and(sel, or(ch, not(later)))
			}
			taken = or(taken, sel)
			m := and(goG, sel)
			if m == False {
				continue
			}
			if c.val == nil && c.send {
				c.val = nil
			}
			et := x.States[k].Chan.Type().Underlying().(*types.Chan).Elem()
			v, ok, o2 := ex.chanDo(t, c, m, et, loc)
			if c.send {
				ok = False
			}
			fr.set(x, m, result(k, v, ok))
			ex.events = append(ex.events, Event{round: ex.round, t: t, g: m, kind: "case", pos: loc, desc: fmt.Sprint(k)})
			if o2 != m {
				out = and(out, or(not(m), o2))
			}
		}
		if !x.Blocking {
			d := and(goG, not(taken))
			if d != False {
				fr.set(x, d, result(-1, nil, False))
				ex.events = append(ex.events, Event{round: ex.round, t: t, g: d, kind: "case", pos: loc, desc: "-1"})
			}
		}
		return out
	}
	panic("chanInstr")
}

func (ex *Exec) closeChan(s *Site, v Value, g Lit) (Value, Lit) {
	for _, a := range chanAlts(v, g) {
		o := a.a.(PtrA).o
		ga := and(g, a.g)
		if o == nil {
			ex.violate("panic", "close of nil channel at "+s.loc, ga)
			g = and(g, not(a.g))
			continue
		}
		cl := o.closed(ga)
		if and(ga, cl) != False {
			ex.violate("panic", "close of closed channel at "+s.loc, and(ga, cl))
			g = and(g, not(and(a.g, cl)))
		}
		o.root.kids[0].ch.write(and(ga, not(cl)), True)
	}
	return &Agg{}, g
}

var _ = token.NoPos
