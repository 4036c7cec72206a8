package main

// The symbolic executor: threads, frames, control points, instructions.

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	id       int
	key      string
	name     string
	parent   *Thread
	spawnKey string
	front    map[string]*Point // control points the thread may be at
	q        pointHeap
	inq      map[string]*Point
	active   bool
	done     Lit
	started  Lit
	nopts    int
	isMain   bool
	model    bool // environment thread
	events   []int
	spawnSeq int
	locks    []string
}

type Point struct {
	key    string
	g      Lit
	parked Lit
	rest   Lit   // there since the turn began
	pre    []Lit // preempted there, so many turns ago
	run    func(pt *Point)
	op     *VisOp // the visible operation pending here (nil: plain point)
	desc   string
}

type pointHeap []*Point

func (h pointHeap) Len() int            { return len(h) }
func (h pointHeap) Less(i, j int) bool  { return h[i].key < h[j].key }
func (h pointHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *pointHeap) Push(x interface{}) { *h = append(*h, x.(*Point)) }
func (h *pointHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type Frame struct {
	fn     *ssa.Function
	prefix string
	t      *Thread
	regs   map[ssa.Value]*Chain
	onRet  func(g Lit, v Value)
	defers map[string]*Site
	depth  int
	atomic bool
	loc    string // call site
	lib    bool
	parent *Frame
	w      *wtoInfo
}

type Violation struct {
	kind  string // assert, panic, race, deadlock, leak
	msg   string
	g     Lit
	round int
	t     *Thread
	ev    int // number of events before it
}

type Event struct {
	round int
	t     *Thread
	g     Lit
	kind  string
	pos   string
	desc  string
	vis   bool
	child string // key of the thread started
	by    int    // thread that completed the operation
}

type InputRec struct {
	t     *Thread
	key   string
	name  string
	g     Lit
	v     Value
	seq   int
	round int
}

type accKey struct {
	t     int
	write bool
	sync  bool
	lib   bool
}
type Access struct {
	maxKey string
	pos    string
}

type Exec struct {
	prog       *Program
	cfg        *Config
	threads    []*Thread
	objs       map[string]*Obj
	frames     map[string]*Frame
	sites      map[string]*Site
	globals    map[*ssa.Global]*Obj
	objOrder   []*Obj
	viols      []*Violation
	satStat    [3]int
	satTime    [3]time.Duration
	satC, satP [3]int
	nAs        int
	sim        *Sim
	assumes    []Lit
	covers     map[string]Lit
	incompl    map[string]Lit
	unwound    map[string]Lit
	events     []Event
	inputs     []InputRec
	round      int
	cur        *Thread
	shared     map[string]bool // object/cell ids that need scheduling points
	accessed   map[string]map[accKey]*Access
	fnIDs      map[*ssa.Function]int
	nPoints    int
	nInstr     int
	nVis       int
	preempted  []Lit // at least i+1 preemptions so far
	funcs      map[string]bool
	leakG      Lit
	raceLits   map[string]Lit
	deadline   time.Time
	fnKnown    map[string]int
	libOwned   map[string]bool
	steps      int

	sat       *Sat
	clockLast Value
}

func newExec(p *Program, cfg *Config) *Exec {
	ex := &Exec{prog: p, cfg: cfg}
	ex.shared = map[string]bool{}
	ex.fnIDs = map[*ssa.Function]int{}
	ex.fnKnown = map[string]int{}
	ex.reset()
	return ex
}

func (ex *Exec) reset() {
	ex.threads = nil
	ex.objs = map[string]*Obj{}
	ex.frames = map[string]*Frame{}
	ex.sites = map[string]*Site{}
	ex.globals = map[*ssa.Global]*Obj{}
	ex.objOrder = nil
	ex.viols = nil
	ex.assumes = nil
	ex.nAs = 0
	ex.covers = map[string]Lit{}
	ex.incompl = map[string]Lit{}
	ex.unwound = map[string]Lit{}
	ex.events = nil
	ex.inputs = nil
	ex.accessed = map[string]map[accKey]*Access{}
	ex.nPoints, ex.nInstr, ex.nVis = 0, 0, 0
	ex.preempted = nil
	for i := 0; i < ex.cfg.switches; i++ {
		ex.preempted = append(ex.preempted, False)
	}
	ex.funcs = map[string]bool{}
	ex.leakG = False
	ex.raceLits = map[string]Lit{}
	ex.clockLast = nil
	ex.sat = newSat()
	ex.sim = newSim()
	G = newAIG()
}

func (ex *Exec) id(name string) int {
	if n, ok := ex.fnKnown[name]; ok {
		return n
	}
	n := len(ex.fnKnown) + 1
	ex.fnKnown[name] = n
	return n
}

func (ex *Exec) fresh(name string) Lit { return G.input(name) }

func (ex *Exec) obj(key, kind string, t types.Type) (*Obj, bool) {
	if o, ok := ex.objs[key]; ok {
		return o, false
	}
	o := &Obj{id: fmt.Sprintf("%s#%x", kind, key), kind: kind, typ: t, n: -1}
	ex.objs[key] = o
	ex.objOrder = append(ex.objOrder, o)
	return o, true
}

// newVar allocates a zeroed variable under guard g.
func (ex *Exec) newVar(key string, t types.Type, g Lit, name string) *Obj {
	o, isNew := ex.obj(key, "var", t)
	if isNew {
		o.id = name + "#" + fmt.Sprintf("%x", key)
		o.root = newCell(t, o, o.id)
		o.root.write(True, zero(t))
		if ex.cur != nil {
			o.owner = ex.cur.id
		}
	} else {
		o.root.write(g, zero(t))
	}
	return o
}

// ---------------------------------------------------------------- violations

func (ex *Exec) violate(kind, msg string, g Lit) {
	if g == False {
		return
	}
	ex.viols = append(ex.viols, &Violation{kind: kind, msg: msg, g: g, round: ex.round, t: ex.cur, ev: len(ex.events)})
}

func (ex *Exec) incomplete(why string, g Lit) {
	if g == False {
		return
	}
	ex.incompl[why] = or(orF(ex.incompl, why), g)
}

func orF(m map[string]Lit, k string) Lit {
	if l, ok := m[k]; ok {
		return l
	}
	return False
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.prog.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, ex.prog.root+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------------------------------------------------------------- scheduling of control points within a thread

func (t *Thread) push(key string, g, parked Lit, run func(pt *Point), op *VisOp, desc string) {
	if g == False {
		return
	}
	if p, ok := t.inq[key]; ok {
		p.g = or(p.g, g)
		p.parked = or(p.parked, parked)
		return
	}
	p := &Point{key: key, g: g, parked: parked, rest: False, run: run, op: op, desc: desc}
	t.inq[key] = p
	heap.Push(&t.q, p)
}

// stay leaves the thread at this point until its next turn.
func (t *Thread) stay(pt *Point, g, parked Lit, op *VisOp) {
	if g == False {
		return
	}
	if p, ok := t.front[pt.key]; ok {
		p.g = or(p.g, g)
		p.parked = or(p.parked, parked)
		if op != nil {
			p.op = op
		}
		return
	}
	t.front[pt.key] = &Point{key: pt.key, g: g, parked: parked, run: pt.run, op: op, desc: pt.desc}
}

func (ex *Exec) turn(t *Thread) {
	ex.cur = t
	t.active = true
	old := t.front
	t.front = map[string]*Point{}
	t.inq = map[string]*Point{}
	t.q = nil
	for _, k := range sortedKeys(old) {
		p := old[k]
		if p.g == False {
			continue
		}
		t.push(p.key, p.g, p.parked, p.run, p.op, p.desc)
		t.inq[p.key].rest = p.g
		t.inq[p.key].pre = p.pre
	}
	for len(t.q) > 0 {
		p := heap.Pop(&t.q).(*Point)
		delete(t.inq, p.key)
		if p.g == False {
			continue
		}
		if ex.cfg.trace {
			fmt.Fprintf(os.Stderr, "  r%d %s point %x %s g=%d(%d) nodes=%d\n", ex.round, t.name, p.key, p.desc, p.g, len(G.conjOf(p.g)), len(G.nodes))
		}
		if ex.cfg.prune && len(G.conjOf(p.g)) > 0 && !ex.feasible(p.g) {
			continue
		}
		ex.nPoints++
		if ex.nPoints&63 == 0 && time.Now().After(ex.deadline) {
			panic(timeout{})
		}
		ex.protect(p.g, func() { p.run(p) })
	}
	t.active = false
	ex.cur = nil
}

type timeout struct{}

func (ex *Exec) protect(g Lit, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				ex.incomplete("not encoded: "+u.why, g)
				if ex.cfg.verbose {
					fmt.Fprintln(os.Stderr, "unsupported:", u.why)
				}
				return
			}
			panic(r)
		}
	}()
	f()
}

func (ex *Exec) feasible(g Lit) bool {
	if ex.sim.sat(g, ex.assumes) {
		return true
	}
	t0, c0, p0 := time.Now(), ex.sat.nConfl, ex.sat.nProp
	for ; ex.nAs < len(ex.assumes); ex.nAs++ {
		if l := ex.assumes[ex.nAs]; l != True {
			ex.sat.units = append(ex.sat.units, ex.sat.unit(l))
		}
	}
	r := ex.sat.solve([]Lit{g}, ex.cfg.pruneConfl)
	if r == -1 && !ex.sat.unsat {
		ex.sat.unit(not(g))
	}
	ex.satTime[r+1] += time.Since(t0)
	ex.satC[r+1] += ex.sat.nConfl - c0
	ex.satP[r+1] += ex.sat.nProp - p0
	ex.satStat[r+1]++
	if r == 1 {
		ex.sim.add(ex.sat, ex.assumes)
	}
	return r != -1
}

func (ex *Exec) spawn(key string, parent *Thread, spawnKey string, g Lit, name string, start func(t *Thread)) *Thread {
	for _, t := range ex.threads {
		if t.key == key {
			start(t)
			t.started = or(t.started, g)
			return t
		}
	}
	t := &Thread{id: len(ex.threads), key: key, name: name, parent: parent, spawnKey: spawnKey, front: map[string]*Point{}, inq: map[string]*Point{}, done: False, started: g}
	ex.threads = append(ex.threads, t)
	if parent != nil {
		t.model = parent.model
	}
	start(t)
	return t
}

// Run explores everything within the configured number of rounds.
func (ex *Exec) Run() (timedOut bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(timeout); ok {
				timedOut = true
				return
			}
			panic(r)
		}
	}()
	ex.reset()
	ex.round = 0
	main := &Thread{id: 0, key: "\x00M", name: "main", front: map[string]*Point{}, inq: map[string]*Point{}, done: False, started: True, isMain: true}
	ex.threads = append(ex.threads, main)
	ex.cur = main
	// package initialisers, then the harness
	fns := append([]*ssa.Function{}, ex.prog.inits...)
	fns = append(fns, ex.cfg.entry)
	main.active = true
	var step func(i int, g Lit)
	step = func(i int, g Lit) {
		if i == len(fns) {
			main.done = or(main.done, g)
			return
		}
		ex.enter(main, nil, main.key+u16(i), fns[i], nil, nil, g, "", func(g Lit, v Value) { step(i+1, g) })
	}
	step(0, True)
	// the first turn continues from the pushed points
	main.front = main.inq
	main.q = nil
	main.inq = map[string]*Point{}
	main.active = false
	rounds := ex.cfg.rounds
	for r := 0; r < rounds; r++ {
		ex.round = r
		if ex.cfg.verbose {
			fmt.Fprintf(os.Stderr, "round %d threads %d nodes %d points %d\n", r, len(ex.threads), len(G.nodes), ex.nPoints)
		}
		order := ex.order(r)
		seen := map[int]bool{}
		for {
			progressed := false
			for _, t := range order {
				if !seen[t.id] {
					seen[t.id] = true
					ex.turn(t)
					progressed = true
				}
			}
			if len(order) == len(ex.threads) {
				break
			}
			order = ex.order(r) // threads created meanwhile
			_ = progressed
		}
	}
	ex.round = rounds
	return false
}

func (ex *Exec) order(r int) []*Thread {
	out := append([]*Thread{}, ex.threads...)
	if ex.cfg.order == "rev" || (ex.cfg.order == "alt" && r%2 == 1) {
		// main first, then the others from the youngest
		sort.SliceStable(out, func(i, j int) bool {
			if out[i].isMain != out[j].isMain {
				return out[i].isMain
			}
			return out[i].id > out[j].id
		})
	}
	return out
}

// ---------------------------------------------------------------- frames

func (ex *Exec) isLib(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	return ex.prog.isLibPath(p)
}

// enter starts a function body.
func (ex *Exec) enter(t *Thread, parent *Frame, prefix string, fn *ssa.Function, binds []Value, args []Value, g Lit, loc string, onRet func(g Lit, v Value)) {
	if len(fn.Blocks) == 0 {
		panic(unsupported{"call of " + fn.String()})
	}
	fr, ok := ex.frames[prefix]
	if !ok {
		fr = &Frame{fn: fn, prefix: prefix, t: t, regs: map[ssa.Value]*Chain{}, onRet: onRet, defers: map[string]*Site{}, loc: loc, parent: parent}
		fr.w = wtoOf(fn)
		if parent != nil {
			fr.depth = parent.depth + 1
			fr.atomic = parent.atomic
		}
		if ex.prog.atomicFns[fn] {
			fr.atomic = true
		}
		fr.lib = ex.isLib(fn)
		ex.frames[prefix] = fr
	}
	if fr.fn != fn {
		panic("frame identity: " + fr.fn.String() + " / " + fn.String())
	}
	if fr.depth > ex.cfg.depth {
		ex.unwound["call depth at "+fn.String()] = or(orF(ex.unwound, "call depth at "+fn.String()), g)
		return
	}
	ex.funcs[fn.String()] = true
	for i, p := range fn.Params {
		if i < len(args) {
			fr.set(p, g, args[i])
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.set(f, g, binds[i])
		}
	}
	ex.pushBlock(fr, fn.Blocks[0], make([]uint16, len(fr.w.pos[fn.Blocks[0]].heads)), 0, g)
}

func (fr *Frame) set(v ssa.Value, g Lit, x Value) {
	c := fr.regs[v]
	if c == nil {
		c = &Chain{}
		fr.regs[v] = c
	}
	c.write(g, x)
}

func (ex *Exec) get(fr *Frame, v ssa.Value, g Lit) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(x)
	case *ssa.Global:
		return ptrTo(ex.global(x))
	case *ssa.Function:
		return one(FnA{fn: x})
	case *ssa.Builtin:
		return one(FnA{blt: x.Name()})
	}
	c := fr.regs[v]
	if c == nil {
		return nil
	}
	return c.read(g)
}

func (ex *Exec) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return Opaque{"const"}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return cbool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return cstr(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(c.Type())
		if w == 0 {
			w = 64
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return cint(w, i)
		}
		u, _ := constant.Uint64Val(v)
		return cint(w, int64(u))
	}
	return Opaque{"float"}
}

func (ex *Exec) global(g *ssa.Global) *Obj {
	if o, ok := ex.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	key := "global:" + g.String()
	o, _ := ex.obj(key, "var", t)
	o.id = key
	o.root = newCell(t, o, o.id)
	o.root.write(True, ex.prog.globalInit(ex, g, t))
	ex.globals[g] = o
	return o
}

// ---------------------------------------------------------------- control points in a block

func (ex *Exec) ptKey(fr *Frame, b *ssa.BasicBlock, iters []uint16, idx int) string {
	return fr.prefix + blockKey(fr.w.pos[b], iters) + u16(idx)
}

func (ex *Exec) pushBlock(fr *Frame, b *ssa.BasicBlock, iters []uint16, idx int, g Lit) {
	ex.pushAt(fr, b, iters, idx, g, "")
}

// pushAt pushes the point at instruction idx; resumed points ("sub") start after it.
func (ex *Exec) pushAt(fr *Frame, b *ssa.BasicBlock, iters []uint16, idx int, g Lit, sub string) {
	key := ex.ptKey(fr, b, iters, idx) + sub
	fr.t.push(key, g, False, func(pt *Point) {
		ex.execBlock(fr, b, iters, idx, pt)
	}, nil, fr.fn.Name())
}

func (ex *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, iters []uint16, g Lit) {
	if g == False {
		return
	}
	ni, back := edgeIters(fr.w, from, to, iters)
	if back {
		n := len(ni) - 1
		if int(ni[n]) > ex.unwindFor(fr) {
			k := "loop in " + fr.fn.String() + " at " + ex.blockPos(to)
			ex.unwound[k] = or(orF(ex.unwound, k), g)
			return
		}
		if ex.cfg.pruneLoops && len(G.conjOf(g)) > 0 && g != True && !ex.feasible(g) {
			return
		}
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.get(fr, ph.Edges[pi], g))
	}
	for i, ph := range phis {
		fr.set(ph, g, vals[i])
	}
	ex.pushBlock(fr, to, ni, len(phis), g)
}

func (ex *Exec) unwindFor(fr *Frame) int {
	if n, ok := ex.cfg.unwindFn[fr.fn.Name()]; ok {
		return n
	}
	return ex.cfg.unwind
}

func (ex *Exec) blockPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return ex.pos(in.Pos())
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return ex.pos(in.Pos())
			}
		}
	}
	return b.String()
}

// execBlock runs instructions from idx under pt.g until the block ends or the
// control point has to be merged with others.
func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, iters []uint16, idx int, pt *Point) {
	g := pt.g
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			// this path ends here
			ex.incomplete("not encoded: "+u.why, g)
			if ex.cfg.verbose {
				fmt.Fprintln(os.Stderr, "unsupported:", u.why)
			}
		}
	}()
	at := true // standing exactly at the popped point
	for i := idx; i < len(b.Instrs); i++ {
		ex.nInstr++
		in := b.Instrs[i]
		key := func() string { return ex.ptKey(fr, b, iters, i) }
		switch x := in.(type) {
		case *ssa.Phi:
			// assigned on the edge
		case *ssa.DebugRef:
		case *ssa.If:
			c, ok := ex.get(fr, x.Cond, g).(Lit)
			if !ok {
				panic(unsupported{"branch on an unknown value at " + ex.pos(x.Cond.Pos()) + " in " + fr.fn.String()})
			}
			gt, gf := and(g, c), and(g, not(c))
			ex.jump(fr, b, b.Succs[0], iters, gt)
			if b.Succs[0] == b.Succs[1] {
				ex.jump(fr, b, b.Succs[1], iters, gf)
			} else {
				ex.jump(fr, b, b.Succs[1], iters, gf)
			}
			return
		case *ssa.Jump:
			ex.jump(fr, b, b.Succs[0], iters, g)
			return
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
				v = &Agg{}
			case 1:
				v = ex.get(fr, x.Results[0], g)
			default:
				a := &Agg{}
				for _, r := range x.Results {
					a.f = append(a.f, ex.get(fr, r, g))
				}
				v = a
			}
			fr.onRet(g, v)
			return
		case *ssa.Panic:
			ex.violate("panic", "panic at "+ex.pos(x.Pos())+" in "+fr.fn.String()+": "+show(ex.get(fr, x.X, g)), g)
			return
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 && (bi.Name() == "delete" || bi.Name() == "len" || bi.Name() == "clear") && isMap(x.Call.Args[0].Type()) {
				ng, yield := ex.plainAccess(fr, b, iters, i, in, x.Call.Args[0], pt, g, at, bi.Name() != "len")
				if yield {
					return
				}
				g = ng
				if g == False {
					return
				}
			}
			done, ng := ex.call(fr, b, iters, i, x, g, pt, at)
			if done {
				return
			}
			g = ng
		case *ssa.Go:
			ex.goStmt(fr, x, key(), g)
		case *ssa.Defer:
			ex.deferStmt(fr, x, key(), blockKey(fr.w.pos[b], iters)+u16(i), g)
		case *ssa.RunDefers:
			ex.runDefers(fr, b, iters, i, g)
			return
		case *ssa.Send, *ssa.Select:
			if !at {
				ex.pushBlock(fr, b, iters, i, g)
				return
			}
			g = ex.chanInstr(fr, b, iters, i, in, pt)
			if g == False {
				return
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				if !at {
					ex.pushBlock(fr, b, iters, i, g)
					return
				}
				g = ex.chanInstr(fr, b, iters, i, in, pt)
				if g == False {
					return
				}
				break
			}
			if x.Op == token.MUL {
				ng, yield := ex.plainAccess(fr, b, iters, i, in, x.X, pt, g, at, false)
				if yield {
					return
				}
				g = ng
				v, rg := ex.load(g, ex.get(fr, x.X, g), "nil pointer dereference at "+ex.pos(x.Pos()))
				g = rg
				if g == False {
					return
				}
				fr.set(x, g, v)
				break
			}
			fr.set(x, g, ex.unop(fr, x, g))
		case *ssa.Store:
			ng, yield := ex.plainAccess(fr, b, iters, i, in, x.Addr, pt, g, at, true)
			if yield {
				return
			}
			g = ng
			g = ex.store(g, ex.get(fr, x.Addr, g), ex.get(fr, x.Val, g), "nil pointer dereference at "+ex.pos(x.Pos()))
			if g == False {
				return
			}
		case *ssa.MapUpdate:
			ng, yield := ex.plainAccess(fr, b, iters, i, in, x.Map, pt, g, at, true)
			if yield {
				return
			}
			g = ng
			if g == False {
				return
			}
			g = ex.mapUpdate(g, ex.get(fr, x.Map, g), ex.get(fr, x.Key, g), ex.get(fr, x.Value, g), ex.pos(x.Pos()))
			if g == False {
				return
			}
		default:
			if m := readMap(in); m != nil {
				ng, yield := ex.plainAccess(fr, b, iters, i, in, m, pt, g, at, false)
				if yield {
					return
				}
				g = ng
				if g == False {
					return
				}
			}
			v, ok := in.(ssa.Value)
			if !ok {
				panic(unsupported{fmt.Sprintf("%T", in)})
			}
			val, ng := ex.eval(fr, v, g, key)
			g = ng
			if g == False {
				return
			}
			fr.set(v, g, val)
		}
		at = false
	}
}

func rune1(i int) string { return string(rune(i)) }

// load reads through a pointer; the result guard excludes nil.
func (ex *Exec) load(g Lit, p Value, msg string) (Value, Lit) {
	u, ok := p.(*Union)
	if !ok {
		panic(unsupported{"load through " + show(p)})
	}
	var val Value
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		pa, ok := a.a.(PtrA)
		if !ok {
			panic(unsupported{"load through " + showAtom(a.a)})
		}
		if pa.o == nil {
			ex.violate("panic", msg, ga)
			g = and(g, not(a.g))
			continue
		}
		if pa.o.root == nil {
			panic(unsupported{"load of " + pa.o.id})
		}
		v := pa.o.cell(pa.path).read(ga)
		if val == nil {
			val = v
		} else {
			val = mux(a.g, v, val)
		}
	}
	return val, g
}

func (ex *Exec) store(g Lit, p Value, v Value, msg string) Lit {
	u, ok := p.(*Union)
	if !ok {
		panic(unsupported{"store through " + show(p)})
	}
	out := g
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		pa, ok := a.a.(PtrA)
		if !ok {
			panic(unsupported{"store through " + showAtom(a.a)})
		}
		if pa.o == nil {
			ex.violate("panic", msg, ga)
			out = and(out, not(a.g))
			continue
		}
		pa.o.cell(pa.path).write(ga, v)
	}
	return out
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp, g Lit) Value {
	v := ex.get(fr, x.X, g)
	switch x.Op {
	case token.NOT:
		l, ok := v.(Lit)
		if !ok {
			return Opaque{"not"}
		}
		return not(l)
	case token.SUB:
		i, ok := v.(*Int)
		if !ok {
			return Opaque{"neg"}
		}
		r, _ := intBin("-", cint(i.w, 0), i, false)
		return r
	case token.XOR:
		i, ok := v.(*Int)
		if !ok {
			return Opaque{"xor"}
		}
		r, _ := intBin("^", i, cint(i.w, -1), false)
		return r
	}
	panic(unsupported{"unary " + x.Op.String()})
}

// eval evaluates an instruction without effects on scheduling.
func (ex *Exec) eval(fr *Frame, v ssa.Value, g Lit, key func() string) (Value, Lit) {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := ex.newVar(key(), t, g, x.Comment)
		o.lib = fr.lib
		return ptrTo(o), g
	case *ssa.BinOp:
		return ex.binop(fr, x, g)
	case *ssa.ChangeType:
		return ex.get(fr, x.X, g), g
	case *ssa.ChangeInterface:
		return ex.get(fr, x.X, g), g
	case *ssa.Convert:
		return ex.convert(x.X.Type(), x.Type(), ex.get(fr, x.X, g)), g
	case *ssa.MultiConvert:
		return ex.convert(x.X.Type(), x.Type(), ex.get(fr, x.X, g)), g
	case *ssa.MakeInterface:
		return mkIface(x.X.Type(), ex.get(fr, x.X, g)), g
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o, isNew := ex.obj(key(), "clo", nil)
		if isNew {
			o.root = &Cell{agg: true, obj: o, id: o.id}
			for range x.Bindings {
				o.root.kids = append(o.root.kids, &Cell{obj: o})
			}
		}
		for i, b := range x.Bindings {
			o.root.kids[i].ch.write(g, ex.get(fr, b, g))
		}
		return one(FnA{fn: fn, o: o}), g
	case *ssa.MakeChan:
		n, ok := ex.get(fr, x.Size, g).(*Int)
		if !ok {
			panic(unsupported{"channel size"})
		}
		et := x.Type().Underlying().(*types.Chan).Elem()
		if n.alts == nil {
			panic(unsupported{"symbolic channel size"})
		}
		var out Value
		for i, a := range n.alts {
			c := sext(a.c, 64)
			if c < 0 {
				ex.violate("panic", "makechan: size out of range at "+ex.pos(x.Pos()), and(g, a.g))
				g = and(g, not(a.g))
				continue
			}
			if c > int64(ex.cfg.maxChan) {
				ex.incomplete("channel capacity over the bound", and(g, a.g))
				g = and(g, not(a.g))
				continue
			}
			o := ex.newChan(key()+u16(i), int(c), et, and(g, a.g))
			o.lib = fr.lib
			out = mux(a.g, ptrTo(o), out)
		}
		return out, g
	case *ssa.MakeMap:
		o, isNew := ex.obj(key(), "map", x.Type())
		if isNew {
			o.root = &Cell{obj: o, id: o.id}
			o.lib = fr.lib
		} else {
			for _, e := range o.ents {
				e.present.write(g, False)
			}
		}
		return ptrTo(o), g
	case *ssa.MakeSlice:
		ln, ok1 := ex.get(fr, x.Len, g).(*Int)
		cp, ok2 := ex.get(fr, x.Cap, g).(*Int)
		if !ok1 || !ok2 || ln.alts == nil || cp.alts == nil {
			panic(unsupported{"slice size"})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		var out Value
		for _, a := range ln.alts {
			for _, c := range cp.alts {
				ga := and(and(g, a.g), c.g)
				if ga == False {
					continue
				}
				l, k := int(sext(a.c, 64)), int(sext(c.c, 64))
				if l < 0 || k < l {
					ex.violate("panic", "makeslice: len out of range at "+ex.pos(x.Pos()), ga)
					g = and(g, not(ga))
					continue
				}
				if k > ex.cfg.maxSlice {
					ex.incomplete("slice capacity over the bound", ga)
					g = and(g, not(ga))
					continue
				}
				o := ex.newVar(key()+u16(l)+u16(k), types.NewArray(et, int64(k)), ga, "make")
				out = mux(and(a.g, c.g), one(SliceA{o: o, len: l, cap: k}), out)
			}
		}
		return out, g
	case *ssa.Extract:
		a, ok := ex.get(fr, x.Tuple, g).(*Agg)
		if !ok {
			return Opaque{"extract"}, g
		}
		return a.f[x.Index], g
	case *ssa.Field:
		a, ok := ex.get(fr, x.X, g).(*Agg)
		if !ok {
			return Opaque{"field"}, g
		}
		return a.f[x.Field], g
	case *ssa.FieldAddr:
		u, ok := ex.get(fr, x.X, g).(*Union)
		if !ok {
			panic(unsupported{"field address of " + show(ex.get(fr, x.X, g))})
		}
		var out []Alt
		for _, a := range u.alts {
			p, ok := a.a.(PtrA)
			if !ok {
				panic(unsupported{"field address of " + showAtom(a.a)})
			}
			if p.o == nil {
				ex.violate("panic", "nil pointer dereference at "+ex.pos(x.Pos()), and(g, a.g))
				g = and(g, not(a.g))
				continue
			}
			out = append(out, Alt{a.g, PtrA{p.o, p.path + rune1(x.Field)}})
		}
		if len(out) == 1 {
			out[0].g = True
		}
		return &Union{out}, g
	case *ssa.IndexAddr:
		return ex.indexAddr(fr, x, g)
	case *ssa.Index:
		switch a := ex.get(fr, x.X, g).(type) {
		case *Agg:
			ix := ex.get(fr, x.Index, g).(*Int)
			var val Value
			for k := len(a.f) - 1; k >= 0; k-- {
				val = mux(intEqConst(ix, uint64(k)), a.f[k], val)
			}
			oob := ex.oob(ix, len(a.f))
			ex.violate("panic", "index out of range at "+ex.pos(x.Pos()), and(g, oob))
			return val, and(g, not(oob))
		case *Union:
			return ex.strIndex(a, ex.get(fr, x.Index, g).(*Int), g, ex.pos(x.Pos()))
		}
		panic(unsupported{"index"})
	case *ssa.Lookup:
		m := ex.get(fr, x.X, g)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return ex.strIndex(m.(*Union), ex.get(fr, x.Index, g).(*Int), g, ex.pos(x.Pos()))
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		val, pres := ex.mapLookup(g, m, ex.get(fr, x.Index, g), et)
		if x.CommaOk {
			return &Agg{[]Value{val, pres}}, g
		}
		return val, g
	case *ssa.Slice:
		return ex.slice(fr, x, g, key)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, x, g)
	case *ssa.Range:
		m := ex.get(fr, x.X, g)
		return ex.rangeInit(key(), m, x.X.Type(), g), g
	case *ssa.Next:
		return ex.rangeNext(fr, x, g, key()), g
	case *ssa.SliceToArrayPointer:
		panic(unsupported{"slice to array pointer"})
	}
	panic(unsupported{fmt.Sprintf("%T", v)})
}

func (ex *Exec) oob(ix *Int, n int) Lit {
	r, _ := intBin("<", ix, cint(ix.w, int64(n)), true)
	return not(r.(Lit))
}

func (ex *Exec) strIndex(u *Union, ix *Int, g Lit, pos string) (Value, Lit) {
	var val Value
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		bs, ok := strBytes(a.a)
		if !ok {
			panic(unsupported{"index of an unknown string"})
		}
		oob := ex.oob(ix, len(bs))
		ex.violate("panic", "index out of range at "+pos, and(ga, oob))
		g = and(g, or(not(a.g), not(oob)))
		var v Value
		for k := len(bs) - 1; k >= 0; k-- {
			e := intEqConst(ix, uint64(k))
			if e == False {
				continue
			}
			v = mux(e, bs[k], v)
		}
		val = mux(a.g, v, val)
	}
	return val, g
}

func (ex *Exec) indexAddr(fr *Frame, x *ssa.IndexAddr, g Lit) (Value, Lit) {
	base := ex.get(fr, x.X, g)
	ixv := ex.get(fr, x.Index, g)
	ix, ok := ixv.(*Int)
	if !ok {
		panic(unsupported{"index " + show(ixv)})
	}
	u, ok := base.(*Union)
	if !ok {
		panic(unsupported{"index of " + show(base)})
	}
	m := map[Atom]int{}
	var out []Alt
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		var o *Obj
		var path string
		off, n := 0, 0
		switch p := a.a.(type) {
		case SliceA:
			o, path, off, n = p.o, p.path, p.off, p.len
		case PtrA:
			if p.o == nil {
				ex.violate("panic", "nil pointer dereference at "+ex.pos(x.Pos()), ga)
				g = and(g, not(a.g))
				continue
			}
			o, path = p.o, p.path
			n = len(o.cell(path).kids)
		}
		oob := ex.oob(ix, n)
		if oob != False {
			ex.violate("panic", "index out of range at "+ex.pos(x.Pos()), and(ga, oob))
			g = and(g, not(and(a.g, oob)))
		}
		for k := 0; k < n; k++ {
			e := and(a.g, intEqConst(ix, uint64(k)))
			if e == False || and(g, e) == False {
				continue
			}
			at := PtrA{o, path + rune1(off+k)}
			if i, ok := m[at]; ok {
				out[i].g = or(out[i].g, e)
			} else {
				m[at] = len(out)
				out = append(out, Alt{e, at})
			}
		}
	}
	if len(out) == 1 {
		out[0].g = True
	}
	if len(out) == 0 {
		return nil, False
	}
	return &Union{out}, g
}

func (ex *Exec) binop(fr *Frame, x *ssa.BinOp, g Lit) (Value, Lit) {
	a, b := ex.get(fr, x.X, g), ex.get(fr, x.Y, g)
	if a == nil || b == nil {
		return nil, g
	}
	if _, ok := a.(Opaque); ok {
		return Opaque{"binop"}, g
	}
	if _, ok := b.(Opaque); ok {
		return Opaque{"binop"}, g
	}
	op := x.Op.String()
	switch op {
	case "==", "!=":
		e := ex.equal(a, b, x.X.Type(), x.Y.Type())
		if op == "!=" {
			e = not(e)
		}
		return e, g
	}
	switch p := a.(type) {
	case *Int:
		q := b.(*Int)
		r, dz := intBin(op, p, q, isUnsigned(x.X.Type()))
		if dz != False {
			ex.violate("panic", "integer divide by zero at "+ex.pos(x.Pos()), and(g, dz))
			g = and(g, not(dz))
		}
		return r, g
	case *Union: // strings
		q := b.(*Union)
		var val Value
		for _, s := range p.alts {
			for _, t := range q.alts {
				ga := and(s.g, t.g)
				if and(g, ga) == False {
					continue
				}
				val = mux(ga, strBin(op, s.a, t.a), val)
			}
		}
		return val, g
	case Lit:
		q := b.(Lit)
		switch op {
		case "&", "&&":
			return and(p, q), g
		case "|", "||":
			return or(p, q), g
		}
	}
	panic(unsupported{"operator " + op + " on " + show(a)})
}

func strBin(op string, a, b Atom) Value {
	x, ok1 := a.(StrA)
	y, ok2 := b.(StrA)
	if ok1 && ok2 {
		switch op {
		case "+":
			return cstr(x.s + y.s)
		case "<":
			return cbool(x.s < y.s)
		case "<=":
			return cbool(x.s <= y.s)
		case ">":
			return cbool(x.s > y.s)
		case ">=":
			return cbool(x.s >= y.s)
		}
	}
	if op == "+" {
		p, _ := strBytes(a)
		q, _ := strBytes(b)
		return one(&SymStr{append(append([]*Int{}, p...), q...)})
	}
	panic(unsupported{"string operator " + op})
}

// equal compares, converting between interface and concrete operands.
func (ex *Exec) equal(a, b Value, ta, tb types.Type) Lit {
	ia, oka := a.(*Iface)
	ib, okb := b.(*Iface)
	if oka && !okb {
		return eqVal(ia, mkIface(tb, b))
	}
	if okb && !oka {
		return eqVal(mkIface(ta, a), ib)
	}
	// nil slice comparison etc.
	return eqVal(a, b)
}

func (ex *Exec) convert(from, to types.Type, v Value) Value {
	fw, tw := intWidth(from), intWidth(to)
	if fw > 0 && tw > 0 {
		if i, ok := v.(*Int); ok {
			return resize(i, tw, isUnsigned(from))
		}
		return v
	}
	if _, ok := v.(Opaque); ok {
		return v
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return v
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		return v
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if i, ok := v.(*Int); ok {
			if c, ok := i.konst(); ok {
				return cstr(string(rune(sext(c, i.w))))
			}
		}
		if u, ok := v.(*Union); ok { // []byte to string
			var val Value
			for _, a := range u.alts {
				s, ok := a.a.(SliceA)
				if !ok {
					panic(unsupported{"conversion to string"})
				}
				var bs []*Int
				for k := 0; k < s.len; k++ {
					e, ok := s.o.cell(s.path + rune1(s.off+k)).read(a.g).(*Int)
					if !ok || e.w != 8 {
						panic(unsupported{"conversion to string"})
					}
					bs = append(bs, e)
				}
				val = mux(a.g, mkStr(bs), val)
			}
			return val
		}
	}
	if (fb != nil && fb.Info()&types.IsFloat != 0) || (tb != nil && tb.Info()&types.IsFloat != 0) {
		return Opaque{"float"}
	}
	if fb == nil || tb == nil {
		if _, ok := to.Underlying().(*types.Slice); ok && fb != nil {
			panic(unsupported{"conversion of a string to a slice"})
		}
		return v
	}
	panic(unsupported{"conversion " + from.String() + " to " + to.String()})
}

func mkStr(bs []*Int) Value {
	buf := make([]byte, len(bs))
	for i, b := range bs {
		c, ok := b.konst()
		if !ok {
			return one(&SymStr{bs})
		}
		buf[i] = byte(c)
	}
	return cstr(string(buf))
}

func (ex *Exec) slice(fr *Frame, x *ssa.Slice, g Lit, key func() string) (Value, Lit) {
	base := ex.get(fr, x.X, g)
	u, ok := base.(*Union)
	if !ok {
		panic(unsupported{"slice of " + show(base)})
	}
	idx := func(v ssa.Value) *Int {
		if v == nil {
			return nil
		}
		i, ok := ex.get(fr, v, g).(*Int)
		if !ok || i.alts == nil {
			panic(unsupported{"slice bounds"})
		}
		return i
	}
	lo, hi, mx := idx(x.Low), idx(x.High), idx(x.Max)
	if lo == nil {
		lo = cint(64, 0)
	}
	var val Value
	bad := False
	for _, a := range u.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		for _, l := range lo.alts {
			gl := and(ga, l.g)
			if gl == False {
				continue
			}
			his := []IntAlt{{True, ^uint64(0)}}
			if hi != nil {
				his = hi.alts
			}
			for _, h := range his {
				gh := and(gl, h.g)
				if gh == False {
					continue
				}
				mxs := []IntAlt{{True, ^uint64(0)}}
				if mx != nil {
					mxs = mx.alts
				}
				for _, m := range mxs {
					gm := and(gh, m.g)
					if gm == False {
						continue
					}
					L, H := int(sext(l.c, 64)), int(sext(h.c, 64))
					switch s := a.a.(type) {
					case StrA, *SymStr:
						bs, _ := strBytes(s)
						if hi == nil {
							H = len(bs)
						}
						if L < 0 || H < L || H > len(bs) {
							bad = or(bad, gm)
							continue
						}
						if sa, ok := s.(StrA); ok {
							val = mux(gm, cstr(sa.s[L:H]), val)
						} else {
							val = mux(gm, mkStr(bs[L:H]), val)
						}
					case SliceA:
						if hi == nil {
							H = s.len
						}
						c := s.cap
						if mx != nil {
							c = int(sext(m.c, 64))
						}
						if L < 0 || H < L || H > c || c > s.cap {
							bad = or(bad, gm)
							continue
						}
						if s.nilS {
							val = mux(gm, one(s), val)
							continue
						}
						val = mux(gm, one(SliceA{o: s.o, path: s.path, off: s.off + L, len: H - L, cap: c - L}), val)
					case PtrA:
						if s.o == nil {
							bad = or(bad, gm)
							continue
						}
						n := len(s.o.cell(s.path).kids)
						if hi == nil {
							H = n
						}
						c := n
						if mx != nil {
							c = int(sext(m.c, 64))
						}
						if L < 0 || H < L || H > c || c > n {
							bad = or(bad, gm)
							continue
						}
						val = mux(gm, one(SliceA{o: s.o, path: s.path, off: L, len: H - L, cap: c - L}), val)
					}
				}
			}
		}
	}
	if bad != False {
		ex.violate("panic", "slice bounds out of range at "+ex.pos(x.Pos()), bad)
		g = and(g, not(bad))
	}
	return val, g
}

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (ex *Exec) typeAssert(fr *Frame, x *ssa.TypeAssert, g Lit) (Value, Lit) {
	v := ex.get(fr, x.X, g)
	i, ok := v.(*Iface)
	if !ok {
		panic(unsupported{"type assertion on " + show(v)})
	}
	match := False
	nomatch := 0
	var val Value
	it, isI := x.AssertedType.Underlying().(*types.Interface)
	ct := canon(x.AssertedType)
	var oi Iface
	for _, a := range i.alts {
		if and(g, a.g) == False {
			continue
		}
		if a.t == nil {
			nomatch++
			continue
		}
		if isI {
			if ex.implements(a.t, it) {
				match = or(match, a.g)
				oi.alts = append(oi.alts, a)
			} else {
				nomatch++
			}
			continue
		}
		if a.t == ct {
			match = or(match, a.g)
			val = a.v
		} else {
			nomatch++
		}
	}
	if isI && len(oi.alts) > 0 {
		if len(oi.alts) == 1 {
			oi.alts[0].g = True
		}
		val = &oi
	}
	if match != False && nomatch == 0 {
		match = True
	}
	if x.CommaOk {
		z := zero(x.AssertedType)
		if val == nil {
			val = z
		} else {
			val = mux(match, val, z)
		}
		return &Agg{[]Value{val, match}}, g
	}
	if match != True {
		ex.violate("panic", "failed type assertion at "+ex.pos(x.Pos()), and(g, not(match)))
		g = and(g, match)
	}
	return val, g
}

// ---------------------------------------------------------------- maps

func (ex *Exec) mapObjs(m Value, g Lit) []Alt {
	u, ok := m.(*Union)
	if !ok {
		panic(unsupported{"map " + show(m)})
	}
	var out []Alt
	for _, a := range u.alts {
		if and(g, a.g) != False {
			out = append(out, a)
		}
	}
	return out
}

func (ex *Exec) mapLookup(g Lit, m, k Value, et types.Type) (Value, Lit) {
	var val Value = zero(et)
	pres := False
	for _, a := range ex.mapObjs(m, g) {
		o := a.a.(PtrA).o
		if o == nil {
			continue
		}
		for _, e := range o.ents {
			p, _ := e.present.read(g).(Lit)
			hit := and(and(a.g, p), eqVal(e.key, k))
			if hit == False || and(g, hit) == False {
				continue
			}
			if entails(g, hit) {
				hit = True
			}
			val = mux(hit, e.val.read(and(g, hit)), val)
			pres = or(pres, hit)
		}
	}
	return val, pres
}

func (ex *Exec) mapUpdate(g Lit, m, k, v Value, pos string) Lit {
	for _, a := range ex.mapObjs(m, g) {
		o := a.a.(PtrA).o
		ga := and(g, a.g)
		if o == nil {
			ex.violate("panic", "assignment to entry in nil map at "+pos, ga)
			g = and(g, not(a.g))
			continue
		}
		ex.mapSet(o, ga, k, v)
	}
	return g
}

func keyStr(k Value) (string, bool) {
	switch x := k.(type) {
	case *Int:
		if c, ok := x.konst(); ok {
			return fmt.Sprint("i", c), true
		}
	case *Union:
		if len(x.alts) == 1 {
			switch s := x.alts[0].a.(type) {
			case StrA:
				return "s" + s.s, true
			}
		}
	}
	return "", false
}

func (ex *Exec) mapSet(o *Obj, ga Lit, k, v Value) {
	// one entry per alternative of the key, so that entries have constant keys when possible
	switch x := k.(type) {
	case *Int:
		if x.alts != nil && len(x.alts) > 1 {
			for _, a := range x.alts {
				ex.mapSet(o, and(ga, a.g), cint(x.w, int64(a.c)), v)
			}
			return
		}
	case *Union:
		if len(x.alts) > 1 {
			for _, a := range x.alts {
				ex.mapSet(o, and(ga, a.g), one(a.a), v)
			}
			return
		}
	}
	if ga == False {
		return
	}
	done := False
	s, isC := keyStr(k)
	for _, e := range o.ents {
		if isC && e.hasStr && e.kstr != s {
			continue
		}
		eq := eqVal(e.key, k)
		if eq == False {
			continue
		}
		p, _ := e.present.read(ga).(Lit)
		var hit Lit
		if isC && e.hasStr {
			hit = True // the entry of this very key: reuse it, present or not
		} else {
			hit = and(p, eq)
		}
		h := and(and(ga, hit), not(done))
		e.val.write(h, v)
		e.present.write(h, True)
		done = or(done, hit)
		if done == True {
			return
		}
	}
	rest := and(ga, not(done))
	if rest == False {
		return
	}
	e := &MapEnt{key: k, kstr: s, hasStr: isC}
	e.present.write(True, False)
	e.present.write(rest, True)
	e.val.write(rest, v)
	o.ents = append(o.ents, e)
}

func (ex *Exec) mapDelete(g Lit, m, k Value) {
	for _, a := range ex.mapObjs(m, g) {
		o := a.a.(PtrA).o
		if o == nil {
			continue
		}
		for _, e := range o.ents {
			eq := eqVal(e.key, k)
			if eq != False {
				e.present.write(and(and(g, a.g), eq), False)
			}
		}
	}
}

func (ex *Exec) mapLen(g Lit, m Value) Value {
	var tot Value = cint(64, 0)
	for _, a := range ex.mapObjs(m, g) {
		o := a.a.(PtrA).o
		if o == nil {
			continue
		}
		for _, e := range o.ents {
			p, _ := e.present.read(g).(Lit)
			inc, _ := intBin("+", tot.(*Int), cint(64, 1), false)
			tot = mux(and(a.g, p), inc, tot)
		}
	}
	return tot
}

// ranges: iteration in insertion order over the entries present when reached.
func (ex *Exec) rangeInit(key string, m Value, t types.Type, g Lit) Value {
	o, isNew := ex.obj(key, "iter", nil)
	if isNew {
		o.root = &Cell{obj: o, id: o.id, agg: true, kids: []*Cell{{obj: o}, {obj: o}}}
	}
	o.root.kids[0].ch.write(g, m)
	o.root.kids[1].ch.write(g, cint(64, 0))
	return ptrTo(o)
}

func (ex *Exec) rangeNext(fr *Frame, x *ssa.Next, g Lit, key string) Value {
	it := ex.get(fr, x.Iter, g).(*Union)
	tt := x.Type().(*types.Tuple)
	var res Value
	for _, a := range it.alts {
		ga := and(g, a.g)
		if ga == False {
			continue
		}
		o := a.a.(PtrA).o
		m := o.root.kids[0].ch.read(ga)
		pos := o.root.kids[1].ch.read(ga).(*Int)
		if x.IsString {
			panic(unsupported{"range over a string"})
		}
		var kz, vz Value
		kz, vz = zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())
		var val Value = &Agg{[]Value{False, kz, vz}}
		found := False
		maxE := 0
		for _, ma := range ex.mapObjs(m, ga) {
			mo := ma.a.(PtrA).o
			if mo != nil && len(mo.ents) > maxE {
				maxE = len(mo.ents)
			}
		}
		var npos Value = cint(64, int64(maxE))
		for i := 0; i < maxE; i++ {
			for _, ma := range ex.mapObjs(m, ga) {
				mo := ma.a.(PtrA).o
				if mo == nil || i >= len(mo.ents) {
					continue
				}
				le, _ := intBin("<=", pos, cint(64, int64(i)), false)
				p, _ := mo.ents[i].present.read(ga).(Lit)
				hit := and(and(and(ma.g, p), le.(Lit)), not(found))
				if and(ga, hit) == False {
					continue
				}
				e := mo.ents[i]
				val = mux(hit, &Agg{[]Value{True, e.key, e.val.read(and(ga, hit))}}, val)
				npos = mux(hit, cint(64, int64(i+1)), npos)
				found = or(found, hit)
			}
		}
		o.root.kids[1].ch.write(ga, npos)
		res = mux(a.g, val, res)
	}
	return res
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// readMap is the map that an instruction reads.
func readMap(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.Lookup:
		if isMap(x.X.Type()) {
			return x.X
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString && isMap(r.X.Type()) {
			return r.X
		}
	}
	return nil
}
