package main

// One run: explore a harness up to the fixpoint of the shared-object analysis,
// then put the queries.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type RunSpec struct {
	Name     string         `json:"name"`
	Pkg      string         `json:"pkg"`
	Func     string         `json:"func"`
	Tier     string         `json:"tier"` // "", "quick", "thorough"
	Rounds   int            `json:"rounds"`
	Unwind   int            `json:"unwind"`
	UnwindFn map[string]int `json:"unwind_fn"`
	Depth    int            `json:"depth"`
	MaxChan  int            `json:"max_chan"`
	MaxSlice int            `json:"max_slice"`
	Params   map[string]int `json:"params"`
	Clock    int            `json:"clock_bits"`
	NumCPU   int            `json:"num_cpu"`
	Races    bool           `json:"races"`
	RaceAll  bool           `json:"race_all"`
	Order    string         `json:"order"`
	NoPrune  bool           `json:"no_prune"`
	Timeout  int            `json:"timeout"`
	NoDead   bool           `json:"no_deadlock"`
	Covers   []string       `json:"covers"`
	Kinds    []string       `json:"kinds"` // violation kinds that count (default all)
	Thorough *RunSpec       `json:"thorough"`
	What     string         `json:"what"`

	Hold       int      `json:"hold"`        // turns that a preemption lasts (with switches), default 1
	Switches   *int     `json:"switches"`    // bound on preemptions; absent: any thread may stop at any visible operation
	LeakIgnore []string `json:"leak_ignore"` // go statements whose goroutines may stay
}

func (s *RunSpec) config(p *Program, verbose bool) (*Config, error) {
	c := &Config{rounds: s.Rounds, unwind: s.Unwind, unwindFn: s.UnwindFn, depth: s.Depth, maxChan: s.MaxChan, maxSlice: s.MaxSlice,
		params: s.Params, clockBits: s.Clock, numCPU: s.NumCPU, races: s.Races || s.RaceAll, raceAll: s.RaceAll, order: s.Order, prune: !s.NoPrune, pruneLoops: !s.NoPrune,
		pruneConfl: 400, verbose: verbose}
	if s.Params["traced"] != 0 {
		// the source of the span package is executed instead of its model
		for n := range intrinsics {
			if strings.HasPrefix(n, spanPkg+".") || strings.HasPrefix(n, "("+spanPkg+".") {
				delete(intrinsics, n)
			}
		}
	}
	c.switches = -1
	c.hold = s.Hold
	if c.hold < 1 {
		c.hold = 1
	}
	if s.Switches != nil {
		c.switches = *s.Switches
	}
	if c.rounds == 0 {
		c.rounds = 3
	}
	if c.unwind == 0 {
		c.unwind = 4
	}
	if c.depth == 0 {
		c.depth = 40
	}
	if c.maxChan == 0 {
		c.maxChan = 8
	}
	if c.maxSlice == 0 {
		c.maxSlice = 16
	}
	if c.numCPU == 0 {
		c.numCPU = 2
	}
	c.entry = p.fn(modPath+"/"+s.Pkg, s.Func)
	if c.entry == nil {
		return nil, fmt.Errorf("no harness %s.%s", s.Pkg, s.Func)
	}
	pk := p.pkgs[modPath+"/"+s.Pkg]
	p.inits = nil
	if in := pk.Func("init"); in != nil {
		p.inits = append(p.inits, in)
	}
	return c, nil
}

// newShared finds objects on which threads may interact.
func (ex *Exec) newShared() []string {
	var out []string
	for id, m := range ex.accessed {
		type ak struct {
			k accKey
			a *Access
		}
		var as []ak
		for k, a := range m {
			as = append(as, ak{k, a})
		}
		conflict := func(plain bool) bool {
			for i := range as {
				for j := i + 1; j < len(as); j++ {
					x, y := as[i], as[j]
					if x.k.t == y.k.t || (!x.k.write && !y.k.write) {
						continue
					}
					if plain != (!x.k.sync) || plain != (!y.k.sync) {
						continue
					}
					if ex.spawnOrdered(x.k.t, x.a.maxKey, y.k.t) || ex.spawnOrdered(y.k.t, y.a.maxKey, x.k.t) {
						continue
					}
					return true
				}
			}
			return false
		}
		if !ex.shared[id] && conflict(false) {
			out = append(out, id)
		}
		if !ex.shared["plain "+id] && conflict(true) {
			out = append(out, "plain "+id)
		}
	}
	sort.Strings(out)
	return out
}

// spawnOrdered: every access of thread a (up to maxKey) precedes the start of b.
func (ex *Exec) spawnOrdered(a int, maxKey string, b int) bool {
	t := ex.threads[b]
	for t != nil && t.parent != nil {
		if t.parent.id == a {
			return maxKey < t.spawnKey
		}
		t = t.parent
	}
	return false
}

type Result struct {
	Spec       RunSpec           `json:"spec"`
	Rounds     int               `json:"rounds"`
	Threads    int               `json:"threads"`
	Points     int               `json:"points"`
	Visible    int               `json:"visible"`
	Instr      int               `json:"instr"`
	Nodes      int               `json:"nodes"`
	Inputs     int               `json:"inputs"`
	Funcs      []string          `json:"funcs"`
	Shared     int               `json:"shared"`
	Fix        int               `json:"fix"`
	EncodeS    float64           `json:"encode_s"`
	SolveS     float64           `json:"solve_s"`
	Queries    []Verdict         `json:"queries"`
	Incomplete []string          `json:"incomplete"`
	Unwound    []string          `json:"unwound"`
	Covers     map[string]string `json:"covers"`
	Asserts    []string          `json:"asserts"`
	Done       string            `json:"done"`
	Viols      []*FoundViolation `json:"viols"`
	CoverSched *Schedule         `json:"cover_sched"`
	Known      []string          `json:"known"`
	Hangs      []*FoundViolation `json:"hangs"`
	Error      string            `json:"error,omitempty"`
	TimedOut   bool              `json:"timed_out"`
}

type FoundViolation struct {
	Kind  string    `json:"kind"`
	Msg   string    `json:"msg"`
	Sched *Schedule `json:"sched"`
	Trace []string  `json:"trace"`
}

func (ex *Exec) explore(deadline time.Time) (fix int, timedOut bool) {
	for fix = 1; fix <= 8; fix++ {
		ex.deadline = deadline
		if ex.Run() {
			return fix, true
		}
		ns := ex.newShared()
		if ex.cfg.verbose {
			fmt.Fprintf(os.Stderr, "pass %d: %d threads, %d points, %d visible, %d nodes, %d new shared\n", fix, len(ex.threads), ex.nPoints, ex.nVis, len(G.nodes), len(ns))
		}
		if len(ns) == 0 {
			return fix, false
		}
		for _, s := range ns {
			ex.shared[s] = true
		}
	}
	return fix, false
}

// stuck: no thread can move (environment threads included when env is set).
func (ex *Exec) stuck(assume Lit) Lit {
	ex.cur = nil
	blocked := True
	for _, t := range ex.threads {
		for _, k := range sortedKeys(t.front) {
			p := t.front[k]
			if p.g == False {
				continue
			}
			if p.op == nil {
				blocked = and(blocked, not(p.g))
				continue
			}
			en := p.op.enabled(p.g)
			blocked = and(blocked, not(and(p.g, en)))
			if blocked == False {
				return False
			}
		}
	}
	return blocked
}

func (ex *Exec) anyCut() Lit {
	r := False
	for _, m := range []map[string]Lit{ex.incompl, ex.unwound} {
		for _, k := range sortedKeys(m) {
			r = or(r, m[k])
		}
	}
	for _, v := range ex.viols {
		r = or(r, v.g)
	}
	return r
}

func (ex *Exec) endState(noDead bool, ignore []string) {
	main := ex.threads[0]
	ex.protect(True, func() {
		st := ex.stuck(True)
		cut := not(ex.anyCut())
		if !noDead {
			d := and(and(st, not(main.done)), cut)
			// where does main stand?
			byPos := map[string]Lit{}
			for _, k := range sortedKeys(main.front) {
				p := main.front[k]
				if p.op != nil {
					byPos[p.op.kind+" at "+p.op.loc] = or(orF(byPos, p.op.kind+" at "+p.op.loc), p.g)
				}
			}
			for _, k := range sortedKeys(byPos) {
				ex.violate("deadlock", "deadlock: the harness is blocked forever in "+k, and(d, byPos[k]))
			}
		}
		if ex.leakG != False {
			for _, t := range ex.threads[1:] {
				skip := t.model
				for _, x := range ignore {
					skip = skip || strings.Contains(t.name, x)
				}
				if skip {
					continue
				}
				for _, k := range sortedKeys(t.front) {
					p := t.front[k]
					if p.op == nil {
						continue
					}
					ex.violate("leak", "goroutine left behind, blocked in "+p.op.kind+" at "+p.op.loc, and(and(and(st, ex.leakG), main.done), and(p.g, cut)))
				}
			}
		}
	})
}

func runOne(p *Program, spec *RunSpec, sv *Solver, known []Known, budget time.Duration, verbose bool, maxViols int) *Result {
	res := &Result{Spec: *spec, Covers: map[string]string{}}
	cfg, err := spec.config(p, verbose)
	if err != nil {
		res.Error = err.Error()
		return res
	}
	t0 := time.Now()
	sv.deadline = t0.Add(budget)
	ex := newExec(p, cfg)
	want := cfg.rounds
	for {
		res.Fix, res.TimedOut = ex.explore(t0.Add(budget * 6 / 10))
		if !res.TimedOut || cfg.rounds <= 1 {
			break
		}
		// too much for the time: fewer rounds
		cfg.rounds--
		t0x := time.Now()
		_ = t0x
		if time.Since(t0) > budget {
			break
		}
		budgetLeft := budget - time.Since(t0)
		res.Fix, res.TimedOut = ex.explore(time.Now().Add(budgetLeft * 6 / 10))
		if !res.TimedOut {
			break
		}
		cfg.rounds = 1
		res.Fix, res.TimedOut = ex.explore(time.Now().Add(20 * time.Second))
		break
	}
	res.Rounds = cfg.rounds
	if cfg.rounds < want {
		res.Incomplete = append(res.Incomplete, fmt.Sprintf("rounds reduced from %d to %d by the time limit", want, cfg.rounds))
	}
	ex.endState(spec.NoDead, spec.LeakIgnore)
	res.EncodeS = time.Since(t0).Seconds()
	if os.Getenv("ZZSTAT") != "" {
		fmt.Fprintf(os.Stderr, "ZZSTAT points %d sim hits %d solves unsat/giveup/sat %v conflicts %d props %d vars %d learnts %d %v %v %v\n", ex.nPoints, ex.sim.hits, ex.satStat, ex.sat.nConfl, ex.sat.nProp, len(ex.sat.assigns), len(ex.sat.learnts), ex.satTime, ex.satC, ex.satP)
	}
	res.Threads = len(ex.threads)
	res.Points = ex.nPoints
	res.Visible = ex.nVis
	res.Instr = ex.nInstr
	res.Nodes = len(G.nodes)
	res.Inputs = len(G.inputs)
	res.Shared = len(ex.shared)
	for f := range ex.funcs {
		if !strings.Contains(f, "zzverif") {
			res.Funcs = append(res.Funcs, f)
		}
	}
	sort.Strings(res.Funcs)

	as := ex.assumes
	// witness: the harness runs to its end
	v := sv.solve("reachable: the harness completes", append([]Lit{ex.threads[0].done, not(ex.anyCut())}, as...))
	res.Done = v.Result
	if v.Result == "sat" {
		res.CoverSched = ex.schedule2(v.model, nil)
		if verbose {
			for _, l := range ex.trace(v.model) {
				fmt.Fprintln(os.Stderr, "   ", l)
			}
		}
	}
	for _, c := range sortedKeys(ex.covers) {
		res.Covers[c] = sv.solve("reachable: "+c, append([]Lit{ex.covers[c]}, as...)).Result
	}
	for _, c := range spec.Covers {
		if _, ok := res.Covers[c]; !ok {
			res.Covers[c] = "unsat"
		}
	}
	msgs := map[string]bool{}
	var cands []*Violation
	for _, w := range ex.viols {
		if len(spec.Kinds) > 0 {
			ok := false
			for _, k := range spec.Kinds {
				ok = ok || k == w.kind
			}
			if !ok {
				continue
			}
		}
		msgs[w.kind+": "+w.msg] = true
		isKnown := false
		for _, k := range known {
			if k.matches(w.kind, w.msg) {
				isKnown = true
				if sv.solve("known finding: "+k.Text, append([]Lit{w.g}, as...)).Result == "sat" {
					res.Known = append(res.Known, k.Kind+": "+k.Match)
				}
			}
		}
		if isKnown {
			continue
		}
		cands = append(cands, w)
	}
	res.Asserts = sortedStr(msgs)
	found := map[string]bool{}
	for len(res.Viols) < maxViols {
		var gs []Lit
		for _, w := range cands {
			if !found[w.kind+": "+w.msg] {
				gs = append(gs, w.g)
			}
		}
		if len(gs) == 0 {
			break
		}
		v := sv.solve(fmt.Sprintf("violation of any of %d assertions", len(gs)), append([]Lit{orAll(gs)}, as...))
		if v.Result != "sat" {
			if v.Result == "unknown" {
				res.Incomplete = append(res.Incomplete, "the violation query was not decided in time")
			}
			break
		}
		val := G.eval(v.model)
		for _, w := range cands {
			if !found[w.kind+": "+w.msg] && litVal(val, w.g) {
				found[w.kind+": "+w.msg] = true
				fv := &FoundViolation{Kind: w.kind, Msg: w.msg, Sched: ex.schedule2(v.model, w), Trace: ex.trace(v.model)}
				res.Viols = append(res.Viols, fv)
				if verbose {
					fmt.Fprintf(os.Stderr, "VIOLATED %s: %s\n", w.kind, w.msg)
					for _, l := range fv.Trace {
						fmt.Fprintln(os.Stderr, "   ", l)
					}
				}
				break
			}
		}
	}
	for _, x := range []struct {
		n string
		m map[string]Lit
		o *[]string
	}{{"unwound", ex.unwound, &res.Unwound}, {"incomplete", ex.incompl, &res.Incomplete}} {
		var all []Lit
		for _, k := range sortedKeys(x.m) {
			all = append(all, x.m[k])
		}
		if len(all) == 0 {
			continue
		}
		if len(all) > 1 && sv.solve(x.n+": any", append([]Lit{orAll(all)}, as...)).Result == "unsat" {
			continue
		}
		for _, k := range sortedKeys(x.m) {
			v := sv.solve(x.n+": "+k, append([]Lit{x.m[k]}, as...))
			if v.Result != "unsat" {
				*x.o = append(*x.o, k)
			}
			// a loop that goes on for ever? the native replay tells
			if x.n == "unwound" && v.Result == "sat" && strings.HasPrefix(k, "loop in ") && !strings.Contains(k, "zzverif") && len(res.Hangs) < 3 {
				w := &Violation{kind: "hang", msg: "does not end: " + k, g: x.m[k], ev: len(ex.events)}
				res.Hangs = append(res.Hangs, &FoundViolation{Kind: "hang", Msg: w.msg, Sched: ex.schedule2(v.model, w), Trace: ex.trace(v.model)})
			}
		}
	}
	res.Queries = sv.queries
	res.SolveS = sv.total
	return res
}

// trace lists the steps of a model.
func (ex *Exec) trace(m []bool) []string {
	val := G.eval(m)
	var out []string
	for _, e := range ex.events {
		if !litVal(val, e.g) {
			continue
		}
		v := ""
		if !e.vis {
			v = " ."
		}
		out = append(out, fmt.Sprintf("r%d t%d(%s) %s %s %s%s", e.round, e.t.id, e.t.name, e.kind, e.desc, e.pos, v))
	}
	for _, i := range ex.inputs {
		if litVal(val, i.g) {
			out = append(out, fmt.Sprintf("input t%d %s = %v", i.t.id, i.name, evalVal(val, i.v)))
		}
	}
	return out
}

func evalVal(val []bool, v Value) interface{} {
	switch x := v.(type) {
	case Lit:
		return litVal(val, x)
	case *Int:
		if x.alts != nil {
			for _, a := range x.alts {
				if litVal(val, a.g) {
					return sext(a.c, x.w)
				}
			}
			return int64(0)
		}
		var c uint64
		for i, b := range x.bits {
			if litVal(val, b) {
				c |= 1 << uint(i)
			}
		}
		return sext(c, x.w)
	case *Union:
		for _, a := range x.alts {
			if litVal(val, a.g) {
				if bs, ok := strBytes(a.a); ok {
					s := ""
					for _, b := range bs {
						c, _ := evalVal(val, b).(int64)
						s += string(rune(byte(c)))
					}
					return s
				}
				return showAtom(a.a)
			}
		}
	}
	return nil
}
