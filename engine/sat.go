package main

// A small incremental CDCL solver over the and-inverter graph. It is used to
// prune control points that cannot be reached; the verdicts are given by the
// external solvers.

import "sort"

type sLit int32 // 2*var+sign

type clause struct {
	lits   []sLit
	act    float32
	learnt bool
	del    bool
}

type watch struct {
	c *clause
	b sLit
}

type Sat struct {
	vars    map[int32]int32 // aig node -> var
	assigns []int8          // by var: 0 undef, 1 true, -1 false
	level   []int32
	reason  []*clause
	phase   []bool
	act     []float64
	inc     float64
	watches [][]watch
	trail   []sLit
	lim     []int
	qhead   int
	learnts []*clause
	seen    []bool
	heap    []int32
	hpos    []int32
	unsat   bool
	units   []sLit
	cone    []int32
	coneGen int32
	nodeOf  []int32 // var -> aig node
	nSolve  int
	nConfl  int
	nProp   int
	cinc    float32
}

func newSat() *Sat {
	s := &Sat{vars: map[int32]int32{}, inc: 1, cinc: 1}
	v := s.newVar()
	s.vars[0] = v
	s.addClause([]sLit{sLit(v * 2)})
	return s
}

func (s *Sat) setNode(v, n int32) {
	for len(s.nodeOf) <= int(v) {
		s.nodeOf = append(s.nodeOf, 0)
	}
	s.nodeOf[v] = n
}

func (s *Sat) newVar() int32 {
	v := int32(len(s.assigns))
	s.assigns = append(s.assigns, 0)
	s.level = append(s.level, 0)
	s.reason = append(s.reason, nil)
	s.phase = append(s.phase, false)
	s.act = append(s.act, 0)
	s.seen = append(s.seen, false)
	s.watches = append(s.watches, nil, nil)
	s.hpos = append(s.hpos, -1)
	s.hInsert(v)
	return v
}

func (s *Sat) value(l sLit) int8 {
	a := s.assigns[l>>1]
	if l&1 == 1 {
		return -a
	}
	return a
}

// ---- heap
func (s *Sat) hLess(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *Sat) hUp(i int) {
	v := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.hLess(v, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = v
	s.hpos[v] = int32(i)
}
func (s *Sat) hDown(i int) {
	v := s.heap[i]
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			break
		}
		if c+1 < len(s.heap) && s.hLess(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.hLess(s.heap[c], v) {
			break
		}
		s.heap[i] = s.heap[c]
		s.hpos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = v
	s.hpos[v] = int32(i)
}
func (s *Sat) hInsert(v int32) {
	if s.hpos[v] >= 0 {
		return
	}
	s.heap = append(s.heap, v)
	s.hpos[v] = int32(len(s.heap) - 1)
	s.hUp(len(s.heap) - 1)
}
func (s *Sat) hPop() int32 {
	v := s.heap[0]
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.hpos[v] = -1
	if len(s.heap) > 0 {
		s.heap[0] = last
		s.hpos[last] = 0
		s.hDown(0)
	}
	return v
}

// markCone marks the variables the literals depend on. Deciding those is
// enough: every other variable is defined by the graph.
func (s *Sat) markCone(as []sLit) {
	s.coneGen++
	for len(s.cone) < len(s.assigns) {
		s.cone = append(s.cone, 0)
	}
	for len(s.nodeOf) < len(s.assigns) {
		s.nodeOf = append(s.nodeOf, 0)
	}
	var st []int32
	for _, l := range as {
		st = append(st, int32(l>>1))
	}
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		if s.cone[v] == s.coneGen {
			continue
		}
		s.cone[v] = s.coneGen
		nd := &G.nodes[s.nodeOf[v]]
		if nd.a >= 0 {
			st = append(st, s.vars[nd.a.node()], s.vars[nd.b.node()])
		}
	}
}

// ---- encoding
func (s *Sat) lit(l Lit) sLit {
	n := l.node()
	v, ok := s.vars[n]
	if !ok {
		s.encode(n)
		v = s.vars[n]
	}
	r := sLit(v * 2)
	if l.neg() {
		r ^= 1
	}
	return r
}

func (s *Sat) encode(root int32) {
	stack := []int32{root}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		if _, ok := s.vars[n]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		nd := &G.nodes[n]
		if nd.a < 0 {
			s.vars[n] = s.newVar()
			s.setNode(s.vars[n], n)
			stack = stack[:len(stack)-1]
			continue
		}
		va, oka := s.vars[nd.a.node()]
		vb, okb := s.vars[nd.b.node()]
		if !oka {
			stack = append(stack, nd.a.node())
		}
		if !okb {
			stack = append(stack, nd.b.node())
		}
		if !oka || !okb {
			continue
		}
		stack = stack[:len(stack)-1]
		v := s.newVar()
		s.vars[n] = v
		s.setNode(v, n)
		o := sLit(v * 2)
		a, b := sLit(va*2), sLit(vb*2)
		if nd.a.neg() {
			a ^= 1
		}
		if nd.b.neg() {
			b ^= 1
		}
		s.addClause([]sLit{o ^ 1, a})
		s.addClause([]sLit{o ^ 1, b})
		s.addClause([]sLit{o, a ^ 1, b ^ 1})
	}
}

func (s *Sat) addClause(c []sLit) {
	// at level 0
	if len(s.lim) > 0 {
		s.cancel(0)
	}
	out := c[:0:0]
	for _, l := range c {
		switch s.value(l) {
		case 1:
			return
		case -1:
			continue
		}
		out = append(out, l)
	}
	switch len(out) {
	case 0:
		s.unsat = true
	case 1:
		s.enqueue(out[0], nil)
		if s.propagate() != nil {
			s.unsat = true
		}
	default:
		s.attach(&clause{lits: out})
	}
}

func (s *Sat) attach(c *clause) {
	s.watches[c.lits[0]^1] = append(s.watches[c.lits[0]^1], watch{c, c.lits[1]})
	s.watches[c.lits[1]^1] = append(s.watches[c.lits[1]^1], watch{c, c.lits[0]})
}

func (s *Sat) enqueue(l sLit, r *clause) {
	v := l >> 1
	if l&1 == 0 {
		s.assigns[v] = 1
	} else {
		s.assigns[v] = -1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

func (s *Sat) propagate() *clause {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.nProp++
		s.qhead++
		ws := s.watches[p]
		j := 0
	next:
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if w.c.del {
				continue
			}
			if s.value(w.b) == 1 {
				ws[j] = w
				j++
				continue
			}
			c := w.c
			if c.lits[0] == p^1 {
				c.lits[0], c.lits[1] = c.lits[1], c.lits[0]
			}
			f := c.lits[0]
			if f != w.b && s.value(f) == 1 {
				ws[j] = watch{c, f}
				j++
				continue
			}
			for k := 2; k < len(c.lits); k++ {
				if s.value(c.lits[k]) != -1 {
					c.lits[1], c.lits[k] = c.lits[k], c.lits[1]
					s.watches[c.lits[1]^1] = append(s.watches[c.lits[1]^1], watch{c, f})
					continue next
				}
			}
			ws[j] = watch{c, f}
			j++
			if s.value(f) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				s.qhead = len(s.trail)
				return c
			}
			s.enqueue(f, c)
		}
		s.watches[p] = ws[:j]
	}
	return nil
}

func (s *Sat) cancel(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := int32(s.trail[i] >> 1)
		s.phase[v] = s.assigns[v] == 1
		s.assigns[v] = 0
		s.reason[v] = nil
		s.hInsert(v)
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.qhead = len(s.trail)
}

func (s *Sat) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.hUp(int(s.hpos[v]))
	}
}

func (s *Sat) analyze(c *clause) ([]sLit, int) {
	out := []sLit{0}
	n := 0
	idx := len(s.trail) - 1
	var p sLit = -1
	var clear []int32
	for {
		if c.learnt {
			c.act += s.cinc
		}
		for _, q := range c.lits {
			if q == p {
				continue
			}
			v := int32(q >> 1)
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				clear = append(clear, v)
				s.bump(v)
				if int(s.level[v]) == len(s.lim) {
					n++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		c = s.reason[p>>1]
		s.seen[p>>1] = false
		n--
		if n == 0 {
			break
		}
	}
	out[0] = p ^ 1
	// local minimisation
	k := 1
	for _, q := range out[1:] {
		r := s.reason[q>>1]
		keep := r == nil
		if r != nil {
			for _, x := range r.lits {
				if x>>1 != q>>1 && !s.seen[x>>1] && s.level[x>>1] > 0 {
					keep = true
					break
				}
			}
		}
		if keep {
			out[k] = q
			k++
		}
	}
	out = out[:k]
	for _, v := range clear {
		s.seen[v] = false
	}
	bt := 0
	if len(out) > 1 {
		m := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i]>>1] > s.level[out[m]>>1] {
				m = i
			}
		}
		out[1], out[m] = out[m], out[1]
		bt = int(s.level[out[1]>>1])
	}
	return out, bt
}

func (s *Sat) reduce() {
	sort.Slice(s.learnts, func(i, j int) bool { return s.learnts[i].act < s.learnts[j].act })
	n := len(s.learnts) / 2
	var keep []*clause
	for i, c := range s.learnts {
		locked := s.value(c.lits[0]) == 1 && s.reason[c.lits[0]>>1] == c
		if i < n && len(c.lits) > 2 && !locked {
			c.del = true
			continue
		}
		keep = append(keep, c)
	}
	s.learnts = keep
}

func luby(i int) int {
	k := 1
	for (1<<uint(k))-1 < i+1 {
		k++
	}
	for (1<<uint(k))-1 != i+1 {
		i = i - (1 << uint(k-1)) + 1
		k = 1
		for (1<<uint(k))-1 < i+1 {
			k++
		}
	}
	return 1 << uint(k-1)
}

// unit asserts a literal for good.
func (s *Sat) unit(l Lit) sLit {
	if l == False {
		s.unsat = true
	}
	x := s.lit(l)
	s.cancel(0)
	s.addClause([]sLit{x})
	return x
}

// solve returns 1 (satisfiable), -1 (unsatisfiable) or 0 (gave up).
func (s *Sat) solve(ls []Lit, maxConfl int) int {
	s.nSolve++
	if s.unsat {
		return -1
	}
	s.cancel(0)
	as := make([]sLit, 0, len(ls))
	for _, l := range ls {
		if l == False {
			return -1
		}
		if l == True {
			continue
		}
		// assume the conjuncts separately: better propagation
		if !l.neg() && G.isAnd(l) {
			for _, c := range G.conjOf(l) {
				as = append(as, s.lit(c))
			}
			continue
		}
		as = append(as, s.lit(l))
	}
	if s.unsat {
		return -1
	}
	s.markCone(append(append([]sLit{}, as...), s.units...))
	var skipped []int32
	defer func() {
		for _, v := range skipped {
			s.hInsert(v)
		}
	}()
	confl := 0
	rst := 0
	budget := 100 * luby(rst)
	for {
		c := s.propagate()
		if c != nil {
			if len(s.lim) == 0 {
				s.unsat = true
				return -1
			}
			if len(s.lim) == 1 {
				s.cancel(0)
				return -1
			}
			confl++
			s.nConfl++
			budget--
			lits, bt := s.analyze(c)
			s.cancel(bt)
			if len(lits) == 1 {
				s.cancel(0)
				if s.value(lits[0]) == -1 {
					s.unsat = true
					return -1
				}
				if s.value(lits[0]) == 0 {
					s.enqueue(lits[0], nil)
				}
			} else {
				nc := &clause{lits: lits, learnt: true, act: s.cinc}
				s.learnts = append(s.learnts, nc)
				s.attach(nc)
				s.enqueue(lits[0], nc)
			}
			s.inc /= 0.95
			s.cinc /= 0.999
			if s.cinc > 1e20 {
				for _, l := range s.learnts {
					l.act *= 1e-20
				}
				s.cinc *= 1e-20
			}
			if maxConfl > 0 && confl > maxConfl {
				s.cancel(0)
				return 0
			}
			continue
		}
		if budget <= 0 {
			rst++
			budget = 100 * luby(rst)
			s.cancel(1)
			continue
		}
		if len(s.learnts) > 4000+len(s.assigns)/4 {
			s.reduce()
		}
		var next sLit = -1
		if len(s.lim) == 0 {
			// all assumptions on one level: a conflict there is final
			s.lim = append(s.lim, len(s.trail))
			for _, p := range as {
				switch s.value(p) {
				case -1:
					s.cancel(0)
					return -1
				case 0:
					s.enqueue(p, nil)
				}
			}
			continue
		}
		if next < 0 {
			for len(s.heap) > 0 {
				v := s.hPop()
				if s.assigns[v] == 0 && s.cone[v] != s.coneGen {
					skipped = append(skipped, v)
					continue
				}
				if s.assigns[v] == 0 {
					next = sLit(v * 2)
					if !s.phase[v] {
						next ^= 1
					}
					break
				}
			}
			if next < 0 {
				return 1
			}
		}
		s.lim = append(s.lim, len(s.trail))
		s.enqueue(next, nil)
	}
}

// model value of an AIG literal after solve returned 1 (unencoded nodes are false).
func (s *Sat) inputVals() []bool {
	out := make([]bool, len(G.inputs))
	for n, v := range s.vars {
		nd := &G.nodes[n]
		if nd.a == -1 {
			out[nd.input] = s.assigns[v] == 1
		}
	}
	return out
}
