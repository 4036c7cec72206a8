package main

// Known models, simulated over the whole graph: a guard that is true in one
// of them needs no call of the solver to be found satisfiable.

const simW = 4

type simRow [simW]uint64

type Sim struct {
	rows []simRow // by node: its value in each of the 64*simW columns
	ok   simRow   // columns in which every assumption holds
	nAs  int
	rnd  uint64
	next int
	hits int
}

func newSim() *Sim { return &Sim{rnd: 0x9e3779b97f4a7c15} }

func (s *Sim) rand() uint64 {
	s.rnd ^= s.rnd << 13
	s.rnd ^= s.rnd >> 7
	s.rnd ^= s.rnd << 17
	return s.rnd
}

func (s *Sim) lit(l Lit) simRow {
	r := s.rows[l.node()]
	if l.neg() {
		for i := range r {
			r[i] = ^r[i]
		}
	}
	return r
}

// extend evaluates the nodes that are new.
func (s *Sim) extend() {
	for n := len(s.rows); n < len(G.nodes); n++ {
		nd := &G.nodes[n]
		var r simRow
		switch {
		case n == 0:
			for i := range r {
				r[i] = ^uint64(0)
			}
		case nd.a < 0:
			for i := range r {
				r[i] = s.rand()
			}
		default:
			a, b := s.rows[nd.a.node()], s.rows[nd.b.node()]
			ma, mb := -uint64(nd.a&1), -uint64(nd.b&1)
			for i := range r {
				r[i] = (a[i] ^ ma) & (b[i] ^ mb)
			}
		}
		s.rows = append(s.rows, r)
	}
}

// sat tells whether g holds, with the assumptions, in a known model.
func (s *Sim) sat(g Lit, assumes []Lit) bool {
	s.extend()
	if s.nAs == 0 {
		for i := range s.ok {
			s.ok[i] = ^uint64(0)
		}
	}
	for ; s.nAs < len(assumes); s.nAs++ {
		r := s.lit(assumes[s.nAs])
		for i := range r {
			s.ok[i] &= r[i]
		}
	}
	r := s.lit(g)
	for i := range r {
		if r[i]&s.ok[i] != 0 {
			s.hits++
			return true
		}
	}
	return false
}

// add puts the model of the solver into a column.
func (s *Sim) add(sat *Sat, assumes []Lit) {
	s.extend()
	c := s.next
	s.next = (s.next + 1) % (64 * simW)
	for k := 0; k < 64*simW; k++ { // a useless column first
		if s.ok[k>>6]>>(k&63)&1 == 0 {
			c = k
			break
		}
	}
	w, b := c>>6, uint(c&63)
	for n := range s.rows {
		nd := &G.nodes[n]
		var v uint64
		switch {
		case n == 0:
			continue
		case nd.a < 0:
			x, ok := sat.vars[int32(n)]
			if !ok || sat.assigns[x] == 0 {
				continue
			}
			if sat.assigns[x] == 1 {
				v = 1
			}
		default:
			v = (s.rows[nd.a.node()][w]>>b ^ uint64(nd.a&1)) & (s.rows[nd.b.node()][w]>>b ^ uint64(nd.b&1)) & 1
		}
		s.rows[n][w] = s.rows[n][w]&^(1<<b) | v<<b
	}
	s.ok[w] |= 1 << b
	for _, a := range assumes {
		if (s.rows[a.node()][w]>>b^uint64(a&1))&1 == 0 {
			s.ok[w] &^= 1 << b
		}
	}
}
