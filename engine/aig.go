package main

// And-inverter graph: every boolean of the encoding is a literal of this graph
// (even = node, odd = negated node). Node 0 is the constant true.

import (
	"sort"
)

type Lit int32

const (
	True  Lit = 0
	False Lit = 1
)

func (l Lit) not() Lit { return l ^ 1 }
func not(l Lit) Lit    { return l ^ 1 }
func (l Lit) node() int32 {
	return int32(l >> 1)
}
func (l Lit) neg() bool { return l&1 == 1 }

type aigNode struct {
	a, b  Lit // children; a==-1: input
	input int32
	conj  []Lit // cached conjunct set (sorted), only for And nodes
}

type AIG struct {
	nodes  []aigNode
	hash   map[uint64]Lit
	inputs []string // input names
}

func newAIG() *AIG {
	g := &AIG{hash: map[uint64]Lit{}}
	g.nodes = append(g.nodes, aigNode{a: -2})
	return g
}

var G = newAIG()

func (g *AIG) input(name string) Lit {
	n := int32(len(g.nodes))
	g.nodes = append(g.nodes, aigNode{a: -1, input: int32(len(g.inputs))})
	g.inputs = append(g.inputs, name)
	return Lit(n << 1)
}

func (g *AIG) isAnd(l Lit) bool { return g.nodes[l.node()].a >= 0 }

const conjLimit = 20

// conjuncts of l seen as a conjunction (sorted, no complementary pairs).
func (g *AIG) conjOf(l Lit) []Lit {
	if l == True {
		return nil
	}
	if l.neg() || !g.isAnd(l) {
		return []Lit{l}
	}
	n := &g.nodes[l.node()]
	if n.conj != nil {
		return n.conj
	}
	a, b := g.conjOf(n.a), g.conjOf(n.b)
	if len(a)+len(b) > conjLimit {
		n.conj = []Lit{n.a, n.b}
		if n.a > n.b {
			n.conj = []Lit{n.b, n.a}
		}
		return n.conj
	}
	out := make([]Lit, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	g.nodes[l.node()].conj = out
	return out
}

func containsLit(s []Lit, l Lit) bool {
	lo, hi := 0, len(s)
	for lo < hi {
		m := (lo + hi) / 2
		if s[m] < l {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(s) && s[lo] == l
}

func and(a, b Lit) Lit {
	if a == False || b == False || a == b.not() {
		return False
	}
	if a == True || a == b {
		return b
	}
	if b == True {
		return a
	}
	g := G
	ca, cb := g.conjOf(a), g.conjOf(b)
	// contradiction / subsumption over the conjunct sets
	if len(ca) < len(cb) {
		a, b = b, a
		ca, cb = cb, ca
	}
	all := true
	for _, l := range cb {
		if containsLit(ca, l.not()) {
			return False
		}
		if !containsLit(ca, l) {
			all = false
		}
	}
	if all {
		return a
	}
	// b single negated conjunction: simplify against a: a & !(x&y) with x in a -> a & !y ; with !x in a -> a
	if len(cb) == 1 && b.neg() && g.isAnd(b) {
		nb := g.conjOf(b.not())
		var rest []Lit
		ch := false
		for _, l := range nb {
			if containsLit(ca, l) {
				ch = true
				continue
			}
			if containsLit(ca, l.not()) {
				return a
			}
			rest = append(rest, l)
		}
		if ch {
			return and(a, andAll(rest).not())
		}
	}
	if len(ca) == 1 && a.neg() && g.isAnd(a) && len(cb) >= 1 {
		na := g.conjOf(a.not())
		var rest []Lit
		ch := false
		for _, l := range na {
			if containsLit(cb, l) {
				ch = true
				continue
			}
			if containsLit(cb, l.not()) {
				return b
			}
			rest = append(rest, l)
		}
		if ch {
			return and(b, andAll(rest).not())
		}
	}
	return rawAnd(a, b)
}

func rawAnd(a, b Lit) Lit {
	g := G
	if a > b {
		a, b = b, a
	}
	k := uint64(uint32(a))<<32 | uint64(uint32(b))
	if l, ok := g.hash[k]; ok {
		return l
	}
	n := int32(len(g.nodes))
	g.nodes = append(g.nodes, aigNode{a: a, b: b})
	l := Lit(n << 1)
	g.hash[k] = l
	return l
}

func andAll(ls []Lit) Lit {
	r := True
	for _, l := range ls {
		r = and(r, l)
	}
	return r
}

func orAll(ls []Lit) Lit {
	r := False
	for _, l := range ls {
		r = or(r, l)
	}
	return r
}

func or(a, b Lit) Lit {
	if a == True || b == True || a == b.not() {
		return True
	}
	if a == False || a == b {
		return b
	}
	if b == False {
		return a
	}
	g := G
	// factor common conjuncts
	if !a.neg() && !b.neg() && (g.isAnd(a) || g.isAnd(b)) {
		ca, cb := g.conjOf(a), g.conjOf(b)
		var common, ra, rb []Lit
		i, j := 0, 0
		for i < len(ca) || j < len(cb) {
			switch {
			case j >= len(cb) || (i < len(ca) && ca[i] < cb[j]):
				ra = append(ra, ca[i])
				i++
			case i >= len(ca) || ca[i] > cb[j]:
				rb = append(rb, cb[j])
				j++
			default:
				common = append(common, ca[i])
				i++
				j++
			}
		}
		if len(common) > 0 {
			return and(andAll(common), or(andAll(ra), andAll(rb)))
		}
	}
	return and(a.not(), b.not()).not()
}

func implies(a, b Lit) Lit { return or(a.not(), b) }
func xor(a, b Lit) Lit {
	if a == False {
		return b
	}
	if b == False {
		return a
	}
	if a == True {
		return b.not()
	}
	if b == True {
		return a.not()
	}
	if a == b {
		return False
	}
	if a == b.not() {
		return True
	}
	return or(and(a, b.not()), and(a.not(), b))
}
func iff(a, b Lit) Lit { return xor(a, b).not() }
func ite(c, a, b Lit) Lit {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True {
		return or(c, b)
	}
	if a == False {
		return and(c.not(), b)
	}
	if b == True {
		return or(c.not(), a)
	}
	if b == False {
		return and(c, a)
	}
	return or(and(c, a), and(c.not(), b))
}

// entails reports whether g syntactically implies l.
func entails(g, l Lit) bool {
	if l == True || g == False || g == l {
		return true
	}
	cg := G.conjOf(g)
	for _, x := range G.conjOf(l) {
		if !containsLit(cg, x) {
			return false
		}
	}
	return true
}

// contradicts reports whether g syntactically excludes l.
func contradicts(g, l Lit) bool {
	return and(g, l) == False
}

// eval evaluates all nodes under an input assignment.
func (g *AIG) eval(in []bool) []bool {
	out := make([]bool, len(g.nodes))
	out[0] = true
	for i := 1; i < len(g.nodes); i++ {
		n := &g.nodes[i]
		if n.a == -1 {
			if int(n.input) < len(in) {
				out[i] = in[n.input]
			}
			continue
		}
		out[i] = litVal(out, n.a) && litVal(out, n.b)
	}
	return out
}

func litVal(v []bool, l Lit) bool { return v[l.node()] != l.neg() }

// cone returns the nodes below the given literals in topological order.
func (g *AIG) cone(ls []Lit) []int32 {
	seen := make(map[int32]bool)
	var out []int32
	var stack []int32
	for _, l := range ls {
		stack = append(stack, l.node())
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[n] || n == 0 {
			continue
		}
		seen[n] = true
		out = append(out, n)
		if g.nodes[n].a >= 0 {
			stack = append(stack, g.nodes[n].a.node(), g.nodes[n].b.node())
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
