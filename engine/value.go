package main

// Symbolic values.
//
//   Lit        booleans
//   *Int       fixed width integers: guarded constants, or bits
//   *Union     pointers, channels, maps, functions, slices, strings: guarded atoms
//   *Iface     interface values: guarded (dynamic type, value)
//   *Agg       structs, arrays, tuples
//   Opaque     an unknown value (floats, unmodelled results)
//   nil        undefined (never read on a feasible path)

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value interface{}

type IntAlt struct {
	g Lit
	c uint64
}
type Int struct {
	w    int
	alts []IntAlt // nil if bits are used
	bits []Lit
}

type Atom interface{}

type Alt struct {
	g Lit
	a Atom
}
type Union struct{ alts []Alt }

type IfAlt struct {
	g Lit
	t types.Type // canonical; nil for the nil interface
	v Value
}
type Iface struct{ alts []IfAlt }

type Agg struct{ f []Value }

type Opaque struct{ why string }

// atoms
type PtrA struct {
	o    *Obj
	path string
}
type FnA struct {
	fn  *ssa.Function
	o   *Obj // closure bindings
	blt string
}
type SliceA struct {
	o             *Obj
	path          string
	off, len, cap int
	nilS          bool
}
type StrA struct{ s string }
type SymStr struct{ b []*Int } // used as pointer atom
type PcA struct{ name string } // program counter of a function

const maxAlts = 40
const maxProd = 600

var typeHash typeutil.Map

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if x := typeHash.At(t); x != nil {
		return x.(types.Type)
	}
	typeHash.Set(t, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func cint(w int, c int64) *Int {
	return &Int{w: w, alts: []IntAlt{{True, uint64(c) & mask(w)}}}
}
func cbool(b bool) Lit {
	if b {
		return True
	}
	return False
}
func cstr(s string) *Union { return &Union{[]Alt{{True, StrA{s}}}} }
func one(a Atom) *Union    { return &Union{[]Alt{{True, a}}} }
func ptrTo(o *Obj) *Union  { return one(PtrA{o, ""}) }
func nilIface() *Iface     { return &Iface{[]IfAlt{{True, nil, nil}}} }
func mkIface(t types.Type, v Value) *Iface {
	return &Iface{[]IfAlt{{True, canon(t), v}}}
}

func (x *Int) konst() (uint64, bool) {
	if len(x.alts) == 1 {
		return x.alts[0].c, true
	}
	if x.alts == nil {
		var c uint64
		for i, b := range x.bits {
			switch b {
			case True:
				c |= 1 << uint(i)
			case False:
			default:
				return 0, false
			}
		}
		return c, true
	}
	return 0, false
}

func (x *Int) toBits() []Lit {
	if x.alts == nil {
		return x.bits
	}
	out := make([]Lit, x.w)
	for i := range out {
		all1, all0 := true, true
		var ls []Lit
		for _, a := range x.alts {
			if a.c>>uint(i)&1 == 1 {
				all0 = false
				ls = append(ls, a.g)
			} else {
				all1 = false
			}
		}
		switch {
		case all0:
			out[i] = False
		case all1:
			out[i] = True
		default:
			out[i] = orAll(ls)
		}
	}
	return out
}

func bitsInt(w int, b []Lit) *Int {
	x := &Int{w: w, bits: b}
	if c, ok := x.konst(); ok {
		return cint(w, int64(c))
	}
	return x
}

func sext(c uint64, w int) int64 {
	if w < 64 && c>>(uint(w)-1)&1 == 1 {
		return int64(c | ^mask(w))
	}
	return int64(c)
}

func mux(g Lit, a, b Value) Value {
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case Lit:
		y, ok := b.(Lit)
		if !ok {
			return Opaque{"mux"}
		}
		return ite(g, x, y)
	case *Int:
		y, ok := b.(*Int)
		if !ok {
			return Opaque{"mux"}
		}
		if x == y {
			return a
		}
		if x.w != y.w {
			panic(fmt.Sprintf("mux widths %d %d", x.w, y.w))
		}
		if x.alts != nil && y.alts != nil && len(x.alts)+len(y.alts) <= maxAlts {
			if len(x.alts) == 1 && len(y.alts) == 1 && x.alts[0].c == y.alts[0].c {
				return cint(x.w, int64(x.alts[0].c))
			}
			m := map[uint64]int{}
			var out []IntAlt
			add := func(g Lit, c uint64) {
				if g == False {
					return
				}
				if i, ok := m[c]; ok {
					out[i].g = or(out[i].g, g)
					return
				}
				m[c] = len(out)
				out = append(out, IntAlt{g, c})
			}
			for _, q := range x.alts {
				add(and(g, q.g), q.c)
			}
			for _, q := range y.alts {
				add(and(not(g), q.g), q.c)
			}
			if len(out) == 1 {
				out[0].g = True
			}
			return &Int{w: x.w, alts: out}
		}
		xb, yb := x.toBits(), y.toBits()
		out := make([]Lit, x.w)
		for i := range out {
			out[i] = ite(g, xb[i], yb[i])
		}
		return bitsInt(x.w, out)
	case *Union:
		y, ok := b.(*Union)
		if !ok {
			return Opaque{"mux"}
		}
		if x == y {
			return a
		}
		m := map[Atom]int{}
		var out []Alt
		add := func(g Lit, a Atom) {
			if g == False {
				return
			}
			if i, ok := m[a]; ok {
				out[i].g = or(out[i].g, g)
				return
			}
			m[a] = len(out)
			out = append(out, Alt{g, a})
		}
		for _, q := range x.alts {
			add(and(g, q.g), q.a)
		}
		for _, q := range y.alts {
			add(and(not(g), q.g), q.a)
		}
		if len(out) == 1 {
			out[0].g = True
		}
		return &Union{out}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return Opaque{"mux"}
		}
		if x == y {
			return a
		}
		var out []IfAlt
		for _, q := range x.alts {
			if z := and(g, q.g); z != False {
				out = append(out, IfAlt{z, q.t, q.v})
			}
		}
	next:
		for _, q := range y.alts {
			z := and(not(g), q.g)
			if z == False {
				continue
			}
			for i := range out {
				if out[i].t == q.t {
					out[i].v = mux(out[i].g, out[i].v, q.v)
					out[i].g = or(out[i].g, z)
					continue next
				}
			}
			out = append(out, IfAlt{z, q.t, q.v})
		}
		if len(out) == 1 {
			out[0].g = True
		}
		return &Iface{out}
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return Opaque{"mux"}
		}
		if x == y {
			return a
		}
		out := make([]Value, len(x.f))
		for i := range out {
			out[i] = mux(g, x.f[i], y.f[i])
		}
		return &Agg{out}
	case Opaque:
		return x
	case *MapIter:
		return x
	}
	panic(fmt.Sprintf("mux of %T", a))
}

// restrict drops the alternatives that the path guard excludes.
func restrict(h Lit, v Value) Value {
	if h == True {
		return v
	}
	switch x := v.(type) {
	case Lit:
		if x == True || x == False {
			return v
		}
		if and(h, x) == False {
			return False
		}
		if and(h, not(x)) == False {
			return True
		}
	case *Int:
		if x.alts != nil && len(x.alts) > 1 {
			var out []IntAlt
			for _, a := range x.alts {
				if and(h, a.g) != False {
					out = append(out, a)
				}
			}
			if len(out) == len(x.alts) {
				return v
			}
			if len(out) == 1 {
				out[0].g = True
			}
			if len(out) == 0 {
				return v
			}
			return &Int{w: x.w, alts: out}
		}
	case *Union:
		if len(x.alts) > 1 {
			var out []Alt
			for _, a := range x.alts {
				if and(h, a.g) != False {
					out = append(out, a)
				}
			}
			if len(out) == len(x.alts) {
				return v
			}
			if len(out) == 1 {
				out[0].g = True
			}
			if len(out) == 0 {
				return v
			}
			return &Union{out}
		}
	case *Iface:
		if len(x.alts) > 1 {
			var out []IfAlt
			for _, a := range x.alts {
				if and(h, a.g) != False {
					out = append(out, a)
				}
			}
			if len(out) == len(x.alts) {
				return v
			}
			if len(out) == 1 {
				out[0].g = True
			}
			if len(out) == 0 {
				return v
			}
			return &Iface{out}
		}
	}
	return v
}

// Chain is a guarded variable: newest entry last.
type Ent struct {
	g Lit
	v Value
}
type Chain struct{ ents []Ent }

func (c *Chain) write(g Lit, v Value) {
	if g == False {
		return
	}
	if g == True {
		c.ents = append(c.ents[:0:0], Ent{True, v})
		return
	}
	n := len(c.ents)
	if n > 0 && c.ents[n-1].g == g {
		c.ents[n-1].v = v
		return
	}
	if n > 24 {
		k := n / 2
		old := &Chain{c.ents[:k]}
		ne := []Ent{{True, old.read(True)}}
		c.ents = append(ne, c.ents[k:]...)
	}
	// drop shadowed entries among the last few
	out := c.ents
	for len(out) > 1 && entails(out[len(out)-1].g, g) {
		out = out[:len(out)-1]
	}
	c.ents = append(out[:len(out):len(out)], Ent{g, v})
}

func (c *Chain) read(h Lit) Value {
	var col []Ent
	var val Value
	rest := h
	for i := len(c.ents) - 1; i >= 0; i-- {
		e := c.ents[i]
		if e.g == True || entails(rest, e.g) {
			val = e.v
			break
		}
		if and(rest, e.g) == False {
			continue
		}
		col = append(col, e)
		rest = and(rest, not(e.g))
		if rest == False {
			// nothing left: last collected is the base
			break
		}
	}
	for i := len(col) - 1; i >= 0; i-- {
		val = mux(col[i].g, col[i].v, val)
	}
	return restrict(h, val)
}

// ---------------------------------------------------------------- objects

type Cell struct {
	kids []*Cell // aggregate
	ch   Chain   // leaf
	agg  bool
	typ  types.Type
	// access log, for sharing and race analysis
	acc map[accKey]*Access
	obj *Obj
	id  string
}

type Obj struct {
	id    string
	kind  string // var, chan, map, clo
	typ   types.Type
	root  *Cell
	n     int // chan capacity
	ents  []*MapEnt
	owner int
	lib   bool // allocated by library code
	extra Value
}

type MapEnt struct {
	key     Value
	present Chain
	val     Chain
	kstr    string
	hasStr  bool
}

type MapIter struct {
	id string
	m  Value
	// snapshot of objects
	o   *Obj
	pos Chain
	str string
	isS bool
}

func newCell(t types.Type, o *Obj, id string) *Cell {
	c := &Cell{typ: t, obj: o, id: id}
	if isReflectValue(t) {
		return c
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.agg = true
		for i := 0; i < u.NumFields(); i++ {
			c.kids = append(c.kids, newCell(u.Field(i).Type(), o, id+"."+u.Field(i).Name()))
		}
	case *types.Array:
		c.agg = true
		for i := int64(0); i < u.Len(); i++ {
			c.kids = append(c.kids, newCell(u.Elem(), o, fmt.Sprintf("%s[%d]", id, i)))
		}
	}
	return c
}

func (c *Cell) write(g Lit, v Value) {
	if c.agg {
		a, ok := v.(*Agg)
		if !ok {
			for _, k := range c.kids {
				k.write(g, v) // opaque or undefined
			}
			return
		}
		for i, k := range c.kids {
			k.write(g, a.f[i])
		}
		return
	}
	c.ch.write(g, v)
}

func (c *Cell) read(h Lit) Value {
	if c.agg {
		out := make([]Value, len(c.kids))
		for i, k := range c.kids {
			out[i] = k.read(h)
		}
		return &Agg{out}
	}
	v := c.ch.read(h)
	return v
}

func (o *Obj) cell(path string) *Cell {
	c := o.root
	for _, r := range path {
		c = c.kids[int(r)]
	}
	return c
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.UntypedRune:
		return 32
	}
	return 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func zero(t types.Type) Value {
	if isReflectValue(t) {
		return nilIface()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return cstr("")
		case u.Info()&types.IsInteger != 0:
			return cint(intWidth(t), 0)
		case u.Kind() == types.UnsafePointer:
			return one(PtrA{})
		case u.Kind() == types.UntypedNil:
			return one(PtrA{})
		default:
			return Opaque{"float"}
		}
	case *types.Pointer, *types.Chan, *types.Map:
		return one(PtrA{})
	case *types.Signature:
		return one(FnA{})
	case *types.Slice:
		return one(SliceA{nilS: true})
	case *types.Interface:
		return nilIface()
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		a := &Agg{}
		for i := 0; i < u.Len(); i++ {
			a.f = append(a.f, zero(u.At(i).Type()))
		}
		return a
	}
	return Opaque{"zero " + t.String()}
}

// ---------------------------------------------------------------- integer operations

func addBits(a, b []Lit, cin Lit) []Lit {
	out := make([]Lit, len(a))
	c := cin
	for i := range a {
		x := xor(a[i], b[i])
		out[i] = xor(x, c)
		c = or(and(a[i], b[i]), and(c, x))
	}
	return out
}
func notBits(a []Lit) []Lit {
	out := make([]Lit, len(a))
	for i := range a {
		out[i] = not(a[i])
	}
	return out
}
func ultBits(a, b []Lit) Lit {
	lt := False
	for i := range a { // from LSB
		lt = ite(xor(a[i], b[i]), b[i], lt)
	}
	return lt
}
func sltBits(a, b []Lit) Lit {
	n := len(a)
	aa := append([]Lit{}, a...)
	bb := append([]Lit{}, b...)
	aa[n-1], bb[n-1] = not(aa[n-1]), not(bb[n-1])
	return ultBits(aa, bb)
}
func eqBits(a, b []Lit) Lit {
	r := True
	for i := range a {
		r = and(r, iff(a[i], b[i]))
	}
	return r
}
func mulBits(a, b []Lit) []Lit {
	n := len(a)
	acc := make([]Lit, n)
	for i := range acc {
		acc[i] = False
	}
	for i := 0; i < n; i++ {
		if b[i] == False {
			continue
		}
		sh := make([]Lit, n)
		for j := range sh {
			sh[j] = False
			if j >= i {
				sh[j] = and(a[j-i], b[i])
			}
		}
		acc = addBits(acc, sh, False)
	}
	return acc
}
func udivBits(a, b []Lit) (q, r []Lit) {
	n := len(a)
	q = make([]Lit, n)
	r = make([]Lit, n)
	for i := range r {
		r[i] = False
	}
	for i := n - 1; i >= 0; i-- {
		r = append([]Lit{a[i]}, r[:n-1]...)
		ge := not(ultBits(r, b))
		q[i] = ge
		d := addBits(r, notBits(b), True)
		nr := make([]Lit, n)
		for j := range nr {
			nr[j] = ite(ge, d[j], r[j])
		}
		r = nr
	}
	return
}

func negBits(a []Lit) []Lit {
	z := make([]Lit, len(a))
	for i := range z {
		z[i] = False
	}
	return addBits(z, notBits(a), True)
}
func iteBits(c Lit, a, b []Lit) []Lit {
	out := make([]Lit, len(a))
	for i := range a {
		out[i] = ite(c, a[i], b[i])
	}
	return out
}

// intBin computes a binary operation; ok is false if a division by zero is possible and dz its condition.
func intBin(op string, x, y *Int, uns bool) (res Value, dz Lit) {
	dz = False
	w := x.w
	if x.alts != nil && y.alts != nil && len(x.alts)*len(y.alts) <= maxProd {
		type kr struct {
			g Lit
			v uint64
		}
		var outI []IntAlt
		outB := False
		isB := false
		m := map[uint64]int{}
		ntrue, nfalse := 0, 0
		var bl []Lit
		for _, a := range x.alts {
			for _, b := range y.alts {
				g := and(a.g, b.g)
				if g == False {
					continue
				}
				c, bo, kind, bad := constBin(op, a.c, b.c, w, y.w, uns)
				if bad {
					dz = or(dz, g)
					continue
				}
				if kind == 'b' {
					isB = true
					if bo {
						ntrue++
						bl = append(bl, g)
					} else {
						nfalse++
					}
					continue
				}
				if i, ok := m[c]; ok {
					outI[i].g = or(outI[i].g, g)
				} else {
					m[c] = len(outI)
					outI = append(outI, IntAlt{g, c})
				}
			}
		}
		if isB {
			switch {
			case nfalse == 0:
				return True, dz
			case ntrue == 0:
				return False, dz
			}
			outB = orAll(bl)
			return outB, dz
		}
		if len(outI) == 1 {
			outI[0].g = True
		}
		if len(outI) == 0 {
			return cint(w, 0), dz
		}
		r := &Int{w: w, alts: outI}
		if len(outI) > maxAlts {
			return bitsInt(w, r.toBits()), dz
		}
		return r, dz
	}
	a, b := x.toBits(), y.toBits()
	switch op {
	case "+":
		return bitsInt(w, addBits(a, b, False)), dz
	case "-":
		return bitsInt(w, addBits(a, notBits(b), True)), dz
	case "*":
		return bitsInt(w, mulBits(a, b)), dz
	case "/", "%":
		z := True
		for _, l := range b {
			z = and(z, not(l))
		}
		dz = z
		if uns {
			q, r := udivBits(a, b)
			if op == "/" {
				return bitsInt(w, q), dz
			}
			return bitsInt(w, r), dz
		}
		sa, sb := a[w-1], b[w-1]
		q, r := udivBits(iteBits(sa, negBits(a), a), iteBits(sb, negBits(b), b))
		if op == "/" {
			return bitsInt(w, iteBits(xor(sa, sb), negBits(q), q)), dz
		}
		return bitsInt(w, iteBits(sa, negBits(r), r)), dz
	case "&", "|", "^", "&^":
		out := make([]Lit, w)
		for i := range out {
			switch op {
			case "&":
				out[i] = and(a[i], b[i])
			case "|":
				out[i] = or(a[i], b[i])
			case "^":
				out[i] = xor(a[i], b[i])
			case "&^":
				out[i] = and(a[i], not(b[i]))
			}
		}
		return bitsInt(w, out), dz
	case "<<", ">>":
		cur := a
		var fill Lit = False
		if op == ">>" && !uns {
			fill = a[w-1]
		}
		big := False
		for i := range b {
			if i >= 7 {
				big = or(big, b[i])
				continue
			}
			k := 1 << uint(i)
			sh := make([]Lit, w)
			for j := range sh {
				sh[j] = fill
				if op == "<<" && j-k >= 0 {
					sh[j] = cur[j-k]
				}
				if op == ">>" && j+k < w {
					sh[j] = cur[j+k]
				}
			}
			cur = iteBits(b[i], sh, cur)
		}
		fl := make([]Lit, w)
		for i := range fl {
			fl[i] = fill
		}
		return bitsInt(w, iteBits(big, fl, cur)), dz
	case "==":
		return eqBits(a, b), dz
	case "!=":
		return not(eqBits(a, b)), dz
	case "<":
		if uns {
			return ultBits(a, b), dz
		}
		return sltBits(a, b), dz
	case ">":
		if uns {
			return ultBits(b, a), dz
		}
		return sltBits(b, a), dz
	case "<=":
		if uns {
			return not(ultBits(b, a)), dz
		}
		return not(sltBits(b, a)), dz
	case ">=":
		if uns {
			return not(ultBits(a, b)), dz
		}
		return not(sltBits(a, b)), dz
	}
	panic("intBin " + op)
}

func constBin(op string, a, b uint64, w, wy int, uns bool) (c uint64, bo bool, kind byte, bad bool) {
	m := mask(w)
	sa, sb := sext(a, w), sext(b, wy)
	switch op {
	case "+":
		return (a + b) & m, false, 'i', false
	case "-":
		return (a - b) & m, false, 'i', false
	case "*":
		return (a * b) & m, false, 'i', false
	case "/":
		if b == 0 {
			return 0, false, 'i', true
		}
		if uns {
			return a / b, false, 'i', false
		}
		return uint64(sa/sb) & m, false, 'i', false
	case "%":
		if b == 0 {
			return 0, false, 'i', true
		}
		if uns {
			return a % b, false, 'i', false
		}
		return uint64(sa%sb) & m, false, 'i', false
	case "&":
		return a & b, false, 'i', false
	case "|":
		return a | b, false, 'i', false
	case "^":
		return a ^ b, false, 'i', false
	case "&^":
		return a &^ b, false, 'i', false
	case "<<":
		if b >= 64 {
			return 0, false, 'i', false
		}
		return (a << b) & m, false, 'i', false
	case ">>":
		if uns {
			if b >= 64 {
				return 0, false, 'i', false
			}
			return a >> b, false, 'i', false
		}
		if b >= 64 {
			b = 63
		}
		return uint64(sa>>b) & m, false, 'i', false
	case "==":
		return 0, a == b, 'b', false
	case "!=":
		return 0, a != b, 'b', false
	case "<":
		if uns {
			return 0, a < b, 'b', false
		}
		return 0, sa < sb, 'b', false
	case ">":
		if uns {
			return 0, a > b, 'b', false
		}
		return 0, sa > sb, 'b', false
	case "<=":
		if uns {
			return 0, a <= b, 'b', false
		}
		return 0, sa <= sb, 'b', false
	case ">=":
		if uns {
			return 0, a >= b, 'b', false
		}
		return 0, sa >= sb, 'b', false
	}
	panic("constBin " + op)
}

func intEqConst(x *Int, c uint64) Lit {
	if x.alts != nil {
		var ls []Lit
		all := true
		for _, a := range x.alts {
			if a.c == c {
				ls = append(ls, a.g)
			} else {
				all = false
			}
		}
		if len(ls) == 0 {
			return False
		}
		if all {
			return True
		}
		return orAll(ls)
	}
	return eqBits(x.bits, cint(x.w, int64(c)).toBits())
}

func resize(x *Int, w int, uns bool) *Int {
	if x.w == w {
		return x
	}
	if x.alts != nil {
		var v Value
		out := &Int{w: w}
		m := map[uint64]int{}
		for _, a := range x.alts {
			c := a.c
			if w > x.w && !uns {
				c = uint64(sext(c, x.w))
			}
			c &= mask(w)
			if i, ok := m[c]; ok {
				out.alts[i].g = or(out.alts[i].g, a.g)
			} else {
				m[c] = len(out.alts)
				out.alts = append(out.alts, IntAlt{a.g, c})
			}
		}
		_ = v
		if len(out.alts) == 1 {
			out.alts[0].g = True
		}
		return out
	}
	b := make([]Lit, w)
	for i := range b {
		switch {
		case i < x.w:
			b[i] = x.bits[i]
		case uns:
			b[i] = False
		default:
			b[i] = x.bits[x.w-1]
		}
	}
	return bitsInt(w, b)
}

// ---------------------------------------------------------------- equality

func strBytes(a Atom) ([]*Int, bool) {
	switch s := a.(type) {
	case StrA:
		out := make([]*Int, len(s.s))
		for i := range out {
			out[i] = cint(8, int64(s.s[i]))
		}
		return out, true
	case *SymStr:
		return s.b, true
	}
	return nil, false
}

func atomEq(a, b Atom) Lit {
	if a == b {
		return True
	}
	_, sa := a.(*SymStr)
	_, sb := b.(*SymStr)
	if sa || sb {
		x, ok1 := strBytes(a)
		y, ok2 := strBytes(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return False
		}
		r := True
		for i := range x {
			q, _ := intBin("==", x[i], y[i], true)
			r = and(r, q.(Lit))
		}
		return r
	}
	if x, ok := a.(SliceA); ok {
		y := b.(SliceA)
		return cbool(x.nilS && y.nilS)
	}
	return False
}

func eqVal(a, b Value) Lit {
	switch x := a.(type) {
	case Lit:
		if y, ok := b.(Lit); ok {
			return iff(x, y)
		}
	case *Int:
		if y, ok := b.(*Int); ok {
			r, _ := intBin("==", x, y, true)
			return r.(Lit)
		}
	case *Union:
		if y, ok := b.(*Union); ok {
			r := False
			nt, nf := 0, 0
			for _, p := range x.alts {
				for _, q := range y.alts {
					g := and(p.g, q.g)
					if g == False {
						continue
					}
					e := atomEq(p.a, q.a)
					if e == True {
						nt++
					} else {
						nf++
					}
					r = or(r, and(g, e))
				}
			}
			if nf == 0 && nt > 0 {
				return True
			}
			return r
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			r := False
			nt, nf := 0, 0
			for _, p := range x.alts {
				for _, q := range y.alts {
					g := and(p.g, q.g)
					if g == False {
						continue
					}
					if p.t != q.t {
						nf++
						continue
					}
					e := True
					if p.t != nil {
						e = eqVal(p.v, q.v)
					}
					if e == True {
						nt++
					} else {
						nf++
					}
					r = or(r, and(g, e))
				}
			}
			if nf == 0 && nt > 0 {
				return True
			}
			return r
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.f) == len(y.f) {
			r := True
			for i := range x.f {
				r = and(r, eqVal(x.f[i], y.f[i]))
			}
			return r
		}
	}
	panic(unsupported{fmt.Sprintf("comparison of %s and %s", show(a), show(b))})
}

type unsupported struct{ why string }

// ---------------------------------------------------------------- printing

func show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "undef"
	case Lit:
		switch x {
		case True:
			return "true"
		case False:
			return "false"
		}
		return fmt.Sprintf("l%d", x)
	case *Int:
		if x.alts == nil {
			return fmt.Sprintf("bits%d", x.w)
		}
		var s []string
		for _, a := range x.alts {
			s = append(s, fmt.Sprintf("%d", sext(a.c, x.w)))
		}
		return "{" + strings.Join(s, "|") + "}"
	case *Union:
		var s []string
		for _, a := range x.alts {
			s = append(s, showAtom(a.a))
		}
		return "{" + strings.Join(s, "|") + "}"
	case *Iface:
		var s []string
		for _, a := range x.alts {
			if a.t == nil {
				s = append(s, "nil")
			} else {
				s = append(s, a.t.String()+":"+show(a.v))
			}
		}
		return "I{" + strings.Join(s, "|") + "}"
	case *Agg:
		var s []string
		for _, a := range x.f {
			s = append(s, show(a))
		}
		return "(" + strings.Join(s, ",") + ")"
	case Opaque:
		return "opaque(" + x.why + ")"
	}
	return fmt.Sprintf("%T", v)
}

func showAtom(a Atom) string {
	switch x := a.(type) {
	case PtrA:
		if x.o == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s%v", x.o.id, []rune(x.path))
	case FnA:
		if x.fn == nil {
			return "nilfn" + x.blt
		}
		return x.fn.String()
	case SliceA:
		if x.nilS {
			return "nil[]"
		}
		return fmt.Sprintf("%s[%d:%d:%d]", x.o.id, x.off, x.off+x.len, x.off+x.cap)
	case StrA:
		return fmt.Sprintf("%q", x.s)
	case *SymStr:
		return fmt.Sprintf("sym[%d]", len(x.b))
	case PcA:
		return "pc:" + x.name
	}
	return fmt.Sprintf("%v", a)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// isReflectValue: reflect.Value is represented by the reflected interface.
func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}
