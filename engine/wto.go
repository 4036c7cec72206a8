package main

import (
	"golang.org/x/tools/go/ssa"
)

// Weak topological order (Bourdoncle) of a function's blocks.

type blockPos struct {
	path  []uint16          // position at each nesting level
	heads []*ssa.BasicBlock // heads of the enclosing components, outermost first
}

type wtoElem struct {
	b    *ssa.BasicBlock
	comp []*wtoElem // non-nil: component with head b (comp excludes the head)
	isC  bool
}

type wtoInfo struct{ pos map[*ssa.BasicBlock]*blockPos }

var wtoCache = map[*ssa.Function]*wtoInfo{}

func wtoOf(fn *ssa.Function) *wtoInfo {
	if w, ok := wtoCache[fn]; ok {
		return w
	}
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	const inf = 1 << 30
	var stack []*ssa.BasicBlock
	var visit func(v *ssa.BasicBlock, part *[]*wtoElem) int
	component := func(v *ssa.BasicBlock) *wtoElem {
		var part []*wtoElem
		for _, s := range v.Succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return &wtoElem{b: v, comp: rev(part), isC: true}
	}
	visit = func(v *ssa.BasicBlock, part *[]*wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var min int
			if dfn[s] == 0 {
				min = visit(s, part)
			} else {
				min = dfn[s]
			}
			if min <= head {
				head = min
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, &wtoElem{b: v})
			}
		}
		return head
	}
	var top []*wtoElem
	visit(fn.Blocks[0], &top)
	top = rev(top)
	w := &wtoInfo{pos: map[*ssa.BasicBlock]*blockPos{}}
	var number func(l []*wtoElem, base int, path []uint16, heads []*ssa.BasicBlock)
	number = func(l []*wtoElem, base int, path []uint16, heads []*ssa.BasicBlock) {
		for i, e := range l {
			p := append(append([]uint16{}, path...), uint16(base+i))
			if !e.isC {
				w.pos[e.b] = &blockPos{path: p, heads: heads}
				continue
			}
			h := append(append([]*ssa.BasicBlock{}, heads...), e.b)
			w.pos[e.b] = &blockPos{path: append(append([]uint16{}, p...), 0), heads: h}
			number(e.comp, 1, p, h)
		}
	}
	number(top, 0, nil, nil)
	wtoCache[fn] = w
	return w
}

// rev: the partition is built by appending, while the algorithm prepends.
func rev(l []*wtoElem) []*wtoElem {
	out := make([]*wtoElem, len(l))
	for i := range l {
		out[len(l)-1-i] = l[i]
	}
	return out
}

func u16(n int) string { return string([]byte{byte(n >> 8), byte(n)}) }

func neg(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = ^b[i]
	}
	return string(b)
}

func blockKey(p *blockPos, iters []uint16) string {
	b := make([]byte, 0, 4*len(p.path))
	for i, x := range p.path {
		b = append(b, byte(x>>8), byte(x))
		if i < len(iters) {
			b = append(b, byte(iters[i]>>8), byte(iters[i]))
		}
	}
	return string(b)
}

// edge computes the iteration vector of the target.
func edgeIters(w *wtoInfo, from, to *ssa.BasicBlock, iters []uint16) (out []uint16, back bool) {
	a, b := w.pos[from], w.pos[to]
	out = make([]uint16, len(b.heads))
	common := 0
	for common < len(a.heads) && common < len(b.heads) && a.heads[common] == b.heads[common] {
		out[common] = iters[common]
		common++
	}
	if n := len(b.heads); n > 0 && b.heads[n-1] == to && common == n {
		out[n-1]++
		back = true
	}
	return
}
