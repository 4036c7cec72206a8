package main

// From a satisfying assignment to the schedule and the inputs of a native run.

import (
	"fmt"
	"sort"
)

// Schedule is what a native replay needs: the thread order and the inputs.
// Threads are named by their position in the tree of go statements: the main
// goroutine is "0", the k-th goroutine that thread X starts is "X.k".
type Schedule struct {
	Steps  []SchedStep          `json:"steps"`
	Inputs map[string][]SchedIn `json:"inputs"`
	Params map[string]int       `json:"params"`
	NumCPU int                  `json:"num_cpu"`
	Clock  bool                 `json:"clock"`
	Kind   string               `json:"kind"`
	Msg    string               `json:"msg"`
	Pkg    string               `json:"pkg"`
	Func   string               `json:"func"`
	Ignore []string             `json:"ignore,omitempty"`
}

// SchedStep: thread T performs its next operation, of kind K at position P.
// Kind "park" means that it attempts the operation and blocks. Arg is the
// case of a select, or -1.
type SchedStep struct {
	T   string `json:"t"`
	K   string `json:"k"`
	P   string `json:"p,omitempty"`
	Arg int    `json:"a"`
}
type SchedIn struct {
	Name string      `json:"n"`
	V    interface{} `json:"v"`
}

func (ex *Exec) schedule2(m []bool, w *Violation) *Schedule {
	val := G.eval(m)
	s := &Schedule{Inputs: map[string][]SchedIn{}, Params: ex.cfg.params, NumCPU: ex.cfg.numCPU, Clock: ex.cfg.clockBits > 0}
	evs := ex.events
	if w != nil {
		s.Kind, s.Msg = w.kind, w.msg
		if w.kind != "deadlock" && w.kind != "leak" && w.ev <= len(evs) {
			evs = evs[:w.ev]
		}
	}
	byKey := map[string]*Thread{}
	for _, t := range ex.threads {
		byKey[t.key] = t
	}
	name := map[*Thread]string{ex.threads[0]: "0"}
	kids := map[*Thread]int{}
	last := map[*Thread]int{} // index of the last step of a thread
	for _, e := range evs {
		if !litVal(val, e.g) {
			continue
		}
		tn, ok := name[e.t]
		if !ok {
			tn = "?" + e.t.name
		}
		switch e.kind {
		case "go":
			c := byKey[e.child]
			name[c] = fmt.Sprintf("%s.%d", tn, kids[e.t])
			kids[e.t]++
		case "partner":
			// thread e.t had attempted its operation before the last step
			// of the thread that completes it
			u := ex.threads[e.by]
			i, ok := last[u]
			if !ok {
				continue
			}
			s.Steps = append(s.Steps, SchedStep{})
			copy(s.Steps[i+1:], s.Steps[i:])
			s.Steps[i] = SchedStep{T: tn, K: "park", P: e.pos, Arg: -2}
			for t := range last {
				if last[t] >= i {
					last[t]++
				}
			}
		case "case":
			if i, ok := last[e.t]; ok {
				fmt.Sscan(e.desc, &s.Steps[i].Arg)
			}
		case "plain":
		default:
			last[e.t] = len(s.Steps)
			s.Steps = append(s.Steps, SchedStep{T: tn, K: e.kind, P: e.pos, Arg: -2})
		}
	}
	ins := append([]InputRec{}, ex.inputs...)
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].key < ins[j].key })
	for _, i := range ins {
		if !litVal(val, i.g) {
			continue
		}
		tn, ok := name[i.t]
		if !ok {
			continue
		}
		s.Inputs[tn] = append(s.Inputs[tn], SchedIn{i.name, evalVal(val, i.v)})
	}
	return s
}
