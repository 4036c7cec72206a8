package main

// The deciding solvers: the and-inverter graph of a query is written as
// SMT-LIB 2 for z3 and as CNF for kissat; both run, the first verdict counts,
// and with crossCheck both have to agree.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type Verdict struct {
	Name    string  `json:"name"`
	Result  string  `json:"result"` // sat, unsat, unknown
	Solver  string  `json:"solver"`
	Seconds float64 `json:"seconds"`
	Vars    int     `json:"nodes"`
	Cross   string  `json:"cross,omitempty"`
	model   []bool
}

type Solver struct {
	dir      string
	timeout  time.Duration
	cross    bool
	deadline time.Time
	queries  []Verdict
	total    float64
	n        int
}

func (s *Solver) solve(name string, ls []Lit) Verdict {
	v := s.solve1(name, ls)
	s.queries = append(s.queries, v)
	s.total += v.Seconds
	return v
}

// limit is the time for the next query.
func (s *Solver) limit() time.Duration {
	if s.deadline.IsZero() {
		return s.timeout
	}
	return max(2*time.Second, min(s.timeout, time.Until(s.deadline)))
}

func (s *Solver) solve1(name string, ls []Lit) Verdict {
	var real []Lit
	for _, l := range ls {
		if l == False {
			return Verdict{Name: name, Result: "unsat", Solver: "constant propagation"}
		}
		if l != True {
			real = append(real, l)
		}
	}
	if len(real) == 0 {
		return Verdict{Name: name, Result: "sat", Solver: "constant propagation", model: make([]bool, len(G.inputs))}
	}
	cone := G.cone(real)
	s.n++
	t0 := time.Now()
	base := filepath.Join(s.dir, fmt.Sprintf("q%d", s.n))
	writeCNF(base+".cnf", cone, real)
	writeSMT(base+".smt2", cone, real)
	defer os.Remove(base + ".cnf")
	defer os.Remove(base + ".smt2")
	ctx, cancel := context.WithTimeout(context.Background(), s.limit())
	defer cancel()
	type ans struct {
		who   string
		res   string
		model []bool
	}
	ch := make(chan ans, 2)
	go func() {
		r, m := runKissat(ctx, base+".cnf", cone)
		ch <- ans{"kissat", r, m}
	}()
	go func() {
		r, m := runZ3(ctx, base+".smt2", cone)
		ch <- ans{"z3", r, m}
	}()
	var first ans
	first.res = "unknown"
	cross := ""
	for i := 0; i < 2; i++ {
		a := <-ch
		if a.res == "unknown" {
			continue
		}
		if first.res == "unknown" {
			first = a
			if !s.cross {
				cancel()
				break
			}
			// give the other solver some more time
			go func() {
				d := 5*time.Second + 3*time.Since(t0)
				time.Sleep(d)
				cancel()
			}()
			continue
		}
		if a.res != first.res {
			panic(fmt.Sprintf("solvers disagree on %s: %s says %s, %s says %s", name, first.who, first.res, a.who, a.res))
		}
		cross = "confirmed by " + a.who
	}
	return Verdict{Name: name, Result: first.res, Solver: first.who, Seconds: time.Since(t0).Seconds(), Vars: len(cone), model: first.model, Cross: cross}
}

func writeCNF(file string, cone []int32, ls []Lit) {
	f, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := bufio.NewWriterSize(f, 1<<20)
	defer w.Flush()
	idx := make(map[int32]int, len(cone))
	nc := len(ls)
	for i, n := range cone {
		idx[n] = i + 1
		if G.nodes[n].a >= 0 {
			nc += 3
		}
	}
	lit := func(l Lit) string {
		k := idx[l.node()]
		if l.neg() {
			return "-" + strconv.Itoa(k)
		}
		return strconv.Itoa(k)
	}
	fmt.Fprintf(w, "p cnf %d %d\n", len(cone), nc)
	for _, n := range cone {
		nd := &G.nodes[n]
		if nd.a < 0 {
			continue
		}
		o := strconv.Itoa(idx[n])
		w.WriteString("-" + o + " " + lit(nd.a) + " 0\n")
		w.WriteString("-" + o + " " + lit(nd.b) + " 0\n")
		w.WriteString(o + " " + lit(nd.a.not()) + " " + lit(nd.b.not()) + " 0\n")
	}
	for _, l := range ls {
		w.WriteString(lit(l) + " 0\n")
	}
}

func writeSMT(file string, cone []int32, ls []Lit) {
	f, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := bufio.NewWriterSize(f, 1<<20)
	defer w.Flush()
	lit := func(l Lit) string {
		k := "n" + strconv.Itoa(int(l.node()))
		if l.neg() {
			return "(not " + k + ")"
		}
		return k
	}
	w.WriteString("(set-logic QF_UF)\n")
	var ins []string
	for _, n := range cone {
		nd := &G.nodes[n]
		if nd.a < 0 {
			fmt.Fprintf(w, "(declare-const n%d Bool)\n", n)
			ins = append(ins, fmt.Sprintf("n%d", n))
			continue
		}
		fmt.Fprintf(w, "(define-fun n%d () Bool (and %s %s))\n", n, lit(nd.a), lit(nd.b))
	}
	for _, l := range ls {
		fmt.Fprintf(w, "(assert %s)\n", lit(l))
	}
	w.WriteString("(check-sat)\n")
	if len(ins) > 0 {
		w.WriteString("(get-value (" + strings.Join(ins, " ") + "))\n")
	}
}

func runKissat(ctx context.Context, file string, cone []int32) (string, []bool) {
	cmd := exec.CommandContext(ctx, "kissat", "-q", file)
	out, _ := cmd.Output()
	if ctx.Err() != nil {
		return "unknown", nil
	}
	switch {
	case bytes.Contains(out, []byte("s UNSATISFIABLE")):
		return "unsat", nil
	case bytes.Contains(out, []byte("s SATISFIABLE")):
		m := make([]bool, len(G.inputs))
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			l := sc.Text()
			if !strings.HasPrefix(l, "v ") {
				continue
			}
			for _, x := range strings.Fields(l[2:]) {
				k, _ := strconv.Atoi(x)
				if k > 0 {
					nd := &G.nodes[cone[k-1]]
					if nd.a == -1 {
						m[nd.input] = true
					}
				}
			}
		}
		return "sat", m
	}
	return "unknown", nil
}

var z3Path = func() string {
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}()

func runZ3(ctx context.Context, file string, cone []int32) (string, []bool) {
	cmd := exec.CommandContext(ctx, z3Path, "-memory:6000", file)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = io.Discard
	cmd.Run()
	if ctx.Err() != nil {
		return "unknown", nil
	}
	out := buf.String()
	if strings.HasPrefix(out, "unsat") {
		return "unsat", nil
	}
	if !strings.HasPrefix(out, "sat") || strings.Contains(out, "(error") {
		return "unknown", nil
	}
	m := make([]bool, len(G.inputs))
	fs := strings.FieldsFunc(out[3:], func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(fs); i += 2 {
		if fs[i+1] == "true" {
			n, _ := strconv.Atoi(fs[i][1:])
			nd := &G.nodes[n]
			if nd.a == -1 {
				m[nd.input] = true
			}
		}
	}
	return "sat", m
}
