package main

// The check of one property: all its runs, the native replay of what they
// report, the evidence file and the verdict.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Kind     string `json:"kind"`
	Match    string `json:"match"` // substring of the message
	Text     string `json:"text"`
	Commit   string `json:"commit,omitempty"`
}

func readKnown(verif, id string) []Known {
	var all, out []Known
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil || json.Unmarshal(b, &all) != nil {
		return nil
	}
	for _, k := range all {
		if k.Property == id && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func (k Known) matches(kind, msg string) bool {
	return (k.Kind == "" || k.Kind == kind) && k.Match != "" && strings.Contains(msg, k.Match)
}

// forTier merges the thorough overrides into a run.
func (s *RunSpec) forTier(tier string) *RunSpec {
	r := *s
	if r.Tier != "" && r.Tier != tier {
		return nil
	}
	if tier == "thorough" && s.Thorough != nil {
		src, dst := reflect.ValueOf(s.Thorough).Elem(), reflect.ValueOf(&r).Elem()
		for i := 0; i < src.NumField(); i++ {
			n := src.Type().Field(i).Name
			if n == "Params" || n == "UnwindFn" {
				m := map[string]int{}
				for k, v := range dst.Field(i).Interface().(map[string]int) {
					m[k] = v
				}
				for k, v := range src.Field(i).Interface().(map[string]int) {
					m[k] = v
				}
				dst.Field(i).Set(reflect.ValueOf(m))
				continue
			}
			if !src.Field(i).IsZero() {
				dst.Field(i).Set(src.Field(i))
			}
		}
	}
	r.Thorough = nil
	return &r
}

type runOut struct {
	spec *RunSpec
	res  *Result
	err  string
	wall float64
}

func runSub(verif, root string, spec *RunSpec, tier, dir string, known []Known, budget time.Duration) runOut {
	o := runOut{spec: spec}
	t0 := time.Now()
	sf := filepath.Join(dir, spec.Name+".spec.json")
	of := filepath.Join(dir, spec.Name+".out.json")
	kf := filepath.Join(dir, spec.Name+".known.json")
	b, _ := json.Marshal(spec)
	os.WriteFile(sf, b, 0o644)
	b, _ = json.Marshal(known)
	os.WriteFile(kf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), budget+40*time.Second)
	defer cancel()
	self, _ := os.Executable()
	c := exec.CommandContext(ctx, self, "one", "-verif", verif, "-repo", root, "-spec", sf, "-known", kf, "-out", of, "-tier", tier, "-budget", strconv.Itoa(int(budget.Seconds())), "-maxviol", "4")
	c.Env = append(os.Environ(), "GOMEMLIMIT=3500MiB")
	out, err := c.CombinedOutput()
	o.wall = time.Since(t0).Seconds()
	rb, e2 := os.ReadFile(of)
	if e2 == nil {
		o.res = &Result{}
		if json.Unmarshal(rb, o.res) != nil {
			o.res = nil
		}
	}
	if o.res == nil {
		s := strings.TrimSpace(string(out))
		if i := strings.Index(s, "goroutine "); i > 0 {
			s = s[:i]
		}
		if len(s) > 1500 {
			s = s[len(s)-1500:]
		}
		o.err = fmt.Sprintf("the run gave no result (%v): %s", err, s)
	} else if o.res.Error != "" {
		o.err = o.res.Error
	}
	return o
}

// Replayer builds the instrumented harnesses once per package.
type Replayer struct {
	P     *Program
	verif string
	root  string
	dir   string
	mu    sync.Mutex
	bins  map[string]*binEntry
	funcs map[string][]string
}

type binEntry struct {
	once sync.Once
	bin  string
	err  error
}

func (r *Replayer) bin(pkg string, race bool) (string, error) {
	k := fmt.Sprintf("%s race=%v", pkg, race)
	r.mu.Lock()
	e := r.bins[k]
	if e == nil {
		e = &binEntry{}
		r.bins[k] = e
	}
	n := len(r.bins)
	r.mu.Unlock()
	e.once.Do(func() {
		p, err := load(r.verif, r.root, []string{pkg})
		if err != nil {
			e.err = err
			return
		}
		d := filepath.Join(r.dir, fmt.Sprintf("b%d", n))
		os.MkdirAll(d, 0o755)
		e.bin, e.err = buildReplay(p, r.verif, d, pkg, r.funcs[pkg], race)
	})
	return e.bin, e.err
}

type ReplayResult struct {
	Confirmed bool   `json:"confirmed"`
	Exit      int    `json:"exit"`
	What      string `json:"what"`
	Sync      string `json:"sync"`
	Output    string `json:"output"`
	Covers    []string
}

func (r *Replayer) run(s *Schedule, race bool, env ...string) (*ReplayResult, error) {
	bin, err := r.bin(s.Pkg, race)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(r.dir, "sched*.json")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(s)
	f.Write(b)
	f.Close()
	e := append(os.Environ(), "ZZSCHED="+f.Name(), "ZZFUNC="+s.Func, "GORACE=exitcode=66 halt_on_error=1", "GOMAXPROCS=4")
	e = append(e, env...)
	ctx, cancel := context.WithTimeout(context.Background(), 70*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Env = e
	c.Dir = r.dir
	out, _ := c.CombinedOutput()
	rr := &ReplayResult{Exit: -1, Output: string(out)}
	if c.ProcessState != nil {
		rr.Exit = c.ProcessState.ExitCode()
	}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "ZZVIOL") {
			rr.What = strings.TrimPrefix(l, "ZZVIOL ")
		}
		if strings.HasPrefix(l, "ZZSYNC") {
			rr.Sync = strings.TrimPrefix(l, "ZZSYNC ")
		}
		if strings.HasPrefix(l, "ZZCOVER ") {
			rr.Covers = append(rr.Covers, strings.TrimPrefix(l, "ZZCOVER "))
		}
		if (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) && rr.What == "" {
			rr.What = l
		}
		if strings.HasPrefix(l, "WARNING: DATA RACE") {
			rr.What = "data race"
		}
	}
	return rr, nil
}

// confirm replays a counterexample against the real code.
func (r *Replayer) confirm(v *FoundViolation) (*ReplayResult, error) {
	race := v.Kind == "race"
	var last *ReplayResult
	n := 1
	if race {
		n = 6
	} else if v.Kind != "hang" {
		n = 2
	}
	for i := 0; i < n; i++ {
		var env []string
		if race && i >= 3 {
			env = []string{"ZZFREE=1", "ZZJITTER=1"}
		}
		rr, err := r.run(v.Sched, race, env...)
		if err != nil {
			return nil, err
		}
		last = rr
		switch v.Kind {
		case "assert":
			rr.Confirmed = rr.Exit == 10
		case "panic":
			rr.Confirmed = rr.Exit == 2 && (strings.Contains(rr.Output, "panic: ") || strings.Contains(rr.Output, "fatal error: ")) || rr.Exit == 10
		case "deadlock":
			rr.Confirmed = rr.Exit == 11
		case "hang":
			rr.Confirmed = rr.Exit == 30
		case "leak":
			rr.Confirmed = rr.Exit == 12
		case "race":
			rr.Confirmed = rr.Exit == 66 && raceInCode(rr.Output)
		}
		if rr.Confirmed {
			return rr, nil
		}
	}
	return last, nil
}

// raceInCode: the racing accesses are made by code other than the replay's.
func raceInCode(out string) bool {
	ls := strings.Split(out, "\n")
	n, good := 0, 0
	for i, l := range ls {
		l = strings.TrimSpace(l)
		if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read") || strings.HasPrefix(l, "Previous write") || strings.HasPrefix(l, "Atomic") || strings.HasPrefix(l, "Previous atomic")) && i+2 < len(ls) {
			n++
			if !strings.Contains(ls[i+1], "zzverif/rt.") {
				good++
			}
		}
	}
	return n >= 2 && good == n
}

func budgets(tier string) (total, def time.Duration) {
	if tier == "thorough" {
		return 800 * time.Second, 640 * time.Second
	}
	return 620 * time.Second, 420 * time.Second
}

func checkMain(verif, root, id, tier string, only string) int {
	t0 := time.Now()
	spec, err := readSpec(verif, id)
	if err != nil {
		fmt.Println("cannot read the spec:", err)
		return 0
	}
	total, def := budgets(tier)
	deadline := t0.Add(total)
	known := readKnown(verif, id)
	dir, err := os.MkdirTemp("", "vchk")
	if err != nil {
		fmt.Println(err)
		return 0
	}
	defer os.RemoveAll(dir)
	var runs []*RunSpec
	for _, s := range spec.Runs {
		if r := s.forTier(tier); r != nil && (only == "" || only == r.Name) {
			runs = append(runs, r)
		}
	}
	rp := &Replayer{verif: verif, root: root, dir: dir, bins: map[string]*binEntry{}, funcs: map[string][]string{}}
	for _, r := range runs {
		has := false
		for _, f := range rp.funcs[r.Pkg] {
			has = has || f == r.Func
		}
		if !has {
			rp.funcs[r.Pkg] = append(rp.funcs[r.Pkg], r.Func)
		}
	}
	outs := make([]runOut, len(runs))
	sem := make(chan struct{}, max(2, min(6, runtime.NumCPU()-2)))
	var wg sync.WaitGroup
	for i, r := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			b := def
			if r.Timeout > 0 {
				b = time.Duration(r.Timeout) * time.Second
			}
			if left := time.Until(deadline) - 30*time.Second; left < b {
				b = left
			}
			if b < 10*time.Second {
				outs[i] = runOut{spec: r, err: "no time left"}
				return
			}
			outs[i] = runSub(verif, root, r, tier, dir, known, b)
		}()
	}
	wg.Wait()

	ev := newEvidence(spec, tier, known)
	code := 0
	seenKnown := map[string]bool{}
	var reported []string
	hangs := 0
	for i := range outs {
		o := &outs[i]
		if o.res == nil {
			fmt.Printf("NOTE %s/%s: %s\n", id, o.spec.Name, o.err)
			ev.failed = append(ev.failed, o.spec.Name+": "+o.err)
			continue
		}
		ev.add(o)
		for _, k := range o.res.Known {
			seenKnown[k] = true
		}
		if code == 1 {
			continue // one confirmed violation is enough
		}
		for _, v := range append(o.res.Viols, o.res.Hangs...) {
			if v.Kind == "hang" && (code == 1 || hangs > 6) {
				continue
			}
			v.Sched.Pkg, v.Sched.Func, v.Sched.Ignore = o.spec.Pkg, o.spec.Func, o.spec.LeakIgnore
			rr, err := rp.confirm(v)
			if err != nil {
				fmt.Printf("NOTE %s/%s: the counterexample could not be replayed: %v\n", id, o.spec.Name, err)
				ev.unconfirmed = append(ev.unconfirmed, v.Kind+": "+v.Msg)
				continue
			}
			ev.replays++
			if v.Kind == "hang" {
				hangs++
				if !rr.Confirmed {
					continue // a loop beyond the bound, but not an endless one
				}
			}
			if !rr.Confirmed {
				out := rr.Output
				if len(out) > 600 {
					out = out[len(out)-600:]
				}
				fmt.Printf("NOTE %s/%s: solver counterexample not reproduced by the real code (exit %d, %s): %s: %s\n", id, o.spec.Name, rr.Exit, rr.Sync, v.Kind, v.Msg)
				if os.Getenv("ZZVERBOSE") != "" {
					fmt.Println(out)
				}
				ev.unconfirmed = append(ev.unconfirmed, v.Kind+": "+v.Msg)
				continue
			}
			path := filepath.Join(verif, "replays", id+"-"+o.spec.Name+".json")
			os.MkdirAll(filepath.Dir(path), 0o755)
			out := rr.Output
			if len(out) > 8000 {
				out = out[:8000]
			}
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": id, "run": o.spec.Name, "kind": v.Kind, "message": v.Msg, "observed": rr.What, "schedule": v.Sched, "trace": v.Trace,
				"replay_exit": rr.Exit, "replay_sync": rr.Sync, "replay_output": out,
				"how": "bash /verif/check.sh replay " + path,
			}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("%s/%s: %s: %s (native replay: %s)\n", id, o.spec.Name, v.Kind, v.Msg, rr.What)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			reported = append(reported, v.Kind+": "+v.Msg)
			code = 1
			break
		}
	}
	// witnesses: an execution of each run that reaches the harness's end is
	// replayed against the real code
	if code == 0 {
		type wr struct{ name, note string }
		var wmu sync.Mutex
		var ww sync.WaitGroup
		sem := make(chan struct{}, 3)
		for i := range outs {
			o := &outs[i]
			if o.res == nil || o.res.CoverSched == nil || time.Until(deadline) < 60*time.Second {
				continue
			}
			ww.Add(1)
			go func() {
				defer ww.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				s := o.res.CoverSched
				s.Pkg, s.Func, s.Ignore = o.spec.Pkg, o.spec.Func, o.spec.LeakIgnore
				rr, err := rp.run(s, false)
				wmu.Lock()
				defer wmu.Unlock()
				if err != nil {
					ev.witnessNotes = append(ev.witnessNotes, o.spec.Name+": "+firstLines(err.Error(), 12))
					return
				}
				if rr.Exit == 0 {
					ev.validated++
					ev.witnessSync = append(ev.witnessSync, o.spec.Name+": "+rr.Sync)
				} else {
					ev.witnessNotes = append(ev.witnessNotes, fmt.Sprintf("%s: the native run of the witness ended with %d %s %s", o.spec.Name, rr.Exit, rr.What, rr.Sync))
				}
			}()
		}
		ww.Wait()
	}
	for _, k := range known {
		if seenKnown[k.Kind+": "+k.Match] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
		}
	}
	ev.write(verif, time.Since(t0).Seconds(), reported)
	ev.print()
	return code
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// ---------------------------------------------------------------- evidence

type evidence struct {
	spec         *Spec
	tier         string
	known        []Known
	runs         []*runOut
	failed       []string
	unconfirmed  []string
	replays      int
	validated    int
	witnessSync  []string
	witnessNotes []string
}

func newEvidence(s *Spec, tier string, k []Known) *evidence {
	return &evidence{spec: s, tier: tier, known: k}
}

func (e *evidence) add(o *runOut) { e.runs = append(e.runs, o) }

func (e *evidence) write(verif string, wall float64, reported []string) {
	states, trans, queries, unsat, sat, unk := 0, 0, 0, 0, 0, 0
	solve := 0.0
	fns := map[string]bool{}
	var rows []map[string]interface{}
	var samples []interface{}
	for _, o := range e.runs {
		r := o.res
		states += r.Points
		trans += r.Visible
		solve += r.SolveS
		for _, f := range r.Funcs {
			fns[f] = true
		}
		for _, q := range r.Queries {
			queries++
			switch q.Result {
			case "sat":
				sat++
			case "unsat":
				unsat++
			default:
				unk++
			}
		}
		row := map[string]interface{}{
			"run": r.Spec.Name, "what": r.Spec.What, "harness": r.Spec.Pkg + "." + r.Spec.Func, "params": r.Spec.Params,
			"bounds":  map[string]interface{}{"rounds": r.Rounds, "thread_order": r.Spec.Order, "preemptions": preemptions(&r.Spec), "unwind": r.Spec.Unwind, "unwind_fn": r.Spec.UnwindFn, "max_slice": r.Spec.MaxSlice, "clock_bits": r.Spec.Clock, "data_races": r.Spec.Races || r.Spec.RaceAll},
			"threads": r.Threads, "control_points": r.Points, "visible_operations": r.Visible, "instructions_encoded": r.Instr, "formula_nodes": r.Nodes, "inputs": r.Inputs,
			"encode_s": round2(r.EncodeS), "solver_s": round2(r.SolveS), "assertions": r.Asserts, "completes": r.Done, "covers": r.Covers,
			"cut_by_loop_bound": r.Unwound, "not_encoded": r.Incomplete, "timed_out": r.TimedOut,
		}
		var qs []string
		for _, q := range r.Queries {
			qs = append(qs, fmt.Sprintf("%s: %s (%s, %.2fs, %d nodes)%s", q.Name, q.Result, q.Solver, q.Seconds, q.Vars, q.Cross))
		}
		row["queries"] = qs
		rows = append(rows, row)
		if len(samples) < 4 && r.CoverSched != nil {
			var st []string
			for i, s := range r.CoverSched.Steps {
				if i >= 25 {
					st = append(st, "...")
					break
				}
				st = append(st, s.T+" "+s.K+" "+s.P)
			}
			samples = append(samples, map[string]interface{}{"run": r.Spec.Name, "witness_schedule": st, "inputs": r.CoverSched.Inputs})
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var unfinished []string
	unfinished = append(unfinished, e.failed...)
	doc := map[string]interface{}{
		"property": e.spec.ID, "tier": e.tier, "seed": seed, "level": "model_checking", "wall_s": round2(wall), "violations": len(reported),
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": e.validated, "samples": samples,
			"explanation": "states: symbolic control points of the encoded threads over all rounds; transitions: scheduling decisions encoded; each stands for every input and schedule within the bounds. The queries are decided by SMT/SAT over the whole space; nothing is sampled.",
			"queries":     queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk, "solver_s": round2(solve),
			"functions_encoded": sortedStr(fns), "runs": rows, "counterexamples_replayed": e.replays, "counterexamples_not_reproduced": e.unconfirmed,
			"witness_replays": e.witnessSync, "witness_notes": e.witnessNotes, "runs_without_result": unfinished, "violations": reported,
		},
		"assumptions": []string{
			"sequentially consistent interleavings of visible operations; data races are looked for separately where the run says so",
			"bounded context switches: every thread runs at most once per round, in the stated order, for the stated number of rounds",
			"loops are followed up to the stated bound; longer executions are outside",
			"the environment models of context, time, sync primitives, reflection and tracing (see DESIGN.md)",
		},
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", e.spec.ID+".json"), b, 0o644)
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func (e *evidence) print() {
	for _, o := range e.runs {
		r := o.res
		var cov []string
		for _, c := range sortedKeysS(r.Covers) {
			if r.Covers[c] != "sat" {
				cov = append(cov, c+"="+r.Covers[c])
			}
		}
		last := ""
		for _, q := range r.Queries {
			if strings.HasPrefix(q.Name, "violation") {
				last = q.Result
			}
		}
		fmt.Printf("%s/%s: rounds %d threads %d nodes %d encode %.1fs solve %.1fs completes=%s violation=%s", e.spec.ID, r.Spec.Name, r.Rounds, r.Threads, r.Nodes, r.EncodeS, r.SolveS, r.Done, last)
		if len(cov) > 0 {
			fmt.Printf(" NOT-COVERED %v", cov)
		}
		if len(r.Incomplete) > 0 {
			fmt.Printf(" incomplete=%d(%s)", len(r.Incomplete), cut(r.Incomplete[0], 160))
		}
		if len(r.Unwound) > 0 {
			fmt.Printf(" unwound=%d(%s)", len(r.Unwound), cut(r.Unwound[0], 80))
		}
		if r.TimedOut {
			fmt.Printf(" TIMEOUT")
		}
		fmt.Println()
	}
	fmt.Printf("witnesses replayed natively: %d %v %v\n", e.validated, e.witnessSync, e.witnessNotes)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sortedKeysS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// replayMain runs a stored counterexample again.
func replayMain(verif, root, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var doc struct {
		Kind     string    `json:"kind"`
		Message  string    `json:"message"`
		Schedule *Schedule `json:"schedule"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "vrep")
	defer os.RemoveAll(dir)
	rp := &Replayer{verif: verif, root: root, dir: dir, bins: map[string]*binEntry{}, funcs: map[string][]string{doc.Schedule.Pkg: {doc.Schedule.Func}}}
	rr, err := rp.confirm(&FoundViolation{Kind: doc.Kind, Msg: doc.Message, Sched: doc.Schedule})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(rr.Output)
	fmt.Printf("confirmed=%v exit=%d %s\n", rr.Confirmed, rr.Exit, rr.What)
	if rr.Confirmed {
		return 1
	}
	return 0
}

// preemptions describes the bound on preemptions within the rounds.
func preemptions(s *RunSpec) interface{} {
	if s.Switches == nil {
		return "any"
	}
	if *s.Switches > 0 && s.Hold > 1 {
		return fmt.Sprintf("%d, each for %d turns", *s.Switches, s.Hold)
	}
	return *s.Switches
}
