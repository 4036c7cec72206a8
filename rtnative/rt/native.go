package rt

// The native replay: the instrumented sources stop at the operations that the
// executor treats as scheduling points; a controller lets them proceed in the
// order of the solver's counterexample. When the schedule is used up, the
// program runs on freely. What it does after that is again a real execution.

import (
	"encoding/json"
	"fmt"
	"iter"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type schedule struct {
	Steps []struct {
		T   string `json:"t"`
		K   string `json:"k"`
		P   string `json:"p"`
		Arg int    `json:"a"`
	} `json:"steps"`
	Inputs map[string][]input `json:"inputs"`
	Params map[string]int     `json:"params"`
	NumCPU int                `json:"num_cpu"`
	Clock  bool               `json:"clock"`
	Kind   string             `json:"kind"`
	Msg    string             `json:"msg"`
	Ignore []string           `json:"ignore"`
}

type input struct {
	N string `json:"n"`
	V any    `json:"v"`
}

const (
	running = iota
	atPoint
	done
)

type thread struct {
	name   string
	id     int64
	state  int
	kind   string
	pos    string
	at     string // the go statement
	grant  chan int
	ins    []input
	kids   int
	atomic int
	locked int
	forced bool
	model  bool
	next   int // used by the controller
}

var (
	mu       sync.Mutex
	big      sync.Mutex // rt.Lock
	threads  []*thread
	free     bool
	sched    schedule
	poke     = make(chan struct{}, 1)
	noleak   bool
	lastTime int64 = 1000
	verbose        = os.Getenv("ZZVERBOSE") != ""
	jitter         = os.Getenv("ZZJITTER") != ""
	extra, lost, matched int
)

//go:norace
func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := string(b[:n])
	s = strings.TrimPrefix(s, "goroutine ")
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		return -1
	}
	k, _ := strconv.ParseInt(s[:i], 10, 64)
	return k
}

//go:norace
func self() *thread {
	id := goid()
	mu.Lock()
	for _, t := range threads {
		if t.id == id && t.state != done {
			mu.Unlock()
			return t
		}
	}
	mu.Unlock()
	return nil
}

//go:norace
func wake() {
	select {
	case poke <- struct{}{}:
	default:
	}
}

// point stops the current goroutine until the controller lets it go on.
//
//go:norace
func point(kind, pos string) int {
	raceOff()
	r := point1(kind, pos)
	raceBack()
	return r
}

//go:norace
func point1(kind, pos string) int {
	t := self()
	if t == nil || t.atomic > 0 || t.locked > 0 {
		return -2
	}
	mu.Lock()
	t.forced = false
	if free {
		mu.Unlock()
		if jitter {
			time.Sleep(time.Duration(time.Now().UnixNano()%7) * 20 * time.Microsecond)
		}
		return -2
	}
	t.kind, t.pos, t.state = kind, pos, atPoint
	mu.Unlock()
	wake()
	k := <-t.grant
	if k >= 0 {
		mu.Lock()
		t.forced = true
		mu.Unlock()
	}
	return k
}

// R is the point before an operation on *p.
//
//go:norace
func R[T any](p *T, kind, pos string) *T { point(kind, pos); return p }

// C is the point before a channel operation.
//
//go:norace
func C[T any](ch T, kind, pos string) T { point(kind, pos); return ch }

func P(kind, pos string) { point(kind, pos) }

func RangeC[T any, C ~chan T | ~<-chan T](ch C, kind, pos string) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			point(kind, pos)
			v, ok := <-ch
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Sel is the point before a select statement; the result says which case the
// schedule took: -1 the default, -2 not determined.
func Sel(kind, pos string, n int, def bool) int {
	k := point(kind, pos)
	if k == -1 && !def {
		return -2
	}
	return k
}

// SC disables the cases that the schedule did not take.
func SC[T any](sel, k int, ch T) T {
	if sel == -2 || sel == k {
		return ch
	}
	var z T
	return z
}

//go:norace
func GoAt(at string, f func()) {
	raceOff()
	p := self()
	t := &thread{at: at, grant: make(chan int, 1)}
	if p != nil {
		t.name = fmt.Sprintf("%s.%d", p.name, p.kids)
		p.kids++
		t.ins = sched.Inputs[t.name]
		mu.Lock()
		threads = append(threads, t)
		mu.Unlock()
	}
	raceBack()
	go func() {
		enter(t)
		f()
		leave(t) // not reached by a panic, which ends the process
	}()
}

//go:norace
func enter(t *thread) {
	raceOff()
	id := goid()
	mu.Lock()
	t.id = id
	mu.Unlock()
	raceBack()
}

//go:norace
func leave(t *thread) {
	raceOff()
	mu.Lock()
	t.state = done
	t.id = 0
	mu.Unlock()
	wake()
	raceBack()
}

// Go starts a goroutine of the environment models.
func Go(f func()) { GoAt("model", f) }

//go:norace
func take(name string) (any, bool) {
	raceOff()
	t := self()
	raceBack()
	if t == nil {
		return nil, false
	}
	for i, in := range t.ins {
		if in.N == name {
			t.ins = t.ins[i+1:]
			return in.V, true
		}
	}
	return nil, false
}

func nBool(name string) bool {
	v, _ := take(name)
	b, _ := v.(bool)
	return b
}

func nInt(name string, lo, hi int) int {
	v, ok := take(name)
	f, _ := v.(float64)
	if !ok || int(f) < lo || int(f) > hi {
		return lo
	}
	return int(f)
}

func nString(name string, max int) string {
	v, _ := take(name)
	s, _ := v.(string)
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	if len(b) > max {
		b = b[:max]
	}
	return string(b)
}

func nParam(name string, def int) int {
	if v, ok := sched.Params[name]; ok {
		return v
	}
	return def
}

func exit(code int, what string) {
	fmt.Printf("ZZ%s\nZZSYNC matched=%d extra=%d lost=%d\n", what, matched, extra, lost)
	os.Exit(code)
}

func nAssert(ok bool, msg string) {
	if !ok {
		exit(10, "VIOL assert "+msg)
	}
}

func nAssume(ok bool) {
	if !ok {
		exit(20, "ASSUME")
	}
}

func nCover(name string) { fmt.Println("ZZCOVER " + name) }

func nStop() { exit(0, "STOP") }

//go:norace
func nNoLeak() { noleak = true }

//go:norace
func nModel() {
	raceOff()
	t := self()
	if t != nil {
		mu.Lock()
		t.model = true
		mu.Unlock()
	}
	raceBack()
}

func nTimeNs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}

func nMkTime(ns int64) time.Time {
	if ns == 0 {
		return time.Time{}
	}
	return time.Unix(0, ns)
}

//go:norace
func nClock() int64 {
	v, ok := take("clock")
	raceOff()
	mu.Lock()
	if f, ok2 := v.(float64); ok && ok2 && int64(f) > lastTime {
		lastTime = int64(f)
	}
	n := lastTime
	mu.Unlock()
	raceBack()
	return n
}

func nPoint(name string) {
	if name == "yield" {
		if point("yield", "?") == -2 {
			runtime.Gosched()
		}
		return
	}
	point("atomic", "?")
}

//go:norace
func nLock() {
	raceOff()
	t := self()
	raceBack()
	big.Lock()
	if t != nil {
		t.locked++
	}
}

//go:norace
func nUnlock() {
	raceOff()
	t := self()
	raceBack()
	if t != nil {
		t.locked--
	}
	big.Unlock()
}

func NumCPU() int {
	if sched.NumCPU > 0 {
		return sched.NumCPU
	}
	return 2
}
func GOMAXPROCS(n int) int { return NumCPU() }

// ---------------------------------------------------------------- controller

var stackBuf = make([]byte, 1<<20)

// stuck: every registered goroutine that is neither finished nor at a point
// is blocked in the runtime. It returns the states seen.
//
//go:norace
func stuck() (bool, []*thread) {
	n := runtime.Stack(stackBuf, true)
	st := map[int64]string{}
	for _, l := range strings.Split(string(stackBuf[:n]), "\n") {
		if !strings.HasPrefix(l, "goroutine ") {
			continue
		}
		l = l[10:]
		i := strings.IndexByte(l, ' ')
		j := strings.IndexByte(l, '[')
		k := strings.IndexAny(l, ",]")
		if i < 0 || j < 0 || k < j {
			continue
		}
		id, _ := strconv.ParseInt(l[:i], 10, 64)
		st[id] = l[j+1 : k]
	}
	var blocked []*thread
	mu.Lock()
	defer mu.Unlock()
	for _, t := range threads {
		if t.state != running {
			continue
		}
		if t.id == 0 {
			return false, nil
		}
		s, ok := st[t.id]
		if !ok {
			return false, nil
		}
		switch s {
		case "chan receive", "chan send", "select", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)",
			"sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "semacquire", "sync.Cond.Wait":
			blocked = append(blocked, t)
		default:
			return false, nil
		}
	}
	return true, blocked
}

//go:norace
func anyRunning() bool {
	mu.Lock()
	defer mu.Unlock()
	for _, t := range threads {
		if t.state == running {
			return true
		}
	}
	return false
}

//go:norace
func quiesce(limit time.Time) bool {
	d := 20 * time.Microsecond
	for {
		if !anyRunning() {
			return true
		}
		select {
		case <-poke:
			continue
		case <-time.After(d):
		}
		if ok, _ := stuck(); ok {
			return true
		}
		if time.Now().After(limit) {
			return false
		}
		if d < 2*time.Millisecond {
			d *= 2
		}
	}
}

func eq(k, p, k2, p2 string) bool {
	return k == k2 && (p == p2 || p == "?" || p2 == "?" || p == "" || p2 == "")
}

//go:norace
func release(t *thread, arg int) {
	mu.Lock()
	t.state = running
	mu.Unlock()
	t.grant <- arg
}

//go:norace
func find(name string) *thread {
	mu.Lock()
	defer mu.Unlock()
	for _, t := range threads {
		if t.name == name {
			return t
		}
	}
	return nil
}

//go:norace
func look(t *thread) (int, string, string) {
	mu.Lock()
	defer mu.Unlock()
	return t.state, t.kind, t.pos
}

func say(f string, a ...any) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Main runs the harness under the schedule in the file named by ZZSCHED.
//
//go:norace
func Main(entries map[string]func()) {
	entry := entries[os.Getenv("ZZFUNC")]
	if f := os.Getenv("ZZSCHED"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &sched)
		}
		if err != nil {
			fmt.Println("ZZERR", err)
			os.Exit(40)
		}
	}
	if os.Getenv("ZZFREE") != "" {
		sched.Steps = nil
	}
	limit := time.Now().Add(40 * time.Second)
	if sched.Kind == "hang" {
		limit = time.Now().Add(20 * time.Second)
	}
	main := &thread{name: "0", grant: make(chan int, 1), ins: sched.Inputs["0"]}
	threads = append(threads, main)
	raceOff()
	go func() {
		enter(main)
		entry()
		leave(main)
	}()
	for i := 0; i < len(sched.Steps); {
		if !quiesce(limit) {
			break
		}
		s := sched.Steps[i]
		t := find(s.T)
		if t == nil {
			say("skip %v: no such goroutine", s)
			lost++
			i++
			continue
		}
		st, k, p := look(t)
		if st != atPoint {
			say("skip %v: goroutine is not at a point", s)
			lost++
			i++
			continue
		}
		if eq(k, p, s.K, s.P) || (s.K == "park" && eq("", p, "", s.P)) {
			say("step %v", s)
			matched++
			release(t, s.Arg)
			i++
			continue
		}
		skip := false
		for j, n := i+1, 0; j < len(sched.Steps) && n < 6; j++ {
			x := sched.Steps[j]
			if x.T != s.T {
				continue
			}
			n++
			if eq(k, p, x.K, x.P) {
				skip = true
				break
			}
		}
		if skip || extra > 300 {
			say("skip %v: goroutine is at %s %s", s, k, p)
			lost++
			i++
			continue
		}
		say("extra %s %s %s", s.T, k, p)
		extra++
		release(t, -2)
	}
	quiesce(limit)
	// from here on, freely
	say("free run")
	mu.Lock()
	free = true
	for _, t := range threads {
		if t.state == atPoint {
			t.state = running
			t.grant <- -2
		}
	}
	mu.Unlock()
	for {
		st, _, _ := look(main)
		if st == done && !noleak && !raceOn {
			exit(0, "END")
		}
		if ok, bl := stuck(); ok {
			st, _, _ := look(main)
			if st != done {
				for _, t := range bl {
					if t.forced {
						exit(0, "LOST a select was forced")
					}
				}
				dump()
				exit(11, "VIOL deadlock")
			}
			if noleak {
				var left []string
				for _, t := range bl {
					ign := t.model
					for _, x := range sched.Ignore {
						ign = ign || strings.Contains(t.at, x)
					}
					if t.forced && !ign {
						exit(0, "LOST a select was forced")
					}
					if !ign {
						left = append(left, t.name+" started at "+t.at)
					}
				}
				if len(left) > 0 {
					dump()
					exit(12, "VIOL leak "+strings.Join(left, "; "))
				}
			}
			exit(0, "END")
		}
		if time.Now().After(limit) {
			dump()
			exit(30, "TIMEOUT")
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func dump() {
	n := runtime.Stack(stackBuf, true)
	os.Stderr.Write(stackBuf[:n])
}
