package main

// Loading of the code under test with the harnesses laid over it.

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gostdlib/concurrency"

type Program struct {
	fset         *token.FileSet
	root         string
	ssa          *ssa.Program
	inits        []*ssa.Function
	subst        map[string]*ssa.Function
	atomicFns    map[*ssa.Function]bool
	atomicTarget map[*ssa.Function]string
	pkgs         map[string]*ssa.Package
	loaded       []*packages.Package
	overlay      map[string][]byte
}

type Config struct {
	entry      *ssa.Function
	rounds     int
	unwind     int
	unwindFn   map[string]int
	depth      int
	maxChan    int
	maxSlice   int
	params     map[string]int
	clockBits  int
	numCPU     int
	races      bool
	raceAll    bool
	prune      bool
	pruneLoops bool
	pruneConfl int
	trace      bool
	verbose    bool
	order      string
	switches   int // bound on preemptions, -1: none
	hold       int // turns that a preemption lasts
}

// overlayFiles maps files below /repo to the verification files laid over it.
func overlayFiles(verif, root string) map[string]string {
	out := map[string]string{}
	add := func(base, rel string) {
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
				r, _ := filepath.Rel(base, p)
				out[filepath.Join(root, rel, r)] = p
			}
			return nil
		})
	}
	add(filepath.Join(verif, "rtlib"), "zzverif")
	add(filepath.Join(verif, "harness"), "")
	return out
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOMODCACHE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if d := "/opt/veriftools/go1.23.12/bin"; dirExists(d) {
		path = d + ":" + path
	}
	return append(env, "PATH="+path, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOMODCACHE=/root/go/pkg/mod", "GOWORK=off")
}

func dirExists(d string) bool {
	fi, err := os.Stat(d)
	return err == nil && fi.IsDir()
}

// load type-checks the module with the harness packages and builds SSA.
func load(verif, root string, pkgs []string) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(verif, root) {
		if strings.Contains(dst, "/zzverif/v") && !strings.Contains(dst, "/zzverif/vctx") && !strings.Contains(dst, "/zzverif/vtime") {
			continue // shims of the native replay only
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pats := []string{modPath + "/zzverif/rt", modPath + "/zzverif/vctx", modPath + "/zzverif/vtime", modPath + "/zzverif/model", "errors", "fmt", "context"}
	for _, p := range pkgs {
		pats = append(pats, modPath+"/"+p)
	}
	fset := token.NewFileSet()
	// the executor resolves /opt/veriftools/go1.23.12/bin/go through PATH
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Env: goEnv(), Overlay: ov, Fset: fset, Tests: false}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{fset: fset, root: root, ssa: prog, subst: map[string]*ssa.Function{}, atomicFns: map[*ssa.Function]bool{}, atomicTarget: map[*ssa.Function]string{}, pkgs: map[string]*ssa.Package{}, loaded: ps, overlay: ov}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		if execPkg(p.Pkg.Path()) {
			p.Build()
		}
	}
	P.substitutions()
	return P, nil
}

// execPkg: packages whose code is executed symbolically.
func execPkg(p string) bool {
	if strings.HasPrefix(p, modPath) || strings.HasPrefix(p, "github.com/johnsiilver/") || strings.HasPrefix(p, "github.com/gostdlib/") {
		return true
	}
	switch p {
	case "sync", "sync/atomic", "errors", "cmp", "slices", "maps", "github.com/google/btree", "internal/race", "golang.org/x/exp/constraints", "iter", "sort":
		return true
	}
	return false
}

func pkgOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) isLibPath(path string) bool {
	if strings.Contains(path, "/zzverif") {
		return false
	}
	return strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/johnsiilver/")
}

func (p *Program) executable(fn *ssa.Function) bool {
	path := pkgOf(fn)
	if fn.Name() == "init" && fn.Synthetic != "" {
		return (strings.HasPrefix(path, modPath) && !strings.Contains(path, "zzverif/rt") && !strings.Contains(path, "zzverif/v")) || strings.HasPrefix(path, "github.com/johnsiilver/") || strings.HasPrefix(path, "github.com/gostdlib/") || path == "github.com/google/btree"
	}
	if strings.HasPrefix(fn.Name(), "init#") && path != "" && !execPkg(path) {
		return false
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	if path == "" { // synthetic wrappers, bound methods, thunks
		return true
	}
	if execPkg(path) {
		return true
	}
	switch fnName(fn) {
	case "(*fmt.wrapError).Error", "(*fmt.wrapError).Unwrap", "(*fmt.wrapErrors).Error", "(*fmt.wrapErrors).Unwrap",
		"(context.deadlineExceededError).Error", "(time.Duration).Nanoseconds", "(time.Duration).Microseconds", "(time.Duration).Milliseconds":
		return true
	}
	// wrappers of methods promoted through embedding
	return fn.Synthetic != "" && fn.Name() != "init"
}

// benign: functions without an effect on the properties; their results are unknown values.
func (p *Program) benign(fn *ssa.Function) bool {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	path := pkgOf(fn)
	for _, q := range []string{"go.opentelemetry.io/", "fmt", "log", "strconv", "github.com/go-json-experiment/json", "time", "encoding/"} {
		if path == q || (strings.HasSuffix(q, "/") && strings.HasPrefix(path, q)) || strings.HasPrefix(path, q+"/") {
			return true
		}
	}
	return false
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	q := p.pkgs[pkg]
	if q == nil {
		return nil
	}
	return q.Func(name)
}

func (p *Program) substitutions() {
	z := modPath + "/zzverif/"
	std := func(stdPkg, mod string, names ...string) {
		for _, n := range names {
			f := p.fn(z+mod, n)
			if f == nil {
				panic("no substitute " + mod + "." + n)
			}
			p.subst[stdPkg+"."+n] = f
		}
	}
	std("context", "vctx", "Background", "TODO", "WithCancel", "WithCancelCause", "WithTimeout", "WithDeadline", "WithValue", "Cause", "WithoutCancel", "AfterFunc")
	std("time", "vtime", "Now", "Since", "Until", "After", "Tick")
	for n, m := range map[string]string{"NewTicker": "EngNewTicker", "NewTimer": "EngNewTimer", "AfterFunc": "EngAfterFunc"} {
		p.subst["time."+n] = p.fn(z+"vtime", m)
	}
	for _, m := range []string{"Sub", "Add", "Before", "After", "IsZero", "Equal", "UnixNano", "Unix", "Compare"} {
		f := p.fn(z+"vtime", "Time"+m)
		if f == nil {
			panic("no substitute vtime.Time" + m)
		}
		p.subst["(time.Time)."+m] = f
	}
	std("errors", "model", "Is")
	std("go.opentelemetry.io/otel/trace", "model", "SpanFromContext", "ContextWithSpan")
	std("github.com/johnsiilver/dynamics/method", "model", "MatchesSignature")
	// functions executed without scheduling points inside; the scheduling
	// point is their call
	for _, n := range []string{"ctxErr", "ctxStop", "ctxCancel", "ctxPropagate"} {
		f := p.fn(z+"vctx", n)
		if f == nil {
			panic("no vctx." + n)
		}
		p.atomicFns[f] = true
		switch n {
		case "ctxErr":
			p.atomicTarget[f] = "ctx"
		default:
			p.atomicTarget[f] = "!ctx"
		}
	}
	if f := p.fn(z+"rt", "Atomic"); f != nil {
		p.atomicFns[f] = true
	}
}

// globalInit gives package variables of packages that are not initialised
// symbolically a value.
func (p *Program) globalInit(ex *Exec, g *ssa.Global, t types.Type) Value {
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	run := (strings.HasPrefix(path, modPath)) || strings.HasPrefix(path, "github.com/johnsiilver/") || strings.HasPrefix(path, "github.com/gostdlib/") || path == "github.com/google/btree"
	if run {
		return zero(t)
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		if g.String() == "context.DeadlineExceeded" {
			ct := p.pkgs["context"].Type("deadlineExceededError").Type()
			return mkIface(ct, &Agg{})
		}
		msgs := map[string]string{"context.Canceled": "context canceled"}
		et := p.pkgs["errors"].Type("errorString").Type()
		o := ex.newVar("gerr:"+g.String(), et, True, "error")
		m := msgs[g.String()]
		if m == "" {
			m = g.String()
		}
		o.root.write(True, &Agg{[]Value{cstr(m)}})
		return mkIface(types.NewPointer(et), ptrTo(o))
	}
	return zero(t)
}

func sortedStr(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// relPos is a position as file:line, relative to the module.
func (p *Program) relPos(q token.Pos) string {
	ps := p.fset.Position(q)
	f := strings.TrimPrefix(ps.Filename, p.root+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func goEnvMod() []string {
	var out []string
	for _, e := range goEnv() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			out = append(out, e)
		}
	}
	return append(out, "GOFLAGS=-mod=mod")
}

// runCmd runs a command with a time limit in seconds.
func runCmd(dir string, env []string, limit int, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = env
	out, err := c.CombinedOutput()
	return string(out), err
}
