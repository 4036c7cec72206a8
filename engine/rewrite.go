package main

// Instrumentation for the native replay: the sources that the executor
// encoded get scheduling points at the same operations, and the parts of the
// environment that are symbolic (time, contexts, CPU count, sync.Pool) come
// from the shims. Nothing else changes.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	off, end int
	text     string
	seq      int
}

type rewriter struct {
	pkg   *packages.Package
	fset  *token.FileSet
	src   []byte
	base  int
	edits []edit
	pos   func(token.Pos) string
	used  map[string]bool // shims referenced
	keep  map[string]bool // imports that may have become unused
	n     int
	skip  map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, len(r.edits)})
}
func (r *rewriter) repl(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}

// insertion that must come before everything else at that offset
func (r *rewriter) insFirst(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, -1000000 + len(r.edits)})
}

var syncKinds = map[string]string{
	"sync.Mutex.Lock": "lock", "sync.Mutex.Unlock": "unlock", "sync.Mutex.TryLock": "trylock",
	"sync.RWMutex.Lock": "lock", "sync.RWMutex.Unlock": "unlock", "sync.RWMutex.RLock": "lock", "sync.RWMutex.RUnlock": "unlock",
	"sync.RWMutex.TryLock": "trylock", "sync.RWMutex.TryRLock": "trylock",
	"sync.WaitGroup.Add": "wgadd", "sync.WaitGroup.Done": "wgdone", "sync.WaitGroup.Wait": "wgwait",
}

var shimFuncs = map[string]string{
	"context.Background": "zzvctx", "context.TODO": "zzvctx", "context.WithCancel": "zzvctx", "context.WithCancelCause": "zzvctx", "context.WithTimeout": "zzvctx",
	"context.WithDeadline": "zzvctx", "context.WithValue": "zzvctx", "context.Cause": "zzvctx", "context.WithoutCancel": "zzvctx", "context.AfterFunc": "zzvctx",
	"time.Now": "zzvtime", "time.Since": "zzvtime", "time.Until": "zzvtime", "time.After": "zzvtime", "time.Tick": "zzvtime", "time.NewTicker": "zzvtime", "time.NewTimer": "zzvtime",
	"time.AfterFunc": "zzvtime", "time.Sleep": "zzvtime", "time.Ticker": "zzvtime", "time.Timer": "zzvtime",
	"sync.Once": "zzvsync", "sync.Pool": "zzvsync", "sync.OnceFunc": "zzvsync", "sync.Map": "zzvsync",
	"runtime.NumCPU": "zzrt", "runtime.GOMAXPROCS": "zzrt", "runtime.Gosched": "zzrt",
}

var shimName = map[string]string{"runtime.Gosched": "Yield"}

// syncMethod tells whether the call is a method of a sync or sync/atomic type;
// it returns the kind and the path of embedded fields to the receiver.
func (r *rewriter) syncMethod(c *ast.CallExpr) (sel *ast.SelectorExpr, kind, path string, ptr bool) {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, "", "", false
	}
	s := r.pkg.TypesInfo.Selections[sel]
	if s == nil || s.Kind() != types.MethodVal {
		return nil, "", "", false
	}
	fn, ok := s.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil {
		return nil, "", "", false
	}
	rt := fn.Type().(*types.Signature).Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok {
		return nil, "", "", false
	}
	full := fn.Pkg().Path() + "." + n.Obj().Name() + "." + fn.Name()
	switch fn.Pkg().Path() {
	case "sync":
		kind = syncKinds[full]
	case "sync/atomic":
		kind = "atomic"
	}
	if kind == "" {
		return nil, "", "", false
	}
	t := s.Recv()
	ptr = isPtr(t)
	for _, i := range s.Index()[:len(s.Index())-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		f := t.Underlying().(*types.Struct).Field(i)
		path += "." + f.Name()
		t = f.Type()
		ptr = isPtr(t)
	}
	return sel, kind, path, ptr
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.pkg.TypesInfo.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	if !ok {
		if tp, ok2 := t.(*types.TypeParam); ok2 {
			_, ok = tp.Constraint().Underlying().(*types.Chan)
		}
	}
	return ok
}

func (r *rewriter) builtin(c *ast.CallExpr, name string) bool {
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.pkg.TypesInfo.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) pkgFunc(e ast.Expr) string {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := r.pkg.TypesInfo.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path() + "." + sel.Sel.Name
}

func (r *rewriter) q(kind string, p token.Pos) string {
	r.used["zzrt"] = true
	return fmt.Sprintf("%q, %q", kind, r.pos(p))
}

func (r *rewriter) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil || r.skip[n] {
			return true
		}
		switch x := n.(type) {
		case *ast.DeferStmt:
			c := x.Call
			if sel, kind, path, ptr := r.syncMethod(c); sel != nil {
				r.skip[c] = true
				amp := "&"
				if ptr {
					amp = ""
				}
				v := r.tmp()
				r.repl(x.Defer, sel.X.Pos(), "{ "+v+" := "+amp)
				r.repl(sel.X.End(), sel.X.End(), path+"; defer func() { zzrt.R("+v+", "+r.q(kind, x.Defer)+")")
				r.ins(c.End(), " }() }")
			} else if r.builtin(c, "close") {
				r.skip[c] = true
				v := r.tmp()
				r.repl(x.Defer, c.Args[0].Pos(), "{ "+v+" := ")
				r.repl(c.Args[0].End(), c.End(), "; defer func() { close(zzrt.C("+v+", "+r.q("close", x.Defer)+")) }() }")
			}
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.CallExpr:
			if sel, kind, path, ptr := r.syncMethod(x); sel != nil {
				amp := "&"
				if ptr {
					amp = ""
				}
				r.ins(sel.X.Pos(), "zzrt.R("+amp)
				r.ins(sel.X.End(), path+", "+r.q(kind, x.Lparen)+")")
			} else if r.builtin(x, "close") {
				r.ins(x.Args[0].Pos(), "zzrt.C(")
				r.ins(x.Args[0].End(), ", "+r.q("close", x.Lparen)+")")
			} else if r.builtin(x, "len") && r.isChan(x.Args[0]) {
				r.ins(x.Args[0].Pos(), "zzrt.C(")
				r.ins(x.Args[0].End(), ", "+r.q("len", x.Lparen)+")")
			} else if f := r.pkgFunc(x.Fun); strings.HasPrefix(f, "sync/atomic.") && len(x.Args) > 0 {
				r.ins(x.Args[0].Pos(), "zzrt.R(")
				r.ins(x.Args[0].End(), ", "+r.q("atomic", x.Lparen)+")")
			}
		case *ast.SelectorExpr:
			if f := r.pkgFunc(x); shimFuncs[f] != "" && !strings.HasSuffix(r.pkg.PkgPath, "/"+strings.TrimPrefix(shimFuncs[f], "zz")) {
				sh := shimFuncs[f]
				nm := x.Sel.Name
				if shimName[f] != "" {
					nm = shimName[f]
				}
				r.repl(x.Pos(), x.End(), sh+"."+nm)
				r.used[sh] = true
				r.keep[strings.SplitN(f, ".", 2)[0]] = true
			}
		case *ast.SendStmt:
			r.ins(x.Chan.Pos(), "zzrt.C(")
			r.ins(x.Chan.End(), ", "+r.q("send", x.Arrow)+")")
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.ins(x.X.Pos(), "zzrt.C(")
				r.ins(x.X.End(), ", "+r.q("recv", x.OpPos)+")")
			}
		case *ast.RangeStmt:
			if r.isChan(x.X) {
				r.ins(x.X.Pos(), "zzrt.RangeC(")
				r.ins(x.X.End(), ", "+r.q("recv", x.For)+")")
			}
		case *ast.LabeledStmt:
			if s, ok := x.Stmt.(*ast.SelectStmt); ok {
				r.selectStmt(s, x.Pos())
			}
		case *ast.SelectStmt:
			r.selectStmt(x, x.Pos())
		}
		return true
	})
}

func (r *rewriter) tmp() string { r.n++; return fmt.Sprintf("zz%d", r.n) }

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	r.used["zzrt"] = true
	p := fmt.Sprintf("%q", r.pos(x.Go))
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.repl(x.Go, fl.Pos(), "zzrt.GoAt("+p+", ")
		r.repl(fl.End(), c.End(), ")")
		return
	}
	// evaluate the function and its arguments now
	f := r.tmp()
	r.repl(x.Go, c.Fun.Pos(), "{ "+f+" := ")
	prev := c.Fun.End()
	var names []string
	for _, a := range c.Args {
		tv := r.pkg.TypesInfo.Types[a]
		if tv.Value != nil || tv.IsNil() {
			// a constant: keep it in place
			b, e := r.off(a.Pos()), r.off(a.End())
			names = append(names, string(r.src[b:e]))
			r.repl(prev, a.End(), "")
			r.skipAll(a)
			prev = a.End()
			continue
		}
		v := r.tmp()
		r.repl(prev, a.Pos(), "; "+v+" := ")
		names = append(names, v)
		prev = a.End()
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	r.repl(prev, c.End(), "; zzrt.GoAt("+p+", func() { "+f+"("+strings.Join(names, ", ")+dots+") }) }")
}

func (r *rewriter) skipAll(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m != nil {
			r.skip[m] = true
		}
		return true
	})
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, before token.Pos) {
	if r.skip[s] {
		return
	}
	r.skip[s] = true
	var comms []*ast.CommClause
	def := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
		} else {
			comms = append(comms, cc)
		}
	}
	if len(comms) == 0 || (len(comms) == 1 && !def) {
		return // a plain operation
	}
	v := r.tmp()
	r.insFirst(before, fmt.Sprintf("%s := zzrt.Sel(%s, %d, %v); ", v, r.q("select", s.Select), len(comms), def))
	for k, cc := range comms {
		var ch ast.Expr
		recv := func(e ast.Expr) {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			u := e.(*ast.UnaryExpr)
			r.skip[u] = true
			ch = u.X
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			r.skip[x] = true
			ch = x.Chan
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			recv(x.Rhs[0])
		}
		r.ins(ch.Pos(), fmt.Sprintf("zzrt.SC(%s, %d, ", v, k))
		r.ins(ch.End(), ")")
	}
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		ai, bi := a.end > a.off, b.end > b.off
		if ai != bi {
			return !ai // pure insertions before replacements
		}
		return a.seq < b.seq
	})
	var out []byte
	at := 0
	for _, e := range r.edits {
		if e.off < at {
			if e.end <= at {
				continue // inside replaced text
			}
			e.off = at
		}
		out = append(out, r.src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, r.src[at:]...)
}

// instrumentFile returns the instrumented source of a file.
func instrumentFile(P *Program, pkg *packages.Package, f *ast.File, src []byte, pos func(token.Pos) string) []byte {
	r := &rewriter{pkg: pkg, fset: P.fset, src: src, pos: pos, used: map[string]bool{}, keep: map[string]bool{}, skip: map[ast.Node]bool{}}
	for _, d := range f.Decls {
		r.walk(d)
	}
	imports := ""
	for _, s := range sortedStr(r.used) {
		imports += fmt.Sprintf("; import %s %q", s, modPath+"/zzverif/"+strings.TrimPrefix(s, "zz"))
	}
	r.ins(f.Name.End(), imports)
	out := r.apply()
	tail := "\n"
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if !r.keep[p] || (im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".")) {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		sym := map[string]string{"context": "Background", "time": "Now", "runtime": "NumCPU"}[p]
		if p == "sync" {
			tail += "var _ " + n + ".Mutex\n"
		} else if sym != "" {
			tail += "var _ = " + n + "." + sym + "\n"
		}
	}
	return append(out, tail...)
}

// deps whose code is executed and instrumented
func instrumentedDep(path string) bool {
	return strings.HasPrefix(path, "github.com/johnsiilver/dynamics/demux") || strings.HasPrefix(path, "github.com/johnsiilver/pools/goroutines")
}

// buildReplay writes the instrumented sources to dir and builds the replay
// binary there.
func buildReplay(P *Program, verif, dir, harnessPkg string, harnessFns []string, race bool) (string, error) {
	ov := map[string]string{}
	put := func(dst string, b []byte) error {
		h := filepath.Join(dir, "ov", fmt.Sprintf("%d_%s", len(ov), filepath.Base(dst)))
		os.MkdirAll(filepath.Dir(h), 0o755)
		ov[dst] = h
		return os.WriteFile(h, b, 0o644)
	}
	// shims
	for dst, src := range overlayFiles(verif, P.root) {
		if strings.HasPrefix(dst, filepath.Join(P.root, "zzverif/rt")+"/") && filepath.Base(dst) == "native.go" {
			continue
		}
		ov[dst] = src
	}
	for _, d := range []string{"rt", "vsync"} {
		fs, _ := filepath.Glob(filepath.Join(verif, "rtnative", d, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(P.root, "zzverif", d, filepath.Base(f))] = f
		}
	}
	modCopies := map[string]string{} // module path -> copy
	var err error
	packages.Visit(P.loaded, nil, func(p *packages.Package) {
		path := p.PkgPath
		own := strings.HasPrefix(path, modPath)
		if !own && !instrumentedDep(path) {
			return
		}
		switch strings.TrimPrefix(path, modPath+"/zzverif/") {
		case "rt", "vctx", "model", "vsync":
			return
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src := P.overlay[name]
			if src == nil {
				b, e := os.ReadFile(name)
				if e != nil {
					err = e
					return
				}
				src = b
			}
			ps := func(q token.Pos) string { return P.relPos(q) }
			out := instrumentFile(P, p, f, src, ps)
			if own {
				if e := put(name, out); e != nil {
					err = e
				}
				continue
			}
			mod := p.Module
			if mod == nil {
				err = fmt.Errorf("no module for %s", path)
				return
			}
			cp, ok := modCopies[mod.Path]
			if !ok {
				cp = filepath.Join(dir, "mod", strings.ReplaceAll(mod.Path, "/", "_"))
				if e := copyTree(mod.Dir, cp); e != nil {
					err = e
					return
				}
				modCopies[mod.Path] = cp
			}
			rel, _ := filepath.Rel(mod.Dir, name)
			if e := os.WriteFile(filepath.Join(cp, rel), out, 0o644); e != nil {
				err = e
			}
		}
	})
	if err != nil {
		return "", err
	}
	gm, err := os.ReadFile(filepath.Join(P.root, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, _ := os.ReadFile(filepath.Join(P.root, "go.sum"))
	add := "\n"
	for m, d := range modCopies {
		add += fmt.Sprintf("replace %s => %s\n", m, d)
		// range over functions needs a recent language version
		mf := filepath.Join(d, "go.mod")
		b, e := os.ReadFile(mf)
		if e == nil {
			var lines []string
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "toolchain ") {
					continue
				}
				lines = append(lines, l)
			}
			os.WriteFile(mf, []byte(strings.Join(lines, "\n")+"\ngo 1.23\n"), 0o644)
		}
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), append(gm, add...), 0o644)
	os.WriteFile(filepath.Join(dir, "go.sum"), gs, 0o644)
	tab := ""
	for _, f := range harnessFns {
		tab += fmt.Sprintf("\t\t%q: h.%s,\n", f, f)
	}
	main := fmt.Sprintf("package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\trt.Main(map[string]func(){\n%s\t})\n}\n", modPath+"/"+harnessPkg, modPath+"/zzverif/rt", tab)
	if e := put(filepath.Join(P.root, filepath.Dir(harnessPkg), "zzverifmain", "main.go"), []byte(main)); e != nil {
		return "", e
	}
	b, _ := json.Marshal(map[string]map[string]string{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-modfile", filepath.Join(dir, "go.mod"), "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+filepath.Join(filepath.Dir(harnessPkg), "zzverifmain"))
	out, err := runCmd(P.root, goEnvMod(), 300, "go", args...)
	if err != nil {
		return "", fmt.Errorf("build of the replay failed: %v\n%s", err, out)
	}
	return bin, nil
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || (!strings.HasSuffix(p, ".go") && fi.Name() != "go.mod" && fi.Name() != "go.sum") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}
