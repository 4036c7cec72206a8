package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"time"
)

type Spec struct {
	ID   string     `json:"id"`
	Runs []*RunSpec `json:"runs"`
}

func readSpec(verif, id string) (*Spec, error) {
	b, err := os.ReadFile(filepath.Join(verif, "specs", id+".json"))
	if err != nil {
		return nil, err
	}
	s := &Spec{}
	return s, json.Unmarshal(b, s)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|run ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	root := fs.String("repo", "/repo", "")
	id := fs.String("id", "", "")
	run := fs.String("run", "", "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "")
	v := fs.Bool("v", false, "")
	trace := fs.Bool("trace", false, "")
	budget := fs.Int("budget", 600, "seconds")
	maxV := fs.Int("maxviol", 1, "")
	specF := fs.String("spec", "", "")
	knownF := fs.String("known", "", "")
	file := fs.String("file", "", "")
	fs.Parse(os.Args[2:])
	if pf := os.Getenv("ZZPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	_ = trace
	switch cmd {
	case "check":
		os.Exit(checkMain(*verif, *root, *id, *tier, *run))
	case "replay":
		os.Exit(replayMain(*verif, *root, *file))
	case "one":
		spec := &RunSpec{}
		b, err := os.ReadFile(*specF)
		if err == nil {
			err = json.Unmarshal(b, spec)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var known []Known
		if b, err := os.ReadFile(*knownF); err == nil {
			json.Unmarshal(b, &known)
		}
		p, err := load(*verif, *root, []string{spec.Pkg})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		dir, _ := os.MkdirTemp("", "vq")
		sv := &Solver{dir: dir, timeout: time.Duration(*budget) * time.Second, cross: *tier == "thorough"}
		res := runOne(p, spec, sv, known, time.Duration(*budget)*time.Second, *v, *maxV)
		b, _ = json.Marshal(res)
		os.WriteFile(*out, b, 0o644)
		os.RemoveAll(dir)
	case "run":
		spec, err := readSpec(*verif, *id)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, r := range spec.Runs {
			if r.Name != *run {
				continue
			}
			t0 := time.Now()
			p, err := load(*verif, *root, []string{r.Pkg})
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			if *v {
				fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0))
			}
			dir, _ := os.MkdirTemp("", "vq")
			defer os.RemoveAll(dir)
			sv := &Solver{dir: dir, timeout: time.Duration(*budget) * time.Second, cross: *tier == "thorough"}
			res := runOne(p, r, sv, nil, time.Duration(*budget)*time.Second, *v, *maxV)
			b, _ := json.MarshalIndent(res, "", " ")
			if *out != "" {
				os.WriteFile(*out, b, 0o644)
			} else {
				fmt.Println(string(b))
			}
		}
	default:
		os.Exit(2)
	}
}
