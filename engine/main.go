package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Println("usage: engine try|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "try":
		tryCmd(os.Args[2:])
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
}

func tryCmd(args []string) {
	fs := flag.NewFlagSet("try", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("h", "/verif/harness", "")
	pkgs := fs.String("pkgs", "", "")
	name := fs.String("f", "", "pkg.Func")
	ps := fs.String("p", "", "params k=v,...")
	workers := fs.Int("w", 8, "")
	ifc := fs.Bool("ifconv", true, "")
	specst := fs.Bool("spec", false, "")
	merge := fs.Bool("merge", true, "")
	hot := fs.Bool("hot", false, "")
	v := fs.Int("v", 0, "")
	tmo := fs.Int("t", 600, "")
	bin := fs.String("z3", "z3-new", "")
	maxSteps := fs.Int64("steps", 20_000_000, "")
	delay := fs.Int("delay", -1, "")
	ticks := fs.Int("ticks", 2, "")
	draws := fs.Int("draws", 0, "")
	pre := fs.Int("preempt", 2, "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	t0 := time.Now()
	s, err := newSetup(*repo, *hdir, "/tmp/vsym-try", splitPkgs(*pkgs, *name))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p, err := s.load()
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	if err := p.initialise(modPath+"/internal/vsymmain", *bin); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Fprintln(os.Stderr, "init", time.Since(t0))
	params := map[string]int{}
	for _, kv := range strings.Split(*ps, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n := 0
			fmt.Sscan(v, &n)
			params[k] = n
		}
	}
	fn := p.harnessFn(s, *name)
	if fn == nil {
		fmt.Println("no harness", *name)
		os.Exit(3)
	}
	j := &Job{prog: p, harness: *name, fn: fn, params: params, maxSteps: *maxSteps, maxAlloc: 1 << 24, workers: *workers, ifconv: *ifc, specStores: *specst,
		merge: *merge, verbose: *v, solverBin: *bin, deadline: time.Now().Add(time.Duration(*tmo) * time.Second), maxPreempt: *pre, maxDraws: *draws, maxDelay: *delay, maxTicks: *ticks}
	if *race {
		j.races, j.ifconv, j.merge = true, false, false
	}
	if *hot {
		j.hot = map[string]int64{}
	}
	t1 := time.Now()
	if pf := os.Getenv("ENG_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	j.run()
	j.report()
	fmt.Fprintf(os.Stderr, "run %v queries %d (sat %d unsat %d unk %d hits %d fd %d/%d) solver %v terms %d restarts %d\n", time.Since(t1), statQueries, statSat, statUnsat, statUnknown, statModelHits, statFDSat, statFDUnsat, time.Duration(statSolverNs), termCtr, statRestarts)
	if j.viol != nil {
		fmt.Printf("VIOL %s\n%v\n", j.viol.Msg, j.viol.Vals)
		for _, s := range j.viol.Stack {
			fmt.Println("   ", s)
		}
		for _, s := range j.viol.Trace {
			fmt.Println("   sched", s)
		}
		b, _ := json.Marshal(map[string]any{"Harness": j.viol.Harness, "Params": j.viol.Params, "Vals": j.viol.Vals, "Msg": j.viol.Msg})
		os.WriteFile("/tmp/vsym-try/viol.json", b, 0o644)
	}
	for _, a := range j.aborts {
		fmt.Printf("ABORT %s\n%v\n", a.Msg, a.Vals)
		for _, s := range a.Stack {
			fmt.Println("   ", s)
		}
	}
}

func splitPkgs(p, name string) []string {
	if p == "" {
		return []string{pkgOfHarness(name)}
	}
	return strings.Split(p, ",")
}
