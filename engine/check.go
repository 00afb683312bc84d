package main

// The check command: runs the jobs registered for a property, replays what
// they find against the natively compiled code, writes the evidence file.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type jobSpec struct {
	prop    string
	tier    string // q: quick and thorough, t: thorough only, Q: quick only
	harness string
	params  map[string]int
	opts    map[string]string
	line    string
}

func parseKV(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.Atoi(v)
			m[k] = n
		}
	}
	return m
}

func readSpecs(file string) ([]jobSpec, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []jobSpec
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 3 {
			return nil, fmt.Errorf("bad line %q", l)
		}
		j := jobSpec{prop: fs[0], tier: fs[1], harness: fs[2], opts: map[string]string{}, params: map[string]int{}, line: l}
		for _, x := range fs[3:] {
			if strings.HasPrefix(x, "-") {
				k, v, _ := strings.Cut(x[1:], "=")
				j.opts[k] = v
			} else {
				for k, v := range parseKV(x) {
					j.params[k] = v
				}
			}
		}
		r = append(r, j)
	}
	return r, sc.Err()
}

func pkgOfHarness(h string) string { return h[:strings.LastIndex(h, ".")] }

// importPath of a harness package name: ext packages live under internal/vh.
func (s *Setup) importPath(p string) string {
	if p == "root" {
		return modPath
	}
	if s.isExt(p) {
		return modPath + "/internal/vh/" + p
	}
	return modPath + "/" + p
}

func (s *Setup) isExt(p string) bool {
	_, err := os.Stat(filepath.Join(s.hdir, "ext", p))
	return err == nil
}

type knownEntry struct {
	prop, id, text string
}

func readKnown(file string) []knownEntry {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=S01 id=KF1 text...
		fs := strings.Fields(l)
		if len(fs) < 3 || fs[0] != "known:" {
			continue
		}
		r = append(r, knownEntry{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "id="), strings.Join(fs[3:], " ")})
	}
	return r
}

// ---- native side ----

type native struct {
	s    *Setup
	race bool // built with the race detector
	bin  string
	err  error
	made bool
}

func (n *native) build() error {
	if n.made {
		return n.err
	}
	n.made = true
	n.bin = filepath.Join(n.s.work, "native")
	args := []string{"build", "-overlay", n.s.ovJSON}
	cgo := "CGO_ENABLED=0"
	if n.race {
		n.bin += "-race"
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	cmd := exec.Command("go", append(args, "-o", n.bin, "./internal/vsymmain")...)
	cmd.Dir = n.s.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n.err
}

type replayRes struct {
	kind string // ok, fail, panic, hang, assume, mismatch, error
	out  string
}

func (n *native) replay(v *Violation, tmo time.Duration) replayRes {
	if err := n.build(); err != nil {
		return replayRes{"error", err.Error()}
	}
	b, _ := json.Marshal(v)
	f := filepath.Join(n.s.work, "in.json")
	os.WriteFile(f, b, 0o644)
	return runNative(n.bin, v.Harness, f, n.s.work, tmo)
}

func runNative(bin, harness, file, dir string, tmo time.Duration) replayRes {
	cmd := exec.Command(bin, harness)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VSYM_INPUT="+file, "GOMEMLIMIT=4GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var sb strings.Builder
	cmd.Stdout = &limWriter{sb: &sb}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return replayRes{"error", err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(tmo):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return replayRes{"hang", sb.String()}
	}
	out := sb.String()
	if err == nil {
		if strings.Contains(out, "VSYM-DONE") {
			return replayRes{"ok", out}
		}
		return replayRes{"exit", out + "\n(process exited without completing the harness)"}
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch code {
	case 42:
		return replayRes{"fail", out}
	case 43:
		return replayRes{"assume", out}
	case 44:
		return replayRes{"mismatch", out}
	case 45:
		return replayRes{"error", out}
	case 66:
		return replayRes{"race", out}
	case 2:
		if strings.Contains(out, "all goroutines are asleep") {
			return replayRes{"deadlock", out}
		}
		return replayRes{"panic", out}
	}
	return replayRes{"exit", fmt.Sprintf("exit code %d\n%s", code, out)}
}

type limWriter struct{ sb *strings.Builder }

func (l *limWriter) Write(b []byte) (int, error) {
	if l.sb.Len() < 1<<16 {
		l.sb.Write(b)
	}
	return len(b), nil
}

func (r replayRes) bad() bool {
	switch r.kind {
	case "fail", "panic", "hang", "deadlock", "exit", "race":
		return true
	}
	return false
}

// ---- check ----

type jobReport struct {
	Harness    string           `json:"harness"`
	Params     map[string]int   `json:"params"`
	Verdict    string           `json:"verdict"`
	Paths      int64            `json:"paths"`
	Forks      int64            `json:"forks"`
	Merges     int64            `json:"merges"`
	Instrs     int64            `json:"instructions"`
	Asserts    int64            `json:"assertions_evaluated"`
	SolverQ    int64            `json:"smt_queries"`
	AssertQ    int64            `json:"smt_assertion_queries"`
	MaxPath    int64            `json:"longest_path_instructions"`
	Reach      map[string]int64 `json:"reached"`
	Incomplete map[string]int64 `json:"incomplete,omitempty"`
	WallS      float64          `json:"wall_s"`
	Preempt    int              `json:"preemption_bound"`
	MaxSteps   int64            `json:"step_bound"`
}

func checkCmd(args []string) int {
	var prop, tier, only string
	repo := "/repo"
	root := "/verif"
	verbose := false
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-p":
			i++
			prop = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "-repo":
			i++
			repo = args[i]
		case "-root":
			i++
			root = args[i]
		case "-only":
			i++
			only = args[i]
		case "-v":
			verbose = true
		}
	}
	if tier == "" {
		tier = "quick"
	}
	t0 := time.Now()
	specs, err := readSpecs(filepath.Join(root, "checks.txt"))
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var jobs []jobSpec
	for _, s := range specs {
		if s.prop != prop || only != "" && !strings.Contains(s.line, only) {
			continue
		}
		if s.tier == "q" || s.tier == "t" && tier == "thorough" || s.tier == "Q" && tier == "quick" {
			jobs = append(jobs, s)
		}
	}
	if len(jobs) == 0 {
		fmt.Println("no jobs for", prop)
		return 3
	}
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(work)
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 45 * time.Minute
		if v := os.Getenv("VERIF_BUDGET"); v != "" {
			if n, err := strconv.Atoi(v); err == nil {
				budget = time.Duration(n) * time.Second
			}
		}
	}
	deadline := t0.Add(budget)
	known := readKnown(filepath.Join(root, "known_findings.txt"))
	openKnown = map[string]bool{}
	for _, k := range known {
		if k.prop == prop {
			openKnown[k.id] = true
		}
	}
	// group by package: one program per harness package, so that a harness
	// that no longer type-checks costs only its own jobs.
	var order []string
	byPkg := map[string][]jobSpec{}
	for _, j := range jobs {
		p := pkgOfHarness(j.harness)
		if _, ok := byPkg[p]; !ok {
			order = append(order, p)
		}
		byPkg[p] = append(byPkg[p], j)
	}
	var reps []jobReport
	var notes []string
	var viols []string
	funcs := map[string][2]int{}
	stubs := map[string]bool{}
	var samples []any
	validated := 0
	states, trans := int64(0), int64(0)
	knownHit := map[string]bool{}
	nJobs := 0
	for pi, pk := range order {
		s, err := newSetup(repo, filepath.Join(root, "harness"), filepath.Join(work, "p"+strconv.Itoa(pi)), []string{pk})
		if err != nil {
			fmt.Println(err)
			return 3
		}
		prog, err := s.load()
		if err == nil {
			err = prog.initialise(modPath+"/internal/vsymmain", bin)
		}
		if err != nil {
			n := fmt.Sprintf("harness package %s not encodable on this tree: %v", pk, err)
			fmt.Println("NOTE:", n)
			notes = append(notes, n)
			continue
		}
		nat := &native{s: s}
		natRace := &native{s: s, race: true}
		for _, js := range byPkg[pk] {
			nJobs++
			fn := prog.harnessFn(s, js.harness)
			if fn == nil {
				n := "no harness function " + js.harness
				fmt.Println("NOTE:", n)
				notes = append(notes, n)
				continue
			}
			j := &Job{prog: prog, harness: js.harness, fn: fn, params: js.params, maxSteps: 3_000_000, maxAlloc: 1 << 24, workers: 8,
				ifconv: true, merge: true, solverBin: bin, maxPreempt: 2, maxDelay: -1, maxTicks: 2, deadline: deadline}
			if v, ok := js.opts["steps"]; ok {
				j.maxSteps, _ = strconv.ParseInt(v, 10, 64)
			}
			if v, ok := js.opts["preempt"]; ok {
				j.maxPreempt, _ = strconv.Atoi(v)
			}
			if v, ok := js.opts["delay"]; ok {
				j.maxDelay, _ = strconv.Atoi(v)
			}
			if v, ok := js.opts["draws"]; ok {
				j.maxDraws, _ = strconv.Atoi(v)
			}
			if v, ok := js.opts["ticks"]; ok {
				j.maxTicks, _ = strconv.Atoi(v)
			}
			if _, ok := js.opts["spec"]; ok {
				j.specStores = true
			}
			if _, ok := js.opts["race"]; ok {
				j.races, j.ifconv, j.merge = true, false, false
			}
			if _, ok := js.opts["noif"]; ok {
				j.ifconv = false
			}
			if v, ok := js.opts["t"]; ok {
				n, _ := strconv.Atoi(v)
				if d := time.Now().Add(time.Duration(n) * time.Second); d.Before(j.deadline) {
					j.deadline = d
				}
			}
			jt := time.Now()
			q0, s0 := atomic.LoadInt64(&statQueries), atomic.LoadInt64(&statFDSat)+atomic.LoadInt64(&statFDUnsat)
			_ = s0
			j.run()
			rep := jobReport{Harness: js.harness, Params: js.params, Paths: j.paths, Forks: j.forks, Merges: j.merges, Instrs: j.instrs,
				Asserts: j.asserts, AssertQ: j.assertQ, SolverQ: atomic.LoadInt64(&statQueries) - q0, MaxPath: j.maxPath, Reach: j.reach,
				Incomplete: j.incompl, WallS: time.Since(jt).Seconds(), Preempt: j.maxPreempt, MaxSteps: j.maxSteps, Verdict: "holds within bounds"}
			if len(j.incompl) > 0 {
				rep.Verdict = "holds on the paths completed; reduced coverage"
			}
			states += j.paths
			trans += j.instrs
			for k := range j.knownHit {
				knownHit[k] = true
			}
			// candidates to confirm natively
			var cand []*Violation
			if j.viol != nil {
				cand = append(cand, j.viol)
			}
			if j.hangs != nil {
				cand = append(cand, j.hangs)
			}
			nAb := 0
			for _, a := range j.aborts {
				if nAb < 3 && !a.envDependent() {
					cand = append(cand, a)
					nAb++
				}
			}
			for _, v := range cand {
				race := strings.HasPrefix(v.Msg, raceMsg)
				var r replayRes
				if race {
					// the race detector of the compiler has to see it as well
					for k := 0; k < 5 && !r.bad(); k++ {
						r = natRace.replay(v, 20*time.Second)
					}
				} else {
					r = nat.replay(v, 20*time.Second)
				}
				confirmed := r.bad()
				if !confirmed && !race && v == j.viol && v.envDependent() {
					// schedules cannot be forced natively: the engine's own
					// deterministic re-execution is the confirmation
					confirmed = true
					r.out += "\n(interleaving-dependent: schedule in the replay file)"
				}
				if !confirmed {
					n := fmt.Sprintf("%s %v: candidate %q not reproduced natively (%s)", js.harness, js.params, v.Msg, r.kind)
					fmt.Println("NOTE:", n)
					notes = append(notes, n)
					if verbose {
						fmt.Println(v.Vals, v.Stack, r.out)
					}
					rep.Verdict = "reduced coverage: unconfirmed candidate"
					continue
				}
				os.MkdirAll(filepath.Join(root, "replays"), 0o755)
				path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", prop, len(viols)+1))
				b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "params": v.Params, "vals": v.Vals, "msg": v.Msg,
					"stack": v.Stack, "schedule": v.Trace, "native_result": r.kind, "native_output": tail(r.out, 4000)}, "", " ")
				os.WriteFile(path, b, 0o644)
				fmt.Printf("%s: %s %v\n  inputs %v\n  native replay: %s\n%s\n", v.Msg, v.Harness, v.Params, v.Vals, r.kind, tail(r.out, 1500))
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				viols = append(viols, v.Msg)
				rep.Verdict = "VIOLATION: " + v.Msg
				break
			}
			// cross-validation: completed paths run natively to completion too
			if len(viols) == 0 {
				for i, sm := range j.samples {
					if i >= 3 {
						break
					}
					v := &Violation{Harness: js.harness, Params: js.params, Vals: sm}
					if v.envDependent() {
						continue
					}
					r := nat.replay(v, 20*time.Second)
					if r.kind == "ok" {
						validated++
					} else if r.bad() {
						n := fmt.Sprintf("%s %v: a path the engine completed ends natively with %s: %s", js.harness, js.params, r.kind, tail(r.out, 600))
						fmt.Println("NOTE:", n)
						notes = append(notes, n)
					}
				}
			}
			if len(j.samples) > 0 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": js.harness, "params": js.params, "inputs": j.samples[0]})
			}
			reps = append(reps, rep)
			if verbose {
				j.report()
				fmt.Fprintf(os.Stderr, "   %.1fs verdict %s\n", rep.WallS, rep.Verdict)
			}
			if len(viols) > 0 {
				break
			}
		}
		for _, f := range prog.fns {
			if !f.compiled || f.pkg == "" || !strings.HasPrefix(f.pkg, modPath) || strings.Contains(f.pkg, "/internal/vsym") || strings.Contains(f.pkg, "/internal/vmodel") || strings.Contains(f.pkg, "/internal/vh") || strings.Contains(f.name, ".VH") {
				continue
			}
			hit := 0
			for _, c := range f.cover {
				if c > 0 {
					hit++
				}
			}
			if hit == 0 {
				continue
			}
			o := funcs[f.name]
			if hit > o[0] {
				funcs[f.name] = [2]int{hit, len(f.cover)}
			}
		}
		for k := range prog.stubsUsed() {
			stubs[k] = true
		}
		os.RemoveAll(s.work)
		if len(viols) > 0 {
			break
		}
	}
	for _, k := range known {
		if k.prop == prop && knownHit[k.id] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k.id, k.text)
		}
	}
	var fl []string
	for k, v := range funcs {
		fl = append(fl, fmt.Sprintf("%s %d/%d blocks", strings.ReplaceAll(k, modPath, "gini"), v[0], v[1]))
	}
	sort.Strings(fl)
	var stl []string
	for k := range stubs {
		stl = append(stl, k)
	}
	sort.Strings(stl)
	seed := 0
	if v := os.Getenv("VERIF_SEED"); v != "" {
		seed, _ = strconv.Atoi(v)
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"rule":              "states = completed symbolic paths (each stands for all inputs satisfying its path condition); transitions = SSA instructions executed symbolically",
			"functions_encoded": fl, "jobs": reps,
			"smt_queries": statQueries, "smt_sat": statSat, "smt_unsat": statUnsat, "smt_unknown": statUnknown, "smt_time_s": float64(statSolverNs) / 1e9,
			"finite_domain_branch_decisions": map[string]any{"sat": statFDSat, "unsat": statFDUnsat, "cross_checked_with_solver": statCross},
			"solver":                         bin, "stubs": stl, "notes": notes,
		},
		"assumptions": []string{
			"bounds are the job parameters listed under coverage.jobs; anything larger is outside the claim",
			"standard library calls outside the interpreted set are the stubs listed under coverage.stubs",
			"goroutine interleavings are explored at synchronisation operations up to the preemption bound of each job",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
	if len(viols) > 0 {
		return 1
	}
	fmt.Printf("%s: %d jobs, %d paths, %d assertions, %d solver queries, no violation (%.1fs)\n", prop, nJobs, states, sumAsserts(reps), statQueries, time.Since(t0).Seconds())
	return 0
}

func sumAsserts(r []jobReport) (n int64) {
	for _, x := range r {
		n += x.Asserts
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

var openKnown map[string]bool

// envDependent: the path depends on a schedule, a clock or a random source
// which a native replay cannot force.
func (v *Violation) envDependent() bool {
	for _, x := range v.Vals {
		switch x.N {
		case "sched", "rand", "expired":
			return true
		}
		if i := strings.IndexByte(x.N, '@'); i > 0 {
			switch x.N[:i] {
			case "sched", "rand", "expired":
				return true
			}
		}
	}
	return len(v.Trace) > 0
}

func replayCmd(args []string) int {
	repo, root := "/repo", "/verif"
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 3
	}
	v := &Violation{}
	var raw struct {
		Harness string
		Params  map[string]int
		Vals    []ndVal
		Msg     string
	}
	json.Unmarshal(b, &raw)
	v.Harness, v.Params, v.Vals, v.Msg = raw.Harness, raw.Params, raw.Vals, raw.Msg
	work, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(work)
	s, err := newSetup(repo, filepath.Join(root, "harness"), work, []string{pkgOfHarness(v.Harness)})
	if err != nil {
		fmt.Println(err)
		return 3
	}
	os.Setenv("VSYM_TRACE", "1")
	r := (&native{s: s, race: strings.HasPrefix(v.Msg, raceMsg)}).replay(v, 30*time.Second)
	fmt.Println(r.kind)
	fmt.Println(tail(r.out, 20000))
	if r.bad() {
		return 1
	}
	return 0
}
