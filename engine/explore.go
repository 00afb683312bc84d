package main

// Exploration: jobs, workers, verdicts.

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Msg     string         `json:"msg"`
	Vals    []ndVal        `json:"vals"`
	Stack   []string       `json:"stack"`
	Trace   []string       `json:"schedule,omitempty"`
	Hang    bool           `json:"hang,omitempty"`
}

type ndVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type Job struct {
	prog    *Prog
	harness string
	fn      *Fn
	params  map[string]int

	maxSteps   int64
	maxAlloc   int
	maxPreempt int
	maxTicks   int
	maxDelay   int // schedules which pass over goroutines so often, -1 is preemption bounding
	maxDraws   int // random values on a path, 0 is any number
	ifconv     bool
	specStores bool
	merge      bool
	races      bool
	noFD       bool
	traceForks bool
	verbose    int
	workers    int
	deadline   time.Time
	solverBin  string

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*State
	idle    int
	done    bool
	stopAll int32

	paths      int64
	infeasible int64
	aborted    int64
	subpaths   int64
	forks      int64
	merges     int64
	mergedIn   int64
	mergedOut  int64
	instrs     int64
	asserts    int64
	assertQ    int64
	maxPath    int64
	reach      map[string]int64
	incompl    map[string]int64
	viol       *Violation
	hangs      *Violation
	aborts     []*Violation
	knownHit   map[string]bool
	hot        map[string]int64
	samples    [][]ndVal
}

type Worker struct {
	job     *Job
	sol     *Solver
	stack   []*State
	inMerge bool
	instrs  int64
	asserts int64
	assertQ int64
	nFD     int64
	nFold   int64 // assertions which constant propagation alone decided
	models  []*Model
	batch   []pendQuery
}

func (j *Job) stopped() bool { return atomic.LoadInt32(&j.stopAll) != 0 }

func (j *Job) hotAdd(s string) {
	j.mu.Lock()
	j.hot[s]++
	j.mu.Unlock()
}

func (j *Job) noteMerge(in, out int) {
	atomic.AddInt64(&j.merges, 1)
	atomic.AddInt64(&j.mergedIn, int64(in))
	atomic.AddInt64(&j.mergedOut, int64(out))
}

func (j *Job) incomplete(why string) {
	j.mu.Lock()
	j.incompl[why]++
	j.mu.Unlock()
}

func (j *Job) reached(tag string) {
	j.mu.Lock()
	j.reach[tag]++
	j.mu.Unlock()
}

func (w *Worker) push(s *State) {
	s.wk = nil
	if w.inMerge {
		w.stack = append(w.stack, s)
		return
	}
	j := w.job
	if len(w.stack) > 0 || true {
		// donate when others starve
		j.mu.Lock()
		if j.idle > len(j.queue) {
			j.queue = append(j.queue, s)
			j.cond.Signal()
			j.mu.Unlock()
			return
		}
		j.mu.Unlock()
	}
	w.stack = append(w.stack, s)
}

// query decides pc /\ extra. Only the conjuncts connected with extra through
// shared variables are considered: the rest is satisfied by the state's model.
func (w *Worker) query(st *State, extra *Term) (SatRes, *Model) { return w.decide(st, extra, false) }

// decide: final=true for assertions, whose unsatisfiability is always
// established by the SMT solver.
func (w *Worker) decide(st *State, extra *Term, final bool) (SatRes, *Model) {
	slice, sup := sliceOf(st.pc, extra)
	extend := func(part func(v *Term) uint64) *Model {
		m := newModel()
		m.vals = append([]uint64(nil), st.model.vals...)
		for _, vi := range sup {
			t := varOf(vi)
			m.set(t, part(t))
		}
		return m
	}
	if !w.job.noFD {
		r, vals := fdDecide(slice, extra, sup)
		if r == RUnsat && !final {
			w.nFD++
			if w.nFD%w.job.crossCheck() != 0 {
				return RUnsat, nil
			}
			// cross-check a sample of the table verdicts with the solver
			if r2, _ := w.sol.check(slice, extra, false); r2 == RSat {
				fmt.Fprintln(os.Stderr, "ENGINE BUG: finite-domain verdict contradicts the solver")
				w.job.incomplete("finite-domain verdict contradicts the solver")
				return RUnknown, nil
			}
			atomic.AddInt64(&statCross, 1)
			return RUnsat, nil
		}
		if r == RSat {
			m := extend(func(v *Term) uint64 { return vals[uint32(v.val)] })
			ok := m.eval(extra) == 1
			for _, p := range slice {
				ok = ok && m.eval(p) == 1
			}
			if ok {
				return RSat, m
			}
		}
	}
	// cache
	key := queryKey(slice, extra)
	qcMu.RLock()
	ce, ok := qcache[key]
	qcMu.RUnlock()
	if ok {
		atomic.AddInt64(&statModelHits, 1)
		if !ce.sat {
			if dbgInv {
				r2, _ := w.sol.check(slice, extra, false)
				if r2 != RUnsat {
					fmt.Println("CACHE WRONG", extra.id)
				}
			}
			return RUnsat, nil
		}
		m := newModel()
		m.vals = ce.vals
		return RSat, extend(m.varVal)
	}
	// recent models
	for i := len(w.models) - 1; i >= 0; i-- {
		m := w.models[i]
		if m.eval(extra) != 1 {
			continue
		}
		ok := true
		for k := len(slice) - 1; k >= 0; k-- {
			if m.eval(slice[k]) != 1 {
				ok = false
				break
			}
		}
		if ok {
			atomic.AddInt64(&statModelHits, 1)
			return RSat, extend(m.varVal)
		}
	}
	r, m := w.sol.check(slice, extra, true)
	if r == RSat {
		m = extend(m.varVal)
		// paranoia: the model must satisfy the query under our own evaluator
		bad := m.eval(extra) != 1
		for _, p := range st.pc {
			if m.eval(p) != 1 {
				bad = true
			}
		}
		if bad {
			w.job.incomplete("solver model rejected by evaluator")
			return RUnknown, nil
		}
		w.models = append(w.models, m)
		if len(w.models) > 24 {
			w.models = append([]*Model(nil), w.models[8:]...)
		}
	}
	if dbgInv && r == RUnsat {
		r2, _ := w.sol.check(nil, nil, false)
		r2, _ = w.sol.check(slice, extra, false)
		if r2 != RUnsat {
			fmt.Println("SOLVER WRONG", extra.id)
		}
	}
	if r != RUnknown {
		e := qent{sat: r == RSat}
		if e.sat {
			e.vals = m.vals
		}
		qcMu.Lock()
		if len(qcache) > 2000000 {
			qcache = map[string]qent{}
		}
		qcache[key] = e
		qcMu.Unlock()
	}
	return r, m
}

var statCross int64

func (j *Job) crossCheck() int64 { return 1000 }

type qent struct {
	sat  bool
	vals []uint64
}

var (
	qcMu   sync.RWMutex
	qcache = map[string]qent{}
)

var statModelHits int64

func (st *State) values(m *Model) []ndVal {
	var r []ndVal
	for e := st.nd; e != nil; e = e.prev {
		var v uint64
		v = m.eval(e.t)
		r = append(r, ndVal{e.name, v})
	}
	for i, k := 0, len(r)-1; i < k; i, k = i+1, k-1 {
		r[i], r[k] = r[k], r[i]
	}
	return r
}

func (st *State) mkViol(msg string, m *Model) *Violation {
	if m == nil {
		m = st.model
	}
	v := &Violation{Harness: st.wk.job.harness, Params: st.wk.job.params, Msg: msg, Vals: st.values(m)}
	if len(st.gs) > 0 && len(st.gs[st.cur].frames) > 0 {
		v.Stack = st.stackTrace()
	}
	for e := st.trace; e != nil; e = e.prev {
		v.Trace = append(v.Trace, e.s)
	}
	for i, k := 0, len(v.Trace)-1; i < k; i, k = i+1, k-1 {
		v.Trace[i], v.Trace[k] = v.Trace[k], v.Trace[i]
	}
	return v
}

func (w *Worker) violation(st *State, msg string, m *Model) {
	st.end(fViolation, msg)
	v := st.mkViol(msg, m)
	j := w.job
	j.mu.Lock()
	if j.viol == nil {
		j.viol = v
	}
	j.mu.Unlock()
	atomic.StoreInt32(&j.stopAll, 1)
}

// hang records a path that exceeded the step bound; it becomes a violation
// only if the native replay does not terminate either.
func (w *Worker) hang(st *State) {
	v := st.mkViol("step bound exceeded (possible non-termination)", nil)
	v.Hang = true
	j := w.job
	j.mu.Lock()
	if j.hangs == nil {
		j.hangs = v
	}
	j.mu.Unlock()
}

func (w *Worker) hugeAlloc(st *State, n uint64) {}

func (j *Job) addPath(s *State, sub bool) {
	if sub {
		atomic.AddInt64(&j.subpaths, 1)
		if s.flag == fEnd {
			return
		}
	}
	switch s.flag {
	case fEnd:
		n := atomic.AddInt64(&j.paths, 1)
		if n <= 3 {
			j.mu.Lock()
			j.samples = append(j.samples, s.values(s.model))
			j.mu.Unlock()
		}
	case fInfeasible:
		atomic.AddInt64(&j.infeasible, 1)
	case fAbort:
		if s.endWhy == "stopped" {
			return
		}
		atomic.AddInt64(&j.aborted, 1)
		j.incomplete(s.endWhy)
		v := s.mkViol("path not completed: "+s.endWhy, nil)
		j.mu.Lock()
		if len(j.aborts) < 4 {
			j.aborts = append(j.aborts, v)
		}
		j.mu.Unlock()
	}
	for {
		m := atomic.LoadInt64(&j.maxPath)
		if s.steps <= m || atomic.CompareAndSwapInt64(&j.maxPath, m, s.steps) {
			break
		}
	}
	atomic.AddInt64(&j.instrs, s.steps&0xfff)
}

func (w *Worker) loop() {
	j := w.job
	for {
		var s *State
		if len(w.stack) > 0 {
			s = w.stack[len(w.stack)-1]
			w.stack = w.stack[:len(w.stack)-1]
		} else {
			j.mu.Lock()
			j.idle++
			for len(j.queue) == 0 && !j.done {
				if j.idle == j.workers {
					j.done = true
					j.cond.Broadcast()
					break
				}
				j.cond.Wait()
			}
			if j.done && len(j.queue) == 0 {
				j.mu.Unlock()
				w.flushBatch()
				return
			}
			j.idle--
			s = j.queue[0]
			j.queue = j.queue[1:]
			j.mu.Unlock()
			// models are not shared between workers
			m := newModel()
			m.vals = append([]uint64(nil), s.model.vals...)
			s.model = m
		}
		if j.stopped() {
			continue
		}
		if !j.deadline.IsZero() && time.Now().After(j.deadline) {
			j.incomplete("time budget exhausted")
			atomic.StoreInt32(&j.stopAll, 2)
			continue
		}
		if termCount.Load() > maxTerms {
			j.incomplete("term budget exhausted")
			atomic.StoreInt32(&j.stopAll, 2)
			continue
		}
		s.wk = w
		s.run()
		j.addPath(s, false)
		atomic.AddInt64(&j.instrs, w.instrs)
		atomic.AddInt64(&j.asserts, w.asserts)
		atomic.AddInt64(&j.assertQ, w.assertQ)
		w.instrs, w.asserts, w.assertQ = 0, 0, 0
	}
}

func (j *Job) run() {
	forgetTerms()
	j.reach = map[string]int64{}
	j.incompl = map[string]int64{}
	j.cond = sync.NewCond(&j.mu)
	if j.workers == 0 {
		j.workers = 8
	}
	st := j.prog.initSt.clone()
	st.flag = fRun
	st.endWhy = ""
	st.steps = 0
	st.model = newModel()
	g := &Goro{id: 0}
	st.gs = []*Goro{g}
	st.cur = 0
	w0 := &Worker{job: j}
	st.wk = w0
	st.pushFrame(g, j.fn, nil, nil, -1, false)
	j.queue = []*State{st}
	var wg sync.WaitGroup
	for i := 0; i < j.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{job: j, sol: getSolver(j.solverBin)}
			w.loop()
			putSolver(w.sol)
		}()
	}
	wg.Wait()
}

var (
	solMu   sync.Mutex
	solPool = map[string][]*Solver{}
)

func getSolver(bin string) *Solver {
	solMu.Lock()
	if p := solPool[bin]; len(p) > 0 {
		s := p[len(p)-1]
		solPool[bin] = p[:len(p)-1]
		solMu.Unlock()
		return s
	}
	solMu.Unlock()
	return newSolver(bin)
}

func putSolver(s *Solver) {
	solMu.Lock()
	solPool[s.bin] = append(solPool[s.bin], s)
	solMu.Unlock()
}

func (j *Job) report() {
	fmt.Fprintf(os.Stderr, "[%s %v] paths %d infeasible %d aborted %d sub %d forks %d instrs %d maxpath %d asserts %d(%dq) reach %v merges %d(%d->%d)\n", j.harness, j.params, j.paths, j.infeasible, j.aborted, j.subpaths, j.forks, j.instrs, j.maxPath, j.asserts, j.assertQ, j.reach, j.merges, j.mergedIn, j.mergedOut)
	for k, v := range j.incompl {
		fmt.Fprintf(os.Stderr, "   incomplete: %s (%d)\n", k, v)
	}
	if j.hot != nil {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range j.hot {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(a, b int) bool { return l[a].v > l[b].v })
		for i, e := range l {
			if i > 15 {
				break
			}
			fmt.Fprintf(os.Stderr, "   fork site %6d %s\n", e.v, e.k)
		}
	}
}
