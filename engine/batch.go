package main

// Assertions of several paths are decided by one solver query: the disjunction
// of "path condition and not assertion" over the paths. Unsat settles all of
// them; a model is a violation of one.

import (
	"fmt"
	"os"
	"sort"
	"sync/atomic"
)

const (
	batchMax  = 32
	batchSize = 400 // conjuncts
)

type pendQuery struct {
	slice []*Term // relevant part of the path condition, pinned variables replaced
	extra *Term
	key   string
	pc    []*Term
	neg   *Term // disjunction of the negated assertions
	ps    []pendAssert
	vals  []uint64 // a model of pc
	viol  *Violation
	nd    *ndEnt
}

// sliceOf returns the conjuncts of pc connected with extra by variables.
func sliceOf(pc []*Term, extra *Term) ([]*Term, []uint32) {
	sup, bloom := extra.sup, extra.bloom
	in := make([]bool, len(pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if in[i] || p.bloom&bloom == 0 || !supMeet(p.sup, sup) {
				continue
			}
			in[i] = true
			n++
			if ns := unionSup(sup, p.sup); len(ns) != len(sup) {
				sup = ns
				bloom |= p.bloom
				changed = true
			}
		}
	}
	slice := make([]*Term, 0, n)
	for i, p := range pc {
		if in[i] {
			slice = append(slice, p)
		}
	}
	return slice, sup
}

func queryKey(slice []*Term, extra *Term) string {
	ids := make([]uint32, 0, len(slice)+1)
	for _, p := range slice {
		ids = append(ids, p.id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	kb := make([]byte, 0, 4*len(ids)+4)
	last := uint32(0)
	for _, x := range append(ids, 0) {
		if x == last && x != 0 {
			continue
		}
		last = x
		kb = append(kb, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	kb = append(kb, byte(extra.id), byte(extra.id>>8), byte(extra.id>>16), byte(extra.id>>24))
	return string(kb)
}

func (w *Worker) enqueue(st *State, ps []pendAssert, neg *Term) {
	slice, sup := sliceOf(st.pc, neg)
	extra := neg
	if pins := pinsOf(slice, sup); pins != nil {
		memo := map[uint32]*Term{}
		extra = substPins(extra, pins, memo)
		if extra == TFalse {
			w.nFold++
			return
		}
		var rest []*Term
		for _, p := range slice {
			if p = substPins(p, pins, memo); p != TTrue {
				rest = append(rest, p)
			}
		}
		slice, _ = sliceOf(rest, extra)
	}
	w.assertQ++
	key := queryKey(slice, extra)
	qcMu.RLock()
	ce, ok := qcache[key]
	qcMu.RUnlock()
	if ok && !ce.sat {
		atomic.AddInt64(&statModelHits, 1)
		return
	}
	for _, q := range w.batch {
		if q.key == key {
			atomic.AddInt64(&statModelHits, 1)
			return
		}
	}
	v := &Violation{Harness: w.job.harness, Params: w.job.params}
	for e := st.trace; e != nil; e = e.prev {
		v.Trace = append(v.Trace, e.s)
	}
	for i, k := 0, len(v.Trace)-1; i < k; i, k = i+1, k-1 {
		v.Trace[i], v.Trace[k] = v.Trace[k], v.Trace[i]
	}
	if len(st.gs) > 0 && len(st.gs[st.cur].frames) > 0 {
		v.Stack = st.stackTrace()
	}
	w.batch = append(w.batch, pendQuery{slice: slice, extra: extra, key: key, pc: st.pc[:len(st.pc):len(st.pc)], neg: neg, ps: ps,
		vals: append([]uint64(nil), st.model.vals...), viol: v, nd: st.nd})
	n := 0
	for _, q := range w.batch {
		n += len(q.slice) + 8
	}
	if len(w.batch) >= batchMax || n >= batchSize {
		w.flushBatch()
	}
}

func (w *Worker) flushBatch() {
	b := w.batch
	w.batch = nil
	if len(b) == 0 || w.job.stopped() && atomic.LoadInt32(&w.job.stopAll) == 1 {
		return
	}
	all := mkBool(false)
	if len(b) > 1 {
		for _, q := range b {
			c := q.extra
			for _, p := range q.slice {
				c = mkAnd(c, p)
			}
			all = mkOr(all, c)
		}
		r, _ := w.sol.check(nil, all, false)
		if r == RUnsat {
			w.settled(b)
			return
		}
	}
	for i := range b {
		q := &b[i]
		r, m := w.sol.check(q.slice, q.extra, true)
		switch r {
		case RUnsat:
			w.settled(b[i : i+1])
			continue
		case RSat:
			// complete the model: pinned variables and unrelated ones keep
			// the values of the path's own model
			full := newModel()
			full.vals = append([]uint64(nil), q.vals...)
			var sup []uint32
			sup = q.extra.sup
			for _, p := range q.slice {
				sup = unionSup(sup, p.sup)
			}
			for _, vi := range sup {
				t := varOf(vi)
				full.set(t, m.varVal(t))
			}
			ok := full.eval(q.neg) == 1
			for _, p := range q.pc {
				ok = ok && full.eval(p) == 1
			}
			if !ok {
				w.job.incomplete("solver model rejected by evaluator")
				continue
			}
			for _, p := range q.ps {
				if full.eval(p.t) != 1 {
					q.viol.Msg = "assertion failed: " + p.msg
					break
				}
			}
			for e := q.nd; e != nil; e = e.prev {
				q.viol.Vals = append(q.viol.Vals, ndVal{e.name, full.eval(e.t)})
			}
			vs := q.viol.Vals
			for i, k := 0, len(vs)-1; i < k; i, k = i+1, k-1 {
				vs[i], vs[k] = vs[k], vs[i]
			}
			j := w.job
			j.mu.Lock()
			if j.viol == nil {
				j.viol = q.viol
			}
			j.mu.Unlock()
			atomic.StoreInt32(&j.stopAll, 1)
			return
		default:
			for _, p := range q.ps {
				w.job.incomplete("solver unknown on assertion " + p.msg)
			}
			if os.Getenv("ENG_V") != "" {
				fmt.Fprintln(os.Stderr, "unknown:", q.extra)
			}
		}
	}
}

func (w *Worker) settled(b []pendQuery) {
	atomic.AddInt64(&statSettled, int64(len(b)))
	qcMu.Lock()
	if len(qcache) > 2000000 {
		qcache = map[string]qent{}
	}
	for _, q := range b {
		qcache[q.key] = qent{}
	}
	qcMu.Unlock()
}

// statSettled counts assertion groups proved by the solver.
var statSettled int64
