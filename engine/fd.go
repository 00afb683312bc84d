package main

// Finite-domain pre-decision: truth tables of terms over few small variables,
// arc consistency over the conjuncts of a query. It only ever answers "no
// assignment" (sound: it works on a relaxation of the query) or "here is a
// full assignment of the connected variables" (checked by evaluation).
// Everything else goes to the SMT solver.

import (
	"sync"
	"sync/atomic"
)

const fdNodes = 40

const ttMax = 1024 // largest product of domains tabulated

type ttab struct {
	vars []uint32
	dims []int
	bits []uint64
	n    int
	bad  bool
}

var ttCache sync.Map // term id -> *ttab

var (
	statFDUnsat int64
	statFDSat   int64
)

func ttOf(t *Term) *ttab {
	if v, ok := ttCache.Load(t.id); ok {
		return v.(*ttab)
	}
	r := &ttab{vars: t.sup, n: 1}
	for _, vi := range t.sup {
		x := varOf(vi)
		d := x.hi - x.lo + 1
		if d == 0 || d > ttMax {
			r.bad = true
			break
		}
		r.dims = append(r.dims, int(d))
		r.n *= int(d)
		if r.n > ttMax {
			r.bad = true
			break
		}
	}
	if !r.bad {
		r.bits = make([]uint64, (r.n+63)/64)
		m := newModel()
		vs := make([]*Term, len(t.sup))
		for i, vi := range t.sup {
			vs[i] = varOf(vi)
		}
		for k := 0; k < r.n; k++ {
			q := k
			for i, x := range vs {
				m.set(x, x.lo+uint64(q%r.dims[i]))
				q /= r.dims[i]
			}
			clear(m.memo)
			if m.eval(t) == 1 {
				r.bits[k>>6] |= 1 << (k & 63)
			}
		}
	}
	ttCache.Store(t.id, r)
	return r
}

func (t *ttab) get(k int) bool { return t.bits[k>>6]>>(k&63)&1 == 1 }

type fdDom struct {
	vi   uint32
	lo   uint64
	n    int
	bits []uint64
	cnt  int
}

func (d *fdDom) has(k int) bool { return d.bits[k>>6]>>(k&63)&1 == 1 }

// fdDecide returns RUnsat when the conjunction has no solution, RSat with
// values for the variables of the connected component, or RUnknown.
func fdDecide(slice []*Term, extra *Term, sup []uint32) (SatRes, map[uint32]uint64) {
	et := ttOf(extra)
	doms := make(map[uint32]*fdDom, len(sup))
	for _, vi := range sup {
		x := varOf(vi)
		n := x.hi - x.lo + 1
		if n == 0 || n > ttMax {
			continue
		}
		d := &fdDom{vi: vi, lo: x.lo, n: int(n), bits: make([]uint64, (n+63)/64), cnt: int(n)}
		for k := 0; k < d.n; k++ {
			d.bits[k>>6] |= 1 << (k & 63)
		}
		doms[vi] = d
	}
	tabs := make([]*ttab, 0, len(slice)+1)
	var hard []*Term // conjuncts without a table
	if et.bad {
		hard = append(hard, extra)
	} else {
		tabs = append(tabs, et)
	}
	for _, p := range slice {
		tt := ttOf(p)
		if tt.bad {
			hard = append(hard, p)
			continue
		}
		tabs = append(tabs, tt)
	}
	revise := func(tt *ttab) (changed, empty bool) {
		if len(tt.vars) == 1 {
			d := doms[tt.vars[0]]
			for i := range d.bits {
				nb := d.bits[i] & tt.bits[i]
				if nb != d.bits[i] {
					d.bits[i] = nb
					changed = true
				}
			}
			if changed {
				d.cnt = 0
				for k := 0; k < d.n; k++ {
					if d.has(k) {
						d.cnt++
					}
				}
				return true, d.cnt == 0
			}
			return false, d.cnt == 0
		}
		var buf [8]*fdDom
		ds := buf[:0]
		for _, vi := range tt.vars {
			ds = append(ds, doms[vi])
		}
		sups := make([][]uint64, len(ds))
		for i, d := range ds {
			sups[i] = make([]uint64, len(d.bits))
		}
		idx := make([]int, len(ds))
	outer:
		for k := 0; k < tt.n; k++ {
			if !tt.get(k) {
				continue
			}
			q := k
			for i := range ds {
				idx[i] = q % tt.dims[i]
				q /= tt.dims[i]
				if !ds[i].has(idx[i]) {
					continue outer
				}
			}
			for i := range ds {
				sups[i][idx[i]>>6] |= 1 << (idx[i] & 63)
			}
		}
		for i, d := range ds {
			for w := range d.bits {
				if nb := d.bits[w] & sups[i][w]; nb != d.bits[w] {
					d.bits[w] = nb
					changed = true
				}
			}
			d.cnt = 0
			for k := 0; k < d.n; k++ {
				if d.has(k) {
					d.cnt++
				}
			}
			if d.cnt == 0 {
				empty = true
			}
		}
		return
	}
	fix := func() bool { // false when a domain is empty
		for round := 0; round < 8; round++ {
			ch := false
			for _, tt := range tabs {
				c, e := revise(tt)
				if e {
					return false
				}
				ch = ch || c
			}
			if !ch {
				break
			}
		}
		return true
	}
	if !fix() {
		atomic.AddInt64(&statFDUnsat, 1)
		return RUnsat, nil
	}
	if len(doms) != len(sup) {
		return RUnknown, nil
	}
	// bounded backtracking search
	nodes := 0
	m := newModel()
	found := false
	gaveUp := false
	var rec func()
	rec = func() {
		nodes++
		if nodes > fdNodes {
			gaveUp = true
			return
		}
		var pick *fdDom
		for _, vi := range sup {
			d := doms[vi]
			if d.cnt > 1 && (pick == nil || d.cnt < pick.cnt) {
				pick = d
			}
		}
		if pick == nil {
			for _, vi := range sup {
				d := doms[vi]
				for k := 0; k < d.n; k++ {
					if d.has(k) {
						m.set(varOf(vi), d.lo+uint64(k))
					}
				}
			}
			clear(m.memo)
			for _, p := range hard {
				if m.eval(p) != 1 {
					return
				}
			}
			found = true
			return
		}
		save := make([][]uint64, len(sup))
		cnts := make([]int, len(sup))
		for i, vi := range sup {
			save[i] = append([]uint64(nil), doms[vi].bits...)
			cnts[i] = doms[vi].cnt
		}
		opts := append([]uint64(nil), pick.bits...)
		for k := 0; k < pick.n; k++ {
			if opts[k>>6]>>(k&63)&1 == 0 {
				continue
			}
			for i := range pick.bits {
				pick.bits[i] = 0
			}
			pick.bits[k>>6] |= 1 << (k & 63)
			pick.cnt = 1
			if fix() {
				rec()
				if found || gaveUp {
					return
				}
			}
			for i, vi := range sup {
				copy(doms[vi].bits, save[i])
				doms[vi].cnt = cnts[i]
			}
		}
	}
	rec()
	if gaveUp {
		return RUnknown, nil
	}
	if !found {
		atomic.AddInt64(&statFDUnsat, 1)
		return RUnsat, nil
	}
	r := make(map[uint32]uint64, len(sup))
	for _, vi := range sup {
		r[vi] = m.varVal(varOf(vi))
	}
	atomic.AddInt64(&statFDSat, 1)
	return RSat, r
}
