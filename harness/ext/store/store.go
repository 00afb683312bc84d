package store

// Clause storage: adding, growing, removing, compacting, collecting learnt
// clauses.

import (
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("store.Data", Data)
	vsym.Register("store.Gc", Gc)
}

type cls struct {
	at     z.C
	ms     []z.Lit
	learnt bool
	lbd    int
}

var sizes = [][]int{
	{0, 1, 2, 3},
	{1, 2, 31, 32, 33},
	{2, 3, 63, 64, 65},
	{30, 31, 32, 95, 96, 97},
}

// Data: CDat against a list of clauses.
func Data() {
	rounds, per := vsym.P("rounds", 2), vsym.P("n", 3)
	sz := sizes[vsym.P("sizes", 0)]
	d := xo.NewCDat(vsym.P("cap", 3))
	var cs []cls
	next := 2
	for r := 0; r < rounds; r++ {
		for i := 0; i < per; i++ {
			n := sz[vsym.Choose("size", len(sz))]
			c := cls{learnt: (i+r)%2 == 1, lbd: (7*i + r) % 16}
			if i == vsym.P("lbd", -1) {
				c.lbd = vsym.Int("lbd", 0, 15)
				c.learnt = vsym.Bool("learnt")
			}
			for j := 0; j < n; j++ {
				c.ms = append(c.ms, z.Lit(next))
				next++
			}
			c.at = d.AddLits(xo.MakeChd(c.learnt, c.lbd, n), append([]z.Lit(nil), c.ms...))
			cs = append(cs, c)
			if vsym.P("bump", 0) == 1 {
				d.Bump(cs[vsym.Choose("bump", len(cs))].at)
				d.Decay()
			}
		}
		agree(d, cs)
		// remove any of them
		var rm []z.C
		var keep []cls
		gone := map[z.C]bool{}
		for _, c := range cs {
			if vsym.Choose("remove", 2) == 1 {
				rm = append(rm, c.at)
				gone[c.at] = true
			} else {
				keep = append(keep, c)
			}
		}
		lits := d.Len
		m, freed := d.Compact(rm)
		want := 0
		for _, c := range cs {
			to, moved := m[c.at]
			if gone[c.at] {
				vsym.Assert(moved && to == xo.CNull, "a removed clause is mapped to null")
				want += len(c.ms) + 2
			}
		}
		vsym.Assert(freed == want && d.Len == lits-want, "compaction frees the space of the clauses removed")
		for i := range keep {
			if to, moved := m[keep[i].at]; moved {
				keep[i].at = to
			}
		}
		cs = keep
		agree(d, cs)
		o := d.Copy()
		o.AddLits(xo.MakeChd(false, 0, 1), []z.Lit{2})
		agree(d, cs)
		if vsym.Choose("copy", 2) == 1 {
			d = d.Copy()
		}
	}
	vsym.Reach("end")
}

func agree(d *xo.CDat, cs []cls) {
	vsym.Assert(d.ClsLen == len(cs), "number of clauses")
	seen := 0
	d.Forall(func(i int, p z.C, ms []z.Lit) {
		vsym.Assert(i == seen && i < len(cs), "every clause is visited once")
		c := cs[i]
		seen++
		vsym.Assert(p == c.at, "clauses are where they were put")
		vsym.Assert(same(ms, c.ms), "clauses keep their literals")
		h := d.Chd(p)
		vsym.Assert(h.Learnt() == c.learnt, "clauses stay added or learnt")
		vsym.Assert(int(h.Lbd()) == c.lbd, "clauses keep their lbd")
		vsym.Assert(int(h.Size()) == len(c.ms)%32, "clauses keep their size")
	})
	vsym.Assert(seen == len(cs), "every clause is visited")
	for _, c := range cs {
		vsym.Assert(same(d.Load(c.at, nil), c.ms), "clauses load their literals")
	}
}

func same(a, b []z.Lit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type cnf [][]z.Lit

func holds(a []bool, m z.Lit) bool {
	r := false
	for v := 1; v < len(a); v++ {
		p := z.Var(v).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, a[v]), vsym.And(m == p.Not(), vsym.Not(a[v]))))
	}
	return r
}

func clauseHolds(a []bool, c []z.Lit) bool {
	k := false
	for _, m := range c {
		k = vsym.Or(k, holds(a, m))
	}
	return k
}

func allHold(a []bool, f cnf) bool {
	r := true
	for _, c := range f {
		r = vsym.And(r, clauseHolds(a, c))
	}
	return r
}

func any(nv int) []bool {
	a := make([]bool, nv+1)
	for v := 1; v <= nv; v++ {
		a[v] = vsym.Bool("a")
	}
	return a
}

type world struct {
	s           *xo.S
	nv          int
	last, last2 z.Lit // variables which are true
	nlearnt     int
	filled      int // clauses learnt by the harness

	f    cnf
	as   []z.Lit
	pend []z.Lit
	lvls []int
}

func (w *world) add(ms ...z.Lit) {
	for _, m := range ms {
		w.s.Add(m)
	}
	w.s.Add(z.LitNull)
	w.f = append(w.f, ms)
}

// ripe makes the collection of learnt clauses due after k more of them. The
// clauses learnt are implied by the clauses added.
func (w *world) ripe(k, n int) {
	ms := []z.Lit{w.last}
	if vsym.P("fill", 3) == 3 {
		ms = []z.Lit{w.last, w.last2, z.Var(1).Pos()}
	}
	lbd := vsym.P("flbd", 1)
	for i := w.filled; i < n-k; i++ {
		w.s.Cdb.Learn(ms, lbd)
	}
	w.filled = 0
	w.nlearnt = len(w.s.Cdb.Learnts)
}

// consistent checks the stored clauses, watches and reasons.
func (w *world) consistent() {
	s := w.s
	a := any(w.nv)
	var cs cnf
	s.Cdb.ForallAdded(func(p z.C, h xo.Chd, ms []z.Lit) {
		c := append([]z.Lit(nil), ms...)
		cs = append(cs, c)
	})
	vsym.Assert(vsym.Iff(allHold(a, cs), allHold(a, w.f)), "the clauses stored are those added")
	var ls cnf
	s.Cdb.ForallLearnts(func(p z.C, h xo.Chd, ms []z.Lit) {
		if len(ms) > 0 && ms[0] == w.last {
			return
		}
		ls = append(ls, append([]z.Lit(nil), ms...))
	})
	vsym.Assert(vsym.Implies(allHold(a, w.f), allHold(a, ls)), "the learnt clauses are implied")
	if len(ls) > 0 {
		vsym.Reach("learnt")
	}
	for v := z.Var(1); int(v) <= w.nv; v++ {
		p := s.Vars.Reasons[v]
		if p == xo.CNull || s.Vars.Vals[v.Pos()] == 0 {
			continue
		}
		ms := s.Cdb.Lits(p, nil)
		vsym.Assert(len(ms) > 0 && ms[0].Var() == v && s.Vars.Vals[ms[0]] == 1, "the reason of a literal starts with it")
		for _, m := range ms[1:] {
			vsym.Assert(s.Vars.Vals[m] == -1, "the other literals of a reason are false")
		}
	}
}

// Gc: a script, parameter s, of a solver with collections of learnt clauses:
// 1 add 2 assume 3 solve 4 test 5 untest 6 a collection is due right now
// 7 a collection is due after k more learnt clauses 8 continue with a copy
// 9 collect now
func Gc() {
	nv := vsym.P("nv", 4)
	w := &world{nv: nv + 2, s: xo.NewSVc(vsym.P("vcap", 3), 3)}
	w.last, w.last2 = z.Var(nv+1).Pos(), z.Var(nv+2).Pos()
	x := uint32(vsym.P("seed", 1))
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % k
	}
	w.add(w.last)
	w.add(w.last2)
	for i := 0; i < vsym.P("base", 0); i++ {
		var c []z.Lit
		width := vsym.P("bw", 3)
		if width == 0 {
			// clauses of different sizes, with learnt ones in between which
			// are collected first
			width = 2 + i*i%4
			fill := []z.Lit{w.last, w.last2, z.Var(1).Pos(), z.Var(2).Pos(), z.Var(3).Neg(), z.Var(4).Pos()}
			for j := 0; j < 1+i%2; j++ {
				w.s.Cdb.Learn(fill[:3+(i+j*j)%4], 15)
				w.filled++
			}
		}
		for len(c) < width {
			v := z.Var(1 + rnd(nv))
			dup := false
			for _, m := range c {
				dup = dup || m.Var() == v
			}
			if dup {
				continue
			}
			m := v.Pos()
			if rnd(2) == 1 {
				m = m.Not()
			}
			c = append(c, m)
		}
		w.add(c...)
	}
	lit := func(name string) z.Lit { return z.Lit(vsym.Conc(vsym.Int(name, 2, 2*nv+1))) }
	script := vsym.P("s", 3)
	p10 := 1
	for p10*10 <= script {
		p10 *= 10
	}
	dead := false
	mult, nripe := 1, 0
	for ; p10 > 0; p10 /= 10 {
		switch op := script / p10 % 10; op {
		case 1:
			w.add(lit("cl"), lit("cl"))
		case 2:
			m := lit("as")
			w.s.Assume(m)
			w.pend = append(w.pend, m)
		case 3:
			as := append(append([]z.Lit(nil), w.as...), w.pend...)
			w.pend = nil
			r := w.s.Solve()
			dead = r == -1 && len(w.lvls) > 0
			if len(w.s.Cdb.Learnts) < w.nlearnt {
				vsym.Reach("collected")
				w.nlearnt = 0
			}
			w.judge(r, as)
		case 4:
			if dead {
				vsym.Assume(false)
			}
			w.lvls = append(w.lvls, len(w.as))
			w.as = append(w.as, w.pend...)
			w.pend = nil
			r, out := w.s.Test(make([]z.Lit, 0, 8))
			dead = r == -1
			if r >= 0 {
				w.reasons(out)
			} else {
				a := any(w.nv)
				vsym.Assert(vsym.Not(vsym.And(allHold(a, w.f), allTrue(a, w.as))), "Test answering -1 is right")
			}
		case 5:
			n := w.lvls[len(w.lvls)-1]
			w.lvls = w.lvls[:len(w.lvls)-1]
			w.as = w.as[:n]
			dead = w.s.Untest() == -1
			if dead {
				a := any(w.nv)
				vsym.Assert(vsym.Not(vsym.And(allHold(a, w.f), allTrue(a, w.as))), "Untest answering -1 is right")
			}
		case 6, 7:
			k := 0
			if op == 7 {
				k = vsym.P("k", 2)
			}
			w.ripe(k, 2048*mult)
			if nripe++; nripe%3 == 2 {
				mult = 2
			}
		case 8:
			w.s = w.s.Copy()
		case 9:
			if n, _, _ := w.s.Cdb.MaybeCompact(); n > 0 {
				vsym.Reach("collected")
			}
		}
		w.consistent()
	}
	vsym.Reach("end")
}

func allTrue(a []bool, ms []z.Lit) bool {
	r := true
	for _, m := range ms {
		r = vsym.And(r, holds(a, m))
	}
	return r
}

func (w *world) judge(r int, as []z.Lit) {
	a := any(w.nv)
	switch r {
	case 1:
		vsym.Reach("sat")
		for v := 1; v <= w.nv; v++ {
			a[v] = w.s.Value(z.Var(v).Pos())
		}
		vsym.Assert(vsym.And(allHold(a, w.f), allTrue(a, as)), "model satisfies clauses and assumptions")
	case -1:
		vsym.Reach("unsat")
		vsym.Assert(vsym.Not(vsym.And(allHold(a, w.f), allTrue(a, as))), "unsatisfiable answer is right")
		if len(as) > 0 {
			ws := w.s.Why(nil)
			for _, x := range ws {
				in := false
				for _, m := range as {
					in = vsym.Or(in, x == m)
				}
				vsym.Assert(in, "reason is made of assumptions")
			}
			vsym.Assert(vsym.Not(vsym.And(allHold(a, w.f), allTrue(a, ws))), "reason is sufficient")
		}
	default:
		vsym.Fail("solve answers 1 or -1")
	}
}

func (w *world) reasons(out []z.Lit) {
	for _, m := range out {
		rs := w.s.Reasons(nil, m)
		if len(rs) == 0 {
			continue
		}
		a := any(w.nv)
		vsym.Assert(vsym.Implies(vsym.And(allHold(a, w.f), allTrue(a, rs)), holds(a, m)), "reasons imply the literal")
	}
}
