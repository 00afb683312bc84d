package circ

// Circuits: construction, hashing, evaluation, conversion to clauses,
// cardinality networks, unrolling.

import (
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("circ.Gates", Gates)
	vsym.Register("circ.Hash", Hash)
	vsym.Register("circ.Eval", Eval)
	vsym.Register("circ.Cnf", Cnf)
	vsym.Register("circ.Card", Card)
	vsym.Register("circ.Unroll", Unroll)
}

// at is the value of m.
func at(vs []bool, m z.Lit) bool {
	if m.IsPos() {
		return vs[m.Var()]
	}
	return vsym.Not(vs[m.Var()])
}

func xor(a, b bool) bool { return vsym.Not(vsym.Iff(a, b)) }

// rnd is a fixed pseudo random sequence.
type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>8) % k
}

// pool: literals made so far and what they should be.
type pool struct {
	c  *logic.C
	ms []z.Lit
	vs []bool // expected values of ms
	r  rnd

	log  []step // how ms were made, where operands were chosen
	last []int  // what was chosen since
}

// step: a gate of kind k of operands, which are indices, doubled, in the pool,
// the lowest bit tells whether they are negated. No operands, no gate.
type step struct {
	k  int
	os []int
}

func newPool(c *logic.C, nin int) *pool {
	p := &pool{c: c, r: rnd(vsym.P("seed", 1))}
	p.put(c.T, true)
	for i := 0; i < nin; i++ {
		p.put(c.Lit(), vsym.Bool("in"))
	}
	return p
}

func (p *pool) put(m z.Lit, v bool) {
	p.ms = append(p.ms, m)
	p.vs = append(p.vs, v)
	p.log = append(p.log, step{})
}

// redo computes the values of the gates in the pool anew, where vs has those
// of what isn't a gate.
func (p *pool) redo(vs []bool) {
	for i, s := range p.log {
		var os []bool
		for _, o := range s.os {
			os = append(os, xor(vs[o>>1], o&1 == 1))
		}
		switch s.k {
		case 0:
		case 1:
			vs[i] = vsym.And(os[0], os[1])
		case 2:
			vs[i] = vsym.Or(os[0], os[1])
		case 3:
			vs[i] = xor(os[0], os[1])
		case 4:
			vs[i] = vsym.Implies(os[0], os[1])
		case 5:
			vs[i] = vsym.IteB(os[0], os[1], os[2])
		case 6:
			vs[i] = true
			for _, o := range os {
				vs[i] = vsym.And(vs[i], o)
			}
		case 7:
			vs[i] = false
			for _, o := range os {
				vs[i] = vsym.Or(vs[i], o)
			}
		}
	}
}

// pick an operand: any literal of the pool or its negation.
func (p *pool) pick(any bool) (z.Lit, bool) {
	var k int
	if any {
		k = vsym.Int("operand", 0, 2*len(p.ms)-1)
	} else {
		k = p.r.n(2 * len(p.ms))
	}
	if !any {
		p.last = append(p.last, k)
		m, v := p.ms[k/2], p.vs[k/2]
		if k%2 == 1 {
			return m.Not(), vsym.Not(v)
		}
		return m, v
	}
	// no case split here: the operand is a symbolic literal
	m, v := int(p.ms[0]), p.vs[0]
	for i := 1; i < len(p.ms); i++ {
		m = vsym.Ite(k/2 == i, int(p.ms[i]), m)
		v = vsym.IteB(k/2 == i, p.vs[i], v)
	}
	return z.Lit(m ^ k&1), xor(v, k&1 == 1)
}

// index of m in the pool, doubled and with the sign in which m differs.
func (p *pool) index(m z.Lit) int {
	for i, n := range p.ms {
		if n.Var() == m.Var() {
			return 2*i + int(n^m)
		}
	}
	panic("not in the pool")
}

// gate makes a gate of kind k from operands of the pool.
func (p *pool) gate(k int, any bool) {
	p.last = nil
	n := p.make(k, any)
	if !any {
		p.log[len(p.log)-1] = step{k + 1, p.last[:n]}
	}
}

// make is gate, which returns the number of operands.
func (p *pool) make(k int, any bool) int {
	a, va := p.pick(any)
	b, vb := p.pick(any)
	switch k {
	case 0:
		p.put(p.c.And(a, b), vsym.And(va, vb))
	case 1:
		p.put(p.c.Or(a, b), vsym.Or(va, vb))
	case 2:
		p.put(p.c.Xor(a, b), xor(va, vb))
	case 3:
		p.put(p.c.Implies(a, b), vsym.Implies(va, vb))
	case 4:
		d, vd := p.pick(any)
		p.put(p.c.Choice(a, b, d), vsym.IteB(va, vb, vd))
		return 3
	case 5, 6:
		n := 0
		if any {
			n = vsym.Choose("len", 4)
		} else {
			n = p.r.n(6)
		}
		ms, vs := []z.Lit{a, b}, []bool{va, vb}
		for len(ms) < n {
			d, vd := p.pick(any)
			ms, vs = append(ms, d), append(vs, vd)
		}
		ms, vs = ms[:n], vs[:n]
		keep := append([]z.Lit(nil), ms...)
		if k == 5 {
			r := true
			for _, v := range vs {
				r = vsym.And(r, v)
			}
			p.put(p.c.Ands(ms...), r)
		} else {
			r := false
			for _, v := range vs {
				r = vsym.Or(r, v)
			}
			p.put(p.c.Ors(ms...), r)
		}
		for i := range keep {
			vsym.Assert(ms[i] == keep[i], "operands are left alone")
		}
		return n
	}
	return 2
}

// eval gives the inputs of the pool their values and evaluates.
func (p *pool) eval(nin int, junk bool) []bool {
	vs := make([]bool, p.c.Len())
	if junk {
		for i := range vs {
			vs[i] = vsym.Bool("junk")
		}
	}
	for i := 1; i <= nin; i++ {
		vs[p.ms[i].Var()] = p.vs[i]
	}
	p.c.Eval(vs)
	return vs
}

// Gates: gates with arbitrary operands over arbitrary inputs.
func Gates() {
	nin, n := vsym.P("in", 2), vsym.P("n", 2)
	var c *logic.C
	if cp := vsym.P("cap", 0); cp > 0 {
		c = logic.NewCCap(cp)
	} else {
		c = logic.NewC()
	}
	vsym.Assert(c.T == c.F.Not() && c.T.IsPos(), "constants are opposite")
	p := newPool(c, nin)
	for i := 0; i < vsym.P("base", 0); i++ {
		p.gate(p.r.n(7), false)
	}
	for i := 0; i < n; i++ {
		k := vsym.P("kind", -1)
		if k < 0 {
			k = vsym.Choose("kind", 7)
		}
		p.gate(k, true)
	}
	vs := p.eval(nin, vsym.P("junk", 1) == 1)
	ok := true
	for i, m := range p.ms {
		ok = vsym.And(ok, vsym.Iff(at(vs, m), p.vs[i]))
		ok = vsym.And(ok, vsym.Iff(at(vs, m.Not()), vsym.Not(p.vs[i])))
	}
	vsym.Assert(ok, "every gate has the value of its function")
	p.shape()
	vsym.Reach("end")
}

// shape: inputs, gates and order of the nodes.
func (p *pool) shape() {
	c := p.c
	ins := map[int]bool{}
	for _, i := range c.InPos(nil) {
		ins[i] = true
	}
	n := 0
	for i := 1; i < c.Len(); i++ {
		m := c.At(i)
		vsym.Assert(m == z.Var(i).Pos(), "nodes are numbered in sequence")
		a, b := c.Ins(m)
		a2, b2 := c.Ins(m.Not())
		vsym.Assert(a == a2 && b == b2, "a literal and its negation have the same operands")
		if i > 1 && a == z.LitNull {
			vsym.Assert(b == z.LitNull && ins[i], "nodes without operands are inputs")
			n++
		} else if i > 1 {
			vsym.Assert(!ins[i] && int(a.Var()) < i && int(b.Var()) < i, "operands come before")
		}
	}
}

type pair struct{ a, b z.Lit }

func norm(a, b z.Lit) pair {
	if a > b {
		a, b = b, a
	}
	return pair{a, b}
}

// table: gates made and their literals.
type table struct {
	c  *logic.C
	in []z.Lit
	ps []pair
	ms []z.Lit
}

func (t *table) lit(k int) z.Lit {
	var m z.Lit
	if j := k / 2; j < len(t.in) {
		m = t.in[j]
	} else {
		m = t.ms[j-len(t.in)]
	}
	if k%2 == 1 {
		return m.Not()
	}
	return m
}

func (t *table) and(a, b z.Lit) {
	n := t.c.Len()
	g := t.c.And(a, b)
	p := norm(a, b)
	switch {
	case a == b || b == t.c.T:
		vsym.Assert(g == a, "a and a, a and true")
		return
	case a == t.c.T:
		vsym.Assert(g == b, "true and a")
		return
	case a == b.Not() || a == t.c.F || b == t.c.F:
		vsym.Assert(g == t.c.F, "a contradiction is false")
		return
	}
	for i, q := range t.ps {
		if q == p {
			vsym.Reach("again")
			vsym.Assert(g == t.ms[i], "the same gate again is the same literal")
			vsym.Assert(t.c.Len() == n, "the same gate again adds no node")
			return
		}
	}
	x, y := t.c.Ins(g)
	vsym.Assert(g.IsPos() && norm(x, y) == p, "a gate has its operands")
	for _, m := range t.ms {
		vsym.Assert(g.Var() != m.Var(), "different gates are different literals")
	}
	for _, m := range t.in {
		vsym.Assert(g.Var() != m.Var(), "a gate isn't an input")
	}
	vsym.Assert(g.Var() > 1, "a gate isn't a constant")
	vsym.Assert(t.c.Len() == n+1, "a gate is one node")
	t.ps = append(t.ps, p)
	t.ms = append(t.ms, g)
}

func (t *table) check() {
	for i, p := range t.ps {
		n := t.c.Len()
		vsym.Assert(t.c.And(p.a, p.b) == t.ms[i], "every gate is found again")
		vsym.Assert(t.c.And(p.b, p.a) == t.ms[i], "every gate is found again")
		vsym.Assert(t.c.Len() == n, "finding a gate adds no node")
	}
}

// Hash: and gates, in circuits and copies of them.
func Hash() {
	nin, n := vsym.P("in", 3), vsym.P("n", 2)
	t := &table{}
	var sc *logic.S
	if vsym.P("seq", 0) == 1 {
		sc = logic.NewSCap(vsym.P("cap", 2))
		t.c = &sc.C
	} else {
		t.c = logic.NewCCap(vsym.P("cap", 2))
	}
	t.in = append(t.in, t.c.T)
	for i := 0; i < nin; i++ {
		if sc != nil && i%2 == 1 {
			init := z.LitNull
			switch i % 3 {
			case 0:
				init = sc.T
			case 1:
				init = sc.F
			}
			t.in = append(t.in, sc.Latch(init))
			continue
		}
		t.in = append(t.in, t.c.Lit())
	}
	r := rnd(vsym.P("seed", 1))
	for i := 0; i < vsym.P("base", 0); i++ {
		k := 2 * (len(t.in) + len(t.ms))
		t.and(t.lit(r.n(k)), t.lit(r.n(k)))
	}
	when := vsym.P("copy", -1)
	for i := 0; i < n; i++ {
		if i == when {
			o := &table{c: t.c.Copy(), in: t.in, ps: append([]pair(nil), t.ps...), ms: append([]z.Lit(nil), t.ms...)}
			if sc != nil {
				o.c = &sc.Copy().C
			}
			vsym.Assert(o.c.T == t.c.T && o.c.F == t.c.F && o.c.Len() == t.c.Len(), "a copy is the same")
			if vsym.Choose("which", 2) == 1 {
				t, o = o, t
			}
			// the other one goes on its own way
			x := o.c.Lit()
			o.and(x, t.lit(vsym.Choose("other", 2*(len(t.in)+len(t.ms)))))
			defer o.check()
		}
		// every literal there is
		a := z.Lit(vsym.Int("operand", 2, 2*t.c.Len()-1))
		b := z.Lit(vsym.Int("operand", 2, 2*t.c.Len()-1))
		t.and(a, b)
	}
	t.check()
	vsym.Reach("end")
}

// Eval: one lane of the bit parallel evaluation against the plain one.
func Eval() {
	nin, n := vsym.P("in", 4), vsym.P("n", 20)
	p := newPool(logic.NewCCap(vsym.P("cap", 4)), nin)
	for i := 0; i < n; i++ {
		p.gate(p.r.n(7), false)
	}
	for i := 0; i < vsym.P("any", 0); i++ {
		p.gate(vsym.Choose("kind", 7), true)
	}
	ws := make([]uint64, p.c.Len())
	for i := range ws {
		ws[i] = vsym.Uint64("word")
	}
	lane := vsym.Int("lane", 0, 63)
	vs := make([]bool, p.c.Len())
	for i := range vs {
		vs[i] = vsym.Bool("junk")
	}
	for i := 1; i <= nin; i++ {
		vs[p.ms[i].Var()] = ws[p.ms[i].Var()]>>uint(lane)&1 == 1
	}
	keep := append([]uint64(nil), ws...)
	p.c.Eval(vs)
	p.c.Eval64(ws)
	ok := true
	for i := 1; i < p.c.Len(); i++ {
		ok = vsym.And(ok, vsym.Iff(ws[i]>>uint(lane)&1 == 1, vs[i]))
	}
	vsym.Assert(ok, "each lane is an evaluation")
	for i := 1; i <= nin; i++ {
		vsym.Assert(ws[p.ms[i].Var()] == keep[p.ms[i].Var()], "inputs keep their values")
	}
	vsym.Reach("end")
}

// sink collects clauses.
type sink struct {
	cs  [][]z.Lit
	cur []z.Lit
}

func (s *sink) Add(m z.Lit) {
	if m == z.LitNull {
		s.cs = append(s.cs, s.cur)
		s.cur = nil
		return
	}
	s.cur = append(s.cur, m)
}

func (s *sink) hold(a []bool) bool {
	vsym.Assert(len(s.cur) == 0, "clauses are terminated")
	r := true
	for _, c := range s.cs {
		k := false
		for _, m := range c {
			k = vsym.Or(k, at(a, m))
		}
		r = vsym.And(r, k)
	}
	return r
}

// Cnf: clauses against gates.
func Cnf() {
	nin, n := vsym.P("in", 3), vsym.P("n", 2)
	var c *logic.C
	var sc *logic.S
	if vsym.P("seq", 0) == 1 {
		sc = logic.NewSCap(vsym.P("cap", 2))
		c = &sc.C
	} else {
		c = logic.NewCCap(vsym.P("cap", 2))
	}
	p := &pool{c: c, r: rnd(vsym.P("seed", 1))}
	p.put(c.T, true)
	for i := 0; i < nin; i++ {
		p.put(c.Lit(), false)
		if sc != nil {
			init := []z.Lit{sc.T, sc.F, z.LitNull}[i%3]
			p.put(sc.Latch(init), false)
		}
	}
	for i := 0; i < vsym.P("base", 0); i++ {
		p.gate(p.r.n(7), false)
	}
	s := &sink{}
	var mark []int8
	if k := vsym.P("stale", 0); k > 0 {
		// storage which has been in use
		mark = make([]int8, k)
		for i := range mark {
			mark[i] = 1
		}
		mark = mark[:0]
	}
	cone := map[z.Var]bool{}
	rounds := vsym.P("rounds", 0)
	total := 0
	for i := 0; i < n; i++ {
		p.gate(p.r.n(3), vsym.P("anygate", 1) == 1)
		if i < rounds {
			var roots []z.Lit
			for j := 0; j < vsym.P("roots", 1); j++ {
				m, _ := p.pick(true)
				roots = append(roots, m)
			}
			var k int
			switch vsym.P("from", 0) {
			case 0:
				mark, k = c.CnfSince(s, mark, roots...)
				total += k
			case 1:
				c.ToCnfFrom(s, roots...)
			}
			for _, m := range roots {
				mine(c, m, cone)
			}
		}
	}
	if sc != nil {
		// whatever the next states are
		for _, l := range sc.Latches {
			sc.SetNext(l, p.ms[len(p.ms)-1])
		}
	}
	if rounds == 0 {
		c.ToCnf(s)
		for i := 2; i < c.Len(); i++ {
			mine(c, c.At(i), cone)
		}
	}
	a := make([]bool, c.Len())
	for i := range a {
		a[i] = vsym.Bool("a")
	}
	good := a[1]
	nand := 0
	for v := z.Var(2); int(v) < c.Len(); v++ {
		if !cone[v] || !isAnd(c, v.Pos()) {
			continue
		}
		x, y := c.Ins(v.Pos())
		good = vsym.And(good, vsym.Iff(a[v], vsym.And(at(a, x), at(a, y))))
		nand++
	}
	vsym.Assert(vsym.Iff(s.hold(a), good), "the clauses hold exactly if every gate has the value of its function")
	if rounds > 0 && vsym.P("from", 0) == 0 {
		vsym.Assert(total == nand+1, "the nodes added are counted")
		vsym.Assert(len(s.cs) == 3*nand+1, "each call adds what is missing")
	}
	vsym.Reach("end")
}

func isAnd(c *logic.C, m z.Lit) bool {
	a, _ := c.Ins(m)
	return a != z.LitNull && a != c.T && a != c.F
}

func mine(c *logic.C, m z.Lit, cone map[z.Var]bool) {
	if cone[m.Var()] {
		return
	}
	cone[m.Var()] = true
	if m.Var() == 1 || !isAnd(c, m) {
		return
	}
	a, b := c.Ins(m)
	mine(c, a, cone)
	mine(c, b, cone)
}

// Card: cardinality networks.
func Card() {
	n := vsym.P("n", 4)
	c := logic.NewCCap(vsym.P("cap", 2))
	var in []z.Lit
	vals := []bool{true}
	pos := []z.Lit{c.T}
	for i := 0; i < vsym.P("in", n); i++ {
		in = append(in, c.Lit())
		pos = append(pos, in[i])
		vals = append(vals, vsym.Bool("in"))
	}
	var ms []z.Lit
	count := 0
	for i := 0; i < n; i++ {
		m := z.LitNull
		v := false
		if vsym.P("any", 0) == 1 {
			k := vsym.Choose("lit", 2*len(pos))
			m, v = pos[k/2], vals[k/2]
			if k%2 == 1 {
				m, v = m.Not(), vsym.Not(v)
			}
		} else {
			m, v = in[i], vals[i+1]
			if i%3 == 2 {
				m, v = m.Not(), vsym.Not(v)
			}
		}
		ms = append(ms, m)
		count += vsym.B2i(v)
	}
	keep := append([]z.Lit(nil), ms...)
	cs := c.CardSort(ms)
	for i := range ms {
		vsym.Assert(ms[i] == keep[i], "the list is left alone")
	}
	vsym.Assert(cs.N() == n, "the number of literals")
	type q struct {
		m    z.Lit
		want bool
	}
	var qs []q
	for k := -2; k <= n+2; k++ {
		qs = append(qs, q{cs.Leq(k), count <= k}, q{cs.Geq(k), count >= k}, q{cs.Less(k), count < k}, q{cs.Gr(k), count > k})
	}
	vs := make([]bool, c.Len())
	for i, m := range in {
		vs[m.Var()] = vals[i+1]
	}
	c.Eval(vs)
	ok := true
	for _, x := range qs {
		ok = vsym.And(ok, vsym.Iff(at(vs, x.m), x.want))
	}
	vsym.Assert(ok, "the predicates count")
	vsym.Reach("end")
}

// Unroll: unrolling against simulation.
func Unroll() {
	nin, nl, n, depth := vsym.P("in", 1), vsym.P("latches", 2), vsym.P("n", 4), vsym.P("depth", 2)
	s := logic.NewSCap(vsym.P("cap", 2))
	p := &pool{c: &s.C, r: rnd(vsym.P("seed", 1))}
	p.put(s.T, true)
	inits := []z.Lit{s.T, s.F, z.LitNull}
	var ins, ls []z.Lit
	var init []z.Lit
	for i := 0; i < nin || i < nl; i++ {
		if i < nl {
			k := inits[vsym.Choose("init", 3)]
			l := s.Latch(k)
			vsym.Assert(s.Init(l) == k && s.Next(l) == l && s.Type(l) == logic.SLatch, "a latch keeps its value by default")
			if vsym.P("setinit", 0) == 1 {
				k = inits[vsym.Choose("init", 3)]
				s.SetInit(l, k)
				vsym.Assert(s.Init(l) == k, "the initial value is set")
			}
			ls = append(ls, l)
			init = append(init, k)
			p.put(l, false)
		}
		if i < nin {
			ins = append(ins, s.Lit())
			p.put(ins[i], false)
			vsym.Assert(s.Type(ins[i]) == logic.SInput, "an input")
		}
	}
	for i := 0; i < n; i++ {
		p.gate(p.r.n(7), false)
	}
	vsym.Assert(s.Type(s.T) == logic.SConst && s.Type(s.F) == logic.SConst, "constants")
	var next []z.Lit
	for i, l := range ls {
		nx := l
		if vsym.P("anynext", 0) == 1 {
			nx, _ = p.pick(true)
		} else if vsym.P("anynext", 0) == 2 {
			k := vsym.Choose("next", 2*len(p.ms))
			nx = p.ms[k/2] ^ z.Lit(k&1)
		} else if i != 0 {
			nx, _ = p.pick(false)
		} else {
			nx = p.ms[len(p.ms)-1].Not()
		}
		s.SetNext(l, nx)
		next = append(next, nx)
	}
	for i, l := range ls {
		vsym.Assert(s.Next(l) == next[i] && s.Type(l) == logic.SLatch, "the next state is set")
	}
	vsym.Assert(len(s.Latches) == nl, "latches are listed")
	// gates made when the latches have their next states
	for i := 0; i < vsym.P("late", 0); i++ {
		p.gate(p.r.n(7), false)
	}
	if vsym.P("late", 0) > 0 && vsym.P("anynext", 0) != 1 {
		for i, l := range ls {
			for k := 0; k < 4; k++ {
				a, b := p.index(l)^k&1, p.index(next[i])^k>>1
				p.put(s.And(l^z.Lit(k&1), next[i]^z.Lit(k>>1)), false)
				p.log[len(p.log)-1] = step{1, []int{a, b}}
			}
		}
	}
	if vsym.P("copy", 0) == 1 {
		o := s.Copy()
		for _, l := range s.Latches {
			s.SetNext(l, s.T)
			s.SetInit(l, s.T)
		}
		s.Lit()
		s = o
	}
	u := logic.NewRoll(s)
	// some queries in any order
	for i := 0; i < vsym.P("queries", 1); i++ {
		m := s.At(1 + vsym.Choose("node", s.Len()-1))
		if vsym.Choose("sign", 2) == 1 {
			m = m.Not()
		}
		d := vsym.Choose("time", depth+1)
		x := u.At(m, d)
		vsym.Assert(u.At(m, d) == x && u.At(m.Not(), d) == x.Not(), "asking again gives the same literal")
		vsym.Assert(u.Len(m) > d && u.MaxLen() > d, "what was asked is there")
	}
	// and then all
	lit := make([][]z.Lit, depth+1)
	for t := 0; t <= depth; t++ {
		lit[t] = make([]z.Lit, s.Len())
		for i := 1; i < s.Len(); i++ {
			lit[t][i] = u.At(s.At(i), t)
		}
	}
	same := true
	for t := 0; t <= depth; t++ {
		for i := 1; i < s.Len(); i++ {
			same = vsym.And(same, u.At(s.At(i), t) == lit[t][i])
		}
	}
	vsym.Assert(same, "the literal of a node at a time stays the same")
	vs := make([]bool, u.C.Len())
	st := make([]bool, s.Len())
	for i, l := range ls {
		switch init[i] {
		case s.T:
			st[l.Var()] = true
		case s.F:
		default:
			st[l.Var()] = vsym.Bool("x")
			m := lit[0][l.Var()]
			vsym.Assert(m.IsPos() && isInput(u.C, m), "an unknown initial value is an input")
			vs[m.Var()] = st[l.Var()]
		}
	}
	free := map[z.Var]bool{}
	steps := make([][]bool, depth+1)
	gates := make([][]bool, depth+1)
	for t := 0; t <= depth; t++ {
		for _, m := range ins {
			v := vsym.Bool("in")
			st[m.Var()] = v
			x := lit[t][m.Var()]
			vsym.Assert(x.IsPos() && isInput(u.C, x), "an input at any time is an input")
			vsym.Assert(!free[x.Var()], "inputs at different times are different")
			free[x.Var()] = true
			vs[x.Var()] = v
		}
		gates[t] = make([]bool, len(p.ms))
		gates[t][0] = true
		for i := 1; i <= nin+nl; i++ {
			gates[t][i] = st[p.ms[i].Var()]
		}
		p.redo(gates[t])
		s.Eval(st)
		steps[t] = append([]bool(nil), st...)
		nst := make([]bool, s.Len())
		for i, l := range ls {
			nst[l.Var()] = at(st, next[i])
		}
		st = nst
	}
	u.C.Eval(vs)
	ok := true
	for t := 0; t <= depth; t++ {
		for i := 1; i < s.Len(); i++ {
			ok = vsym.And(ok, vsym.Iff(at(vs, lit[t][i]), steps[t][i]))
		}
	}
	vsym.Assert(ok, "unrolling agrees with simulation")
	ok = true
	for t := 0; t <= depth; t++ {
		for i, m := range p.ms {
			x := lit[t][m.Var()]
			if !m.IsPos() {
				x = x.Not()
			}
			ok = vsym.And(ok, vsym.Iff(at(vs, x), gates[t][i]))
		}
	}
	vsym.Assert(ok, "unrolled gates are what they were made for")
	vsym.Reach("end")
}

func isInput(c *logic.C, m z.Lit) bool {
	a, b := c.Ins(m)
	return m.Var() > 1 && a == z.LitNull && b == z.LitNull
}
