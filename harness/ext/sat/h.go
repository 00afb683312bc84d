package sat

// Histories of the solver interface against a small reference.

import (
	"bytes"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("sat.Solve", Solve)
	vsym.Register("sat.Hist", Hist)
	vsym.Register("sat.Core", Core)
	vsym.Register("sat.Script", Script)
}

// what to assert
const (
	mModel  = 1
	mUnsat  = 2
	mDecide = 4
	mWhy    = 8
	mTest   = 16
	mReason = 32
	mWrite  = 64
)

func lit(name string, nv int) z.Lit {
	if vsym.P("conc", 0) == 1 {
		// split into one path per literal: for problems whose search would
		// split on it anyway
		return z.Lit(vsym.Conc(vsym.Int(name, 2, 2*nv+1)))
	}
	return z.Lit(vsym.Int(name, 2, 2*nv+1))
}

type cnf [][]z.Lit

// holds evaluates literal m under assignment a (branch free).
func holds(a []bool, m z.Lit) bool {
	r := false
	for v := 1; v < len(a); v++ {
		p := z.Var(v).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, a[v]), vsym.And(m == p.Not(), vsym.Not(a[v]))))
	}
	return r
}

func clauseHolds(a []bool, c []z.Lit) bool {
	k := false
	for _, m := range c {
		k = vsym.Or(k, holds(a, m))
	}
	return k
}

func allHold(a []bool, f cnf) bool {
	r := true
	for _, c := range f {
		r = vsym.And(r, clauseHolds(a, c))
	}
	return r
}

func litsHold(a []bool, ms []z.Lit) bool {
	r := true
	for _, m := range ms {
		r = vsym.And(r, holds(a, m))
	}
	return r
}

func anyAssignment(nv int) []bool {
	a := make([]bool, nv+1)
	for v := 1; v <= nv; v++ {
		a[v] = vsym.Bool("a")
	}
	return a
}

type ref struct {
	nv     int
	mode   int
	f      cnf
	scopes [][]z.Lit
	pend   []z.Lit

	searched bool // solved since the last Test

	lastRes int     // the last answer of a solve or failing test, and
	last    []z.Lit // what was assumed then
}

func (r *ref) assumed() []z.Lit {
	var out []z.Lit
	for _, s := range r.scopes {
		out = append(out, s...)
	}
	return append(out, r.pend...)
}

func (r *ref) copy() *ref {
	o := &ref{nv: r.nv, mode: r.mode, searched: r.searched}
	o.f = append(o.f, r.f...)
	for _, s := range r.scopes {
		o.scopes = append(o.scopes, append([]z.Lit(nil), s...))
	}
	o.pend = append(o.pend, r.pend...)
	return o
}

func addClause(g inter.Adder, c []z.Lit) {
	for _, m := range c {
		g.Add(m)
	}
	g.Add(z.LitNull)
}

func (r *ref) add(g inter.Adder, c ...z.Lit) {
	addClause(g, c)
	r.f = append(r.f, c)
}

func (r *ref) assume(g inter.Assumable, ms ...z.Lit) {
	keep := append([]z.Lit(nil), ms...)
	g.Assume(ms...)
	for i := range ms {
		vsym.Assert(ms[i] == keep[i], "assume leaves its arguments alone")
	}
	r.pend = append(r.pend, keep...)
}

func value(g inter.S, nv int) []bool {
	a := make([]bool, nv+1)
	for v := 1; v <= nv; v++ {
		if z.Var(v) > g.MaxVar() {
			break // the solver has not heard of it: any value will do
		}
		a[v] = g.Value(z.Var(v).Pos())
		vsym.Assert(g.Value(z.Var(v).Neg()) != a[v], "a literal and its negation have opposite values")
	}
	return a
}

// judge checks the answer res of a solve under assumptions as.
func (r *ref) judge(g inter.S, res int, as []z.Lit) {
	switch res {
	case 1:
		vsym.Reach("sat")
		if r.mode&mModel != 0 {
			a := value(g, r.nv)
			vsym.Assert(vsym.And(allHold(a, r.f), litsHold(a, as)), "model satisfies clauses and assumptions")
		}
	case -1:
		vsym.Reach("unsat")
		if r.mode&mUnsat != 0 {
			a := anyAssignment(r.nv)
			vsym.Assert(vsym.Not(vsym.And(allHold(a, r.f), litsHold(a, as))), "unsatisfiable answer is right")
		}
		if r.mode&mWhy != 0 {
			r.why(g, as)
		}
	default:
		if r.mode&mDecide != 0 {
			vsym.Fail("solve answers 1 or -1")
		}
	}
}

func (r *ref) why(g inter.S, as []z.Lit) {
	pre := z.Lit(77)
	buf := make([]z.Lit, 1, 8)
	buf[0] = pre
	ws := g.Why(buf)
	vsym.Assert(len(ws) >= 1 && ws[0] == pre, "reason is appended")
	ws = append([]z.Lit(nil), ws[1:]...)
	ok := true
	for _, w := range ws {
		in := false
		for _, m := range as {
			in = vsym.Or(in, w == m)
		}
		ok = vsym.And(ok, in)
	}
	vsym.Assert(ok, "reason is made of assumptions")
	a := anyAssignment(r.nv)
	vsym.Assert(vsym.Not(vsym.And(allHold(a, r.f), litsHold(a, ws))), "reason is sufficient")
	if len(ws) > 0 {
		vsym.Reach("core")
	}
	ws2 := g.Why(nil)
	vsym.Assert(len(ws2) == len(ws), "asking twice gives the same reason")
}

func (r *ref) solve(g inter.S) int {
	as := r.assumed()
	res := g.Solve()
	r.pend = nil
	r.searched = true
	r.lastRes, r.last = res, as
	r.judge(g, res, as)
	return res
}

// Solve: one symbolic problem, solved once.
func Solve() {
	nv, nc, w := vsym.P("nv", 3), vsym.P("nc", 3), vsym.P("w", 2)
	g := gini.New()
	r := &ref{nv: nv, mode: vsym.P("mode", 7)}
	for i := 0; i < nc; i++ {
		r.add(g, clause("lit", nv, w, w)...)
	}
	r.solve(g)
	vsym.Reach("end")
}

func clause(name string, nv, lo, hi int) []z.Lit {
	n := lo
	if hi > lo {
		n += vsym.Choose("len", hi-lo+1)
	}
	c := make([]z.Lit, n)
	for j := range c {
		c[j] = lit(name, nv)
	}
	return c
}

// Core: problems with at least one conflict reached by search: all 2^k sign
// patterns over k variables minus a symbolic selection, solved repeatedly.
func Core() {
	k := vsym.P("k", 2)
	nv := k + vsym.P("extra", 1)
	r := &ref{nv: nv, mode: vsym.P("mode", 15)}
	g := gini.NewV(3)
	drop := vsym.Int("drop", 0, 1<<uint(k))
	for p := 0; p < 1<<uint(k); p++ {
		if p == drop {
			continue
		}
		var c []z.Lit
		for v := 1; v <= k; v++ {
			m := z.Var(v).Pos()
			if p>>uint(v-1)&1 == 1 {
				m = m.Not()
			}
			c = append(c, m)
		}
		if vsym.P("guard", 0) == 1 {
			c = append(c, z.Var(k+1).Pos())
		}
		r.add(g, c...)
	}
	rounds := vsym.P("rounds", 2)
	for i := 0; i < rounds; i++ {
		switch vsym.Choose("between", 4) {
		case 1:
			r.assume(g, lit("as", nv))
		case 2:
			r.add(g, clause("cl", nv, 1, 1)...)
		case 3:
			r.assume(g, lit("as", nv), lit("as", nv))
		}
		r.solve(g)
	}
	vsym.Reach("end")
}

// combo is the i-th w-subset of variables 1..nv, in lexicographic order,
// starting over after the last.
func combo(i, w, nv int) []int {
	var all [][]int
	var rec func(from int, pre []int)
	rec = func(from int, pre []int) {
		if len(pre) == w {
			all = append(all, append([]int(nil), pre...))
			return
		}
		for v := from; v <= nv; v++ {
			rec(v+1, append(pre, v))
		}
	}
	rec(1, nil)
	return all[i%len(all)]
}

// signed is a clause over given variables whose signs are arbitrary.
func signed(vs []int) []z.Lit {
	c := make([]z.Lit, len(vs))
	for j, v := range vs {
		k := vsym.Int("sgn", 2*v, 2*v+1)
		if vsym.P("conc", 0) == 1 {
			k = vsym.Conc(k)
		}
		c[j] = z.Lit(k)
	}
	return c
}

// anyClause is the next pseudo random clause.
func anyClause(x *uint32, w, nv int) []z.Lit {
	rnd := func(k int) int {
		*x = *x*1664525 + 1013904223
		return int(*x>>8) % k
	}
	var c []z.Lit
	for len(c) < w {
		v := z.Var(1 + rnd(nv))
		dup := false
		for _, m := range c {
			if m.Var() == v {
				dup = true
			}
		}
		if dup {
			continue
		}
		m := v.Pos()
		if rnd(2) == 1 {
			m = m.Not()
		}
		c = append(c, m)
	}
	return c
}

// base adds "base" fixed pseudo random clauses of "bw" literals over nv
// variables: enough for a real search, on which the rest is arbitrary.
func (r *ref) base(g *gini.Gini) {
	x := uint32(vsym.P("seed", 1))
	for i := 0; i < vsym.P("base", 0); i++ {
		r.add(g, anyClause(&x, vsym.P("bw", 3), r.nv)...)
	}
	if h := vsym.P("php", 0); h > 0 {
		// h+1 pigeons in h holes, over fresh variables, if variable 1 holds
		at := func(p, q int) z.Lit { return z.Var(2 + p*h + q).Pos() }
		for p := 0; p <= h; p++ {
			c := []z.Lit{z.Var(1).Neg()}
			for q := 0; q < h; q++ {
				c = append(c, at(p, q))
			}
			r.add(g, c...)
		}
		for q := 0; q < h; q++ {
			for p := 0; p <= h; p++ {
				for o := 0; o < p; o++ {
					r.add(g, at(p, q).Not(), at(o, q).Not())
				}
			}
		}
	}
}

// Script: a given sequence of operations, the digits of parameter s, on
// arbitrary data. 1 add 2 assume 3 solve 4 test 5 untest 6 continue with a copy
// 7 continue with the original having disturbed a copy 8 write 9 ask for the
// model or the reason of the last answer again.
//
// The clauses to start with are n2 of 2 and n3 of 3 literals over the possible
// variable sets in turn with symbolic signs.
func Script() {
	nv := vsym.P("nv", 3)
	r := &ref{nv: nv, mode: vsym.P("mode", 63)}
	g := gini.NewVc(vsym.P("vcap", 3), 3)
	o2, o3 := vsym.P("o2", 0), vsym.P("o3", 0)
	for i := 0; i < vsym.P("n2", 0); i++ {
		r.add(g, signed(combo(o2+i, 2, nv))...)
	}
	for i := 0; i < vsym.P("n3", 0); i++ {
		r.add(g, signed(combo(o3+i, 3, nv))...)
	}
	for i := 0; i < vsym.P("nc", 0); i++ {
		r.add(g, clause("lit", nv, vsym.P("wmin", 2), vsym.P("w", 2))...)
	}
	r.base(g)
	script := vsym.P("s", 3)
	p10 := 1
	for p10*10 <= script {
		p10 *= 10
	}
	dead := false
	for ; p10 > 0; p10 /= 10 {
		op := script / p10 % 10
		if dead && op == 4 {
			vsym.Assume(false)
		}
		switch op {
		case 1:
			r.add(g, clause("cl", nv, vsym.P("amin", 1), vsym.P("amax", 1))...)
		case 2:
			r.assume(g, lit("as", vsym.P("asv", nv)))
		case 3:
			if r.solve(g) == -1 {
				dead = len(r.scopes) > 0
			}
		case 4:
			dead = r.test(g) == -1
		case 5:
			dead = r.untest(g) == -1
		case 6, 7:
			o := g.Copy()
			if op == 6 {
				g, o = o, g
			}
			if len(r.scopes) == 0 {
				addClause(o, clause("other", nv, 1, vsym.P("omax", 2)))
			} else {
				o.Assume(lit("other", nv))
			}
			o.Solve()
		case 8:
			r.write(g)
		case 9:
			if r.lastRes != 0 {
				r.judge(g, r.lastRes, r.last)
			}
		}
	}
	vsym.Reach("end")
}

// Hist: an arbitrary sequence of operations.
func Hist() {
	nv, steps, w := vsym.P("nv", 2), vsym.P("steps", 4), vsym.P("w", 2)
	ops := vsym.P("ops", 7)
	r := &ref{nv: nv, mode: vsym.P("mode", 7)}
	g := gini.NewVc(vsym.P("vcap", 3), 3)
	for i := 0; i < vsym.P("nc", 2); i++ {
		r.add(g, clause("lit", nv, vsym.P("wmin", 2), w)...)
	}
	var avail []int
	for o := 0; o < 8; o++ {
		if ops>>uint(o)&1 == 1 {
			avail = append(avail, o)
		}
	}
	dead := false // Test may not be called until Untest clears it
	for i := 0; i < steps; i++ {
		switch avail[vsym.Choose("op", len(avail))] {
		case 0:
			if len(r.scopes) > 0 {
				vsym.Assume(false)
			}
			r.add(g, clause("cl", nv, vsym.P("amin", 1), vsym.P("amax", 1))...)
		case 1:
			if dead {
				vsym.Assume(false)
			}
			r.assume(g, lit("as", nv))
		case 2:
			if r.solve(g) == -1 {
				dead = len(r.scopes) > 0
			}
		case 3:
			if dead {
				vsym.Assume(false)
			}
			dead = r.test(g) == -1
		case 4:
			if len(r.scopes) == 0 {
				vsym.Assume(false)
			}
			dead = r.untest(g) == -1
		case 5:
			o := g.Copy()
			if vsym.Choose("which", 2) == 1 {
				g, o = o, g
			}
			// the other one is disturbed
			addClause(o, clause("other", nv, 1, vsym.P("omax", 2)))
			o.Solve()
		}
	}
	r.solve(g)
	if r.mode&mWrite != 0 {
		r.write(g)
	}
	vsym.Reach("end")
}

func (r *ref) test(g inter.S) int {
	// literals implied so far are found by propagation from level 0
	r.scopes = append(r.scopes, r.pend)
	r.pend = nil
	as := r.assumed()
	buf := make([]z.Lit, 0, 4)
	var before []z.Lit
	fresh := !r.searched // otherwise values are those of the last search
	r.searched = false
	if fresh && r.mode&mTest != 0 {
		for v := z.Var(1); int(v) <= r.nv && v <= g.MaxVar(); v++ {
			if !g.Value(v.Pos()) && !g.Value(v.Neg()) {
				before = append(before, v.Pos(), v.Neg())
			}
		}
	}
	res, out := g.Test(buf)
	r.lastRes = 0
	if r.mode&mTest == 0 {
		return res
	}
	switch res {
	case 1:
		vsym.Reach("test sat")
		a := value(g, r.nv)
		vsym.Assert(vsym.And(allHold(a, r.f), litsHold(a, as)), "Test answering 1 has a model")
	case -1:
		vsym.Reach("test unsat")
		r.lastRes, r.last = res, as
		a := anyAssignment(r.nv)
		vsym.Assert(vsym.Not(vsym.And(allHold(a, r.f), litsHold(a, as))), "Test answering -1 is right")
		if r.mode&mWhy != 0 {
			r.why(g, as)
		}
		return res
	default:
		vsym.Assert(res == 0, "Test answers -1, 0 or 1")
		for _, m := range as {
			vsym.Assert(g.Value(m), "tested assumptions hold")
		}
		for _, m := range before {
			if g.Value(m) {
				in := false
				for _, x := range out {
					in = vsym.Or(in, x == m)
				}
				vsym.Assert(in, "Test reports every literal it makes true")
			}
		}
		vsym.Reach("test unknown")
		r.propagated(g)
	}
	a := anyAssignment(r.nv)
	pre := vsym.And(allHold(a, r.f), litsHold(a, as))
	for _, m := range out {
		if int(m.Var()) <= r.nv {
			vsym.Assert(vsym.Implies(pre, holds(a, m)), "propagated literals are implied")
			vsym.Assert(g.Value(m), "propagated literals are true")
		}
	}
	if r.mode&mReason != 0 {
		r.reasons(g, out, as)
	}
	return res
}

// propagated: no clause is false or a unit not propagated.
func (r *ref) propagated(g inter.S) {
	for _, c := range r.f {
		// open literals o: some are not assigned; two: at least two
		// different ones are.
		o, two, sat := z.LitNull, false, false
		for _, m := range c {
			if g.Value(m) {
				sat = true
				break
			}
			if g.Value(m.Not()) {
				continue
			}
			if o == z.LitNull {
				o = m
			} else if o != m {
				two = true
			}
		}
		vsym.Assert(vsym.Or(sat, two), "an undecided Test is at the end of unit propagation")
	}
}

func (r *ref) reasons(g inter.S, out []z.Lit, as []z.Lit) {
	for _, m := range out {
		rs := g.Reasons(nil, m)
		a := anyAssignment(r.nv)
		for _, x := range rs {
			vsym.Assert(g.Value(x), "reasons are true")
			vsym.Assert(x.Var() != m.Var(), "a literal is not its own reason")
		}
		if len(rs) == 0 {
			in := false
			for _, x := range as {
				in = vsym.Or(in, x == m)
			}
			vsym.Assert(vsym.Or(in, vsym.Implies(allHold(a, r.f), holds(a, m))), "without reasons a literal is assumed or follows from the clauses")
			continue
		}
		vsym.Reach("reasons")
		vsym.Assert(vsym.Implies(vsym.And(allHold(a, r.f), litsHold(a, rs)), holds(a, m)), "reasons imply the literal")
		r.chain(g, m, 0)
	}
}

// chain follows reasons; an acyclic chain over n variables is at most n deep.
func (r *ref) chain(g inter.S, m z.Lit, depth int) {
	vsym.Assert(depth <= r.nv+1, "reasons are acyclic")
	for _, x := range g.Reasons(nil, m) {
		r.chain(g, x, depth+1)
	}
}

func (r *ref) untest(g inter.S) int {
	r.scopes = r.scopes[:len(r.scopes)-1]
	// assumptions which were not tested yet stay: they are for the next Test
	// or Solve.
	pend := r.pend
	r.pend = nil
	as := r.assumed()
	r.pend = pend
	res := g.Untest()
	if r.mode&mTest != 0 {
		vsym.Assert(res == 0 || res == -1, "Untest answers 0 or -1")
		if res == -1 {
			vsym.Reach("untest unsat")
			a := anyAssignment(r.nv)
			vsym.Assert(vsym.Not(vsym.And(allHold(a, r.f), litsHold(a, as))), "Untest answering -1 is right")
		}
	}
	return res
}

// write checks the text the solver writes.
func (r *ref) write(g *gini.Gini) { r.writeX(g, r.f, r.f) }

// writeX: the text must imply clauses in, and be implied by clauses all.
func (r *ref) writeX(g *gini.Gini, in, all cnf) {
	var b bytes.Buffer
	vsym.Assert(g.Write(&b) == nil, "write succeeds")
	nv, nc, cs := parse(b.Bytes())
	vsym.Assert(nc == len(cs), "the header counts the clauses")
	vsym.Assert(nv == int(g.MaxVar()), "the header has the last variable")
	n := nv
	if n < r.nv {
		n = r.nv
	}
	a := anyAssignment(n)
	vsym.Assert(vsym.Implies(allHold(a, cs), allHold(a, in)), "the text implies the clauses added")
	vsym.Assert(vsym.Implies(allHold(a, all), allHold(a, cs)), "the text is implied by the clauses added")
	vsym.Reach("write")
	if len(cs) > len(in) {
		vsym.Reach("write learnt")
	}
	g2, e := gini.NewDimacs(bytes.NewReader(b.Bytes()))
	vsym.Assert(e == nil, "the text is read")
	var b2 bytes.Buffer
	g2.Write(&b2)
	_, nc2, cs2 := parse(b2.Bytes())
	vsym.Assert(nc2 == len(cs2), "the header counts the clauses")
	vsym.Assert(vsym.Iff(allHold(a, cs), allHold(a, cs2)), "reading and writing preserves the meaning")
}

// parse is a strict reader of "p cnf V C\n" and lines "l l ... 0\n".
func parse(b []byte) (nv, nc int, cs cnf) {
	p := 0
	tok := func() (string, byte) {
		q := p
		for p < len(b) && b[p] != ' ' && b[p] != '\n' {
			p++
		}
		vsym.Assert(p < len(b), "text is complete")
		p++
		return string(b[q : p-1]), b[p-1]
	}
	num := func() (int, byte) {
		s, e := tok()
		n, neg := 0, false
		for i := 0; i < len(s); i++ {
			if i == 0 && s[0] == '-' {
				neg = true
				continue
			}
			vsym.Assert('0' <= s[i] && s[i] <= '9', "a number")
			n = 10*n + int(s[i]-'0')
		}
		if neg {
			n = -n
		}
		return n, e
	}
	s, _ := tok()
	vsym.Assert(s == "p", "header p")
	s, _ = tok()
	vsym.Assert(s == "cnf", "header cnf")
	nv, _ = num()
	nc, _ = num()
	for p < len(b) {
		var c []z.Lit
		for {
			n, e := num()
			if n == 0 {
				vsym.Assert(e == '\n', "a clause is a line")
				break
			}
			vsym.Assert(-nv <= n && n <= nv, "variables are within the header's")
			c = append(c, z.Dimacs2Lit(n))
		}
		cs = append(cs, c)
	}
	return
}
