package vars

// Literals, variables and the mapping which hides inner variables.

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("vars.Lits", Lits)
	vsym.Register("vars.Map", Map)
	vsym.Register("vars.Sv", Sv)
	vsym.Register("vars.Plain", Plain)
}

// Lits: what the encodings promise, for every variable, literal and number.
func Lits() {
	const maxVar = 0x7fffffff
	v := z.Var(vsym.Uint32("v"))
	vsym.Assume(v >= 1)
	vsym.Assume(v <= maxVar)
	p, n := v.Pos(), v.Neg()
	vsym.Assert(p != n, "the two literals of a variable differ")
	vsym.Assert(p.Var() == v && n.Var() == v, "the variable of its literals")
	vsym.Assert(p.Not() == n && n.Not() == p, "the literals of a variable are each other's negation")
	vsym.Assert(p.IsPos() && !n.IsPos(), "which literal is positive")
	vsym.Assert(p.Sign() == 1 && n.Sign() == -1, "the signs")
	vsym.Assert(p.Dimacs() == int(v) && n.Dimacs() == -int(v), "the dimacs numbers of the literals of a variable")
	vsym.Assert(p != z.LitNull && n != z.LitNull, "literals of variables aren't the null literal")

	m, o := z.Lit(vsym.Uint32("m")), z.Lit(vsym.Uint32("o"))
	vsym.Assert(m.Not() != m, "a literal isn't its negation")
	vsym.Assert(m.Not().Not() == m, "negation is an involution")
	vsym.Assert(m.Not().Var() == m.Var(), "negation keeps the variable")
	vsym.Assert(m.Not().Sign() == -m.Sign(), "negation changes the sign")
	vsym.Assert(m.IsPos() == (m.Sign() == 1), "IsPos and Sign agree")
	if m.IsPos() {
		vsym.Assert(m.Var().Pos() == m, "a literal is determined by variable and sign")
	} else {
		vsym.Assert(m.Var().Neg() == m, "a literal is determined by variable and sign")
	}
	same := vsym.And(m.Var() == o.Var(), m.Sign() == o.Sign())
	vsym.Assert(vsym.Iff(m == o, same), "different literals differ in variable or sign")
	if m.Var() != 0 {
		vsym.Assert(z.Dimacs2Lit(m.Dimacs()) == m, "the dimacs number gives the literal back")
		vsym.Assert(vsym.Iff(m == o, m.Dimacs() == o.Dimacs()), "different literals have different dimacs numbers")
		vsym.Assert(m.Dimacs() != 0, "0 is no literal's number")
		vsym.Assert(m.Not().Dimacs() == -m.Dimacs(), "negative dimacs numbers are negations")
	}
	d := vsym.Int("d", 0, maxVar)
	if vsym.Bool("negative") {
		d = -d
	}
	vsym.Assert(z.Dimacs2Lit(d).Dimacs() == d, "a dimacs number survives being a literal")
	vsym.Assert(z.Dimacs2Lit(0) == z.LitNull, "0 is the null literal")

	// text
	t := vsym.Int("t", 1, vsym.P("text", 300))
	if vsym.Bool("negtext") {
		vsym.Assert(z.Var(t).Neg().String() == fmt.Sprintf("-%d", t), "text of a negative literal")
	} else {
		vsym.Assert(z.Var(t).Pos().String() == fmt.Sprintf("%d", t), "text of a positive literal")
		vsym.Assert(z.Var(t).String() == fmt.Sprintf("v%d", t), "text of a variable")
	}
	vsym.Reach("end")
}

// world: what a mapping is expected to hold.
type world struct {
	vs    *z.Vars
	in    []z.Var // inner variable of each user variable, 0: not mapped yet
	inner []z.Var // inner variables in use
}

func (w *world) copy() *world {
	o := &world{vs: w.vs.Copy()}
	o.in = append(o.in, w.in...)
	o.inner = append(o.inner, w.inner...)
	return o
}

func (w *world) hidden(v z.Var) bool {
	r := false
	for _, x := range w.inner {
		r = vsym.Or(r, x == v)
	}
	return r
}

// toInner maps user literal m and checks the answer.
func (w *world) toInner(m z.Lit) z.Lit {
	n := w.vs.ToInner(m)
	vsym.Assert(n.Var() != 0, "a user variable is mapped to a variable")
	vsym.Assert(n.IsPos() == m.IsPos(), "mapping keeps the sign")
	u := int(m.Var())
	if w.in[u] != 0 {
		vsym.Assert(w.in[u] == n.Var(), "a user variable stays where it is mapped to")
	}
	for x, y := range w.in {
		if x != u && y != 0 {
			vsym.Assert(y != n.Var(), "different user variables are mapped to different variables")
		}
	}
	vsym.Assert(vsym.Not(w.hidden(n.Var())), "a user variable isn't mapped to an inner one")
	w.in[u] = n.Var()
	return n
}

func (w *world) newInner() {
	m := w.vs.Inner()
	vsym.Assert(m.Var() != 0, "an inner literal has a variable")
	vsym.Assert(m.IsPos(), "an inner literal is positive")
	vsym.Assert(vsym.Not(w.hidden(m.Var())), "a new inner variable isn't in use")
	for _, y := range w.in {
		vsym.Assert(y == 0 || y != m.Var(), "a new inner variable isn't a user's")
	}
	w.inner = append(w.inner, m.Var())
}

func (w *world) free() {
	if len(w.inner) == 0 {
		return
	}
	i := vsym.Choose("free", len(w.inner))
	w.vs.Free(w.inner[i].Pos())
	w.inner[i] = w.inner[len(w.inner)-1]
	w.inner = w.inner[:len(w.inner)-1]
}

// audit looks at everything.
func (w *world) audit() {
	ms := []z.Lit{}
	var want []z.Lit
	for u, y := range w.in {
		if y == 0 {
			continue
		}
		vsym.Assert(w.vs.ToOuter(y.Pos()) == z.Var(u).Pos(), "the way back gives the user's literal")
		vsym.Assert(w.vs.ToOuter(y.Neg()) == z.Var(u).Neg(), "the way back gives the user's negative literal")
		vsym.Assert(w.vs.ToInner(z.Var(u).Neg()) == y.Neg(), "and again")
		ms = append(ms, y.Neg())
		want = append(want, z.Var(u).Neg())
	}
	for i, x := range w.inner {
		vsym.Assert(w.vs.ToOuter(x.Pos()) == z.LitNull, "inner literals have no user literal")
		vsym.Assert(w.vs.ToOuter(x.Neg()) == z.LitNull, "negative inner literals have no user literal")
		if i == 0 {
			ms = append([]z.Lit{x.Neg()}, ms...)
		} else {
			ms = append(ms, x.Pos())
		}
	}
	vsym.Assert(w.vs.ToOuter(z.LitNull) == z.LitNull, "null is null")
	got := w.vs.ToOuters(ms)
	vsym.Assert(len(got) == len(want), "inner literals are omitted and no others")
	for i := range want {
		vsym.Assert(got[i] == want[i], "literals are mapped back in order")
	}
	back := w.vs.ToInners(append([]z.Lit(nil), want...))
	vsym.Assert(len(back) == len(want), "all are mapped")
	for i := range want {
		vsym.Assert(back[i] == w.in[want[i].Var()].Neg(), "literals are mapped in order")
	}
}

// Map: any sequence of mapping, allocation, release, looking back and copies.
func Map() {
	nv := vsym.P("nv", 3)
	w := &world{vs: z.NewVars(), in: make([]z.Var, nv+1)}
	var twin *world
	// the digits of s, less one, are operations done before the free ones
	pre := []int{}
	for s := vsym.P("s", 0); s > 0; s /= 10 {
		pre = append([]int{s%10 - 1}, pre...)
	}
	for i := 0; i < len(pre)+vsym.P("steps", 4); i++ {
		op := 0
		if i < len(pre) {
			op = pre[i]
		} else {
			op = vsym.Choose("op", vsym.P("ops", 5))
		}
		switch op {
		case 0:
			u := z.Var(1 + vsym.Choose("user", nv))
			m := u.Pos()
			if vsym.Bool("neg") {
				m = u.Neg()
			}
			w.toInner(m)
		case 1:
			w.newInner()
		case 2:
			w.free()
		case 3:
			m := z.Lit(2 + vsym.Choose("look", 2*nv+2))
			o := w.vs.ToOuter(m)
			found := false
			for u, y := range w.in {
				if y != 0 && y == m.Var() {
					found = true
					vsym.Assert(o.Var() == z.Var(u) && o.IsPos() == m.IsPos(), "the way back gives the user's literal")
				}
			}
			if w.hidden(m.Var()) {
				vsym.Assert(!found && o == z.LitNull, "inner literals have no user literal")
			}
		case 4:
			if twin == nil {
				twin = w
				w = twin.copy()
			} else {
				w, twin = twin, w
			}
		}
	}
	w.audit()
	if twin != nil {
		twin.audit()
		// both go on
		w.newInner()
		twin.toInner(z.Var(nv).Pos())
		twin.newInner()
		w.toInner(z.Var(nv).Pos())
		w.audit()
		twin.audit()
	}
	vsym.Reach("end")
}

type cnf [][]z.Lit

func holds(a []bool, m z.Lit) bool {
	r := false
	for v := 1; v < len(a); v++ {
		p := z.Var(v).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, a[v]), vsym.And(m == p.Not(), vsym.Not(a[v]))))
	}
	return r
}

func allHold(a []bool, f cnf, as []z.Lit) bool {
	r := true
	for _, c := range f {
		k := false
		for _, m := range c {
			k = vsym.Or(k, holds(a, m))
		}
		r = vsym.And(r, k)
	}
	for _, m := range as {
		r = vsym.And(r, holds(a, m))
	}
	return r
}

// app: an application which hides variables from its user: it adds clauses
// over the user's variables (mapped) and its own. The reference f numbers the
// user's variables 1..nv and the hidden ones from nv+1.
type app struct {
	s    inter.Sv
	vs   *z.Vars // nil: clauses are added in the user's literals
	nv   int
	nh   int
	f    cnf
	hid  []z.Lit // inner literals of hidden variables 1..
	pend []z.Lit
	sc   []z.Lit
	open int

	solved bool
	failed bool
}

func (p *app) any() []bool {
	a := make([]bool, p.nv+p.nh+1)
	for v := 1; v < len(a); v++ {
		a[v] = vsym.Bool("a")
	}
	return a
}

func (p *app) add(c ...z.Lit) {
	for _, m := range c {
		v := int(vsym.Conc(int(m)))
		m = z.Lit(v)
		var n z.Lit
		if p.vs == nil {
			n = m
		} else if int(m.Var()) <= p.nv {
			n = p.vs.ToInner(m)
		} else {
			n = p.hid[int(m.Var())-p.nv-1]
			if !m.IsPos() {
				n = n.Not()
			}
		}
		p.s.Add(n)
	}
	p.s.Add(z.LitNull)
	p.f = append(p.f, c)
}

func (p *app) hide() {
	m := p.s.Inner()
	vsym.Assert(m.Var() != 0, "an inner literal has a variable")
	p.hid = append(p.hid, m)
	p.nh++
}

func (p *app) assume(ms ...z.Lit) {
	keep := append([]z.Lit(nil), ms...)
	p.s.Assume(ms...)
	for i := range ms {
		vsym.Assert(ms[i] == keep[i], "assume leaves its arguments alone")
	}
	p.pend = append(p.pend, keep...)
}

func (p *app) all() []z.Lit { return append(append([]z.Lit(nil), p.sc...), p.pend...) }

func (p *app) why(as []z.Lit) {
	// what dst has stays
	dst := append(make([]z.Lit, 0, 4), z.Var(p.nv).Neg(), z.Var(p.nv+1).Pos())
	w := p.s.Why(dst)
	vsym.Assert(len(w) >= 2 && w[0] == z.Var(p.nv).Neg() && w[1] == z.Var(p.nv+1).Pos(), "explanations are appended")
	w = w[2:]
	for _, m := range w {
		in := false
		for _, n := range as {
			in = vsym.Or(in, m == n)
		}
		vsym.Assert(in, "the explanation consists of assumptions")
	}
	vsym.Assert(vsym.Not(allHold(p.any(), p.f, w)), "the explanation is sufficient")
}

func (p *app) solve() {
	as := p.all()
	p.solved = true
	switch p.s.Solve() {
	case 1:
		vsym.Reach("sat")
		// the user's part of the model extends to the hidden variables
		a := make([]bool, p.nv+p.nh+1)
		for v := 1; v <= p.nv; v++ {
			if z.Var(v) <= p.s.MaxVar() {
				a[v] = p.s.Value(z.Var(v).Pos())
				vsym.Assert(p.s.Value(z.Var(v).Neg()) == vsym.Not(a[v]), "the values of a literal and its negation differ")
			}
		}
		ok := false
		for h := 0; h < 1<<uint(p.nh); h++ {
			for k := 0; k < p.nh; k++ {
				a[p.nv+1+k] = h>>uint(k)&1 == 1
			}
			ok = vsym.Or(ok, allHold(a, p.f, as))
		}
		vsym.Assert(ok, "the user's values satisfy the problem")
	case -1:
		vsym.Reach("unsat")
		vsym.Assert(vsym.Not(allHold(p.any(), p.f, as)), "unsatisfiable answer is right")
		p.why(as)
	default:
		vsym.Fail("solve answers 1 or -1")
	}
	p.pend = p.pend[:0]
}

func (p *app) test() {
	// testing in a scope which is known to be inconsistent isn't defined
	vsym.Assume(!p.failed)
	p.sc = p.all()
	p.pend = p.pend[:0]
	res, out := p.s.Test(make([]z.Lit, 0, 1))
	p.open++
	if res == -1 {
		vsym.Reach("inconsistent")
		p.failed = true
		vsym.Assert(vsym.Not(allHold(p.any(), p.f, p.sc)), "inconsistent answer is right")
		return
	}
	if res == 1 {
		vsym.Reach("decided")
	}
	for _, m := range out {
		vsym.Assert(m.Var() != 0 && int(m.Var()) <= p.nv, "only user literals are reported")
		a := p.any()
		vsym.Assert(vsym.Implies(allHold(a, p.f, p.sc), holds(a, m)), "reported literals are implied")
		rs := p.s.Reasons(nil, m)
		for _, r := range rs {
			vsym.Assert(r.Var() != 0 && int(r.Var()) <= p.nv, "reasons are literals of the user")
			vsym.Assert(r != m, "a literal isn't its own reason")
			a := p.any()
			vsym.Assert(vsym.Implies(allHold(a, p.f, p.sc), holds(a, r)), "reasons are implied")
		}
	}
	if p.open > 1 || p.solved {
		return
	}
	// the same as from a solver without hidden variables.
	g := gini.New()
	for _, c := range p.f {
		for _, m := range c {
			g.Add(m)
		}
		g.Add(z.LitNull)
	}
	g.Assume(p.sc...)
	bres, bout := g.Test([]z.Lit{})
	// (whether a consistent answer is 1 or 0 depends on how many variables exist)
	vsym.Assert(bres != -1, "Test answers like a plain solver")
	n := 0
	for _, m := range bout {
		if int(m.Var()) > p.nv {
			continue
		}
		n++
		in := false
		for _, o := range out {
			in = vsym.Or(in, m == o)
		}
		vsym.Assert(in, "Test reports what a plain solver reports")
	}
	vsym.Assert(n == len(out), "Test reports no more than a plain solver")
}

func (p *app) user(name string) z.Lit { return z.Lit(vsym.Int(name, 2, 2*p.nv+1)) }

// Sv: a solver with hidden variables, used through user literals. Parameter s:
// 1 clause over the user's literals 2 hidden variable with a clause defining it
// 3 assume 4 solve 5 test 6 untest 7 copy and go on with the copy 8 Lit.
func Sv() {
	p := &app{nv: vsym.P("nv", 2), vs: z.NewVars()}
	p.s = gini.NewSvVars(p.vs)
	var script []int
	for s := vsym.P("s", 1); s > 0; s /= 10 {
		script = append([]int{s % 10}, script...)
	}
	var old *app
	for _, op := range script {
		switch op {
		case 1:
			p.add(p.user("l"), p.user("l"))
		case 2:
			p.hide()
			h := z.Var(p.nv + p.nh).Pos()
			if vsym.Bool("neg") {
				h = h.Not()
			}
			p.add(h, p.user("l"))
			p.add(h.Not(), p.user("l"))
		case 3:
			p.assume(p.user("as"))
		case 4:
			p.solve()
		case 5:
			p.test()
		case 6:
			p.s.Untest()
			p.sc = p.sc[:0]
			p.open--
			p.failed = false
		case 7:
			old = &app{}
			*old = *p
			old.f = append(cnf(nil), p.f...)
			old.hid = append([]z.Lit(nil), p.hid...)
			old.pend = append([]z.Lit(nil), p.pend...)
			c := p.s.SCopy()
			sv, ok := c.(inter.Sv)
			vsym.Assert(ok, "the copy hides variables as well")
			p.s = sv
			// the copy goes on with its own mapping, which isn't accessible:
			// what is added to it is up to it, so it is only asked from now on.
		case 8:
			m := p.s.Lit()
			vsym.Assert(m.Var() != 0 && m.IsPos(), "a fresh literal is positive")
			vsym.Assert(int(m.Var()) > p.nv, "a fresh literal isn't one of the user's")
			in := p.vs.ToInner(m)
			for _, h := range p.hid {
				vsym.Assert(in.Var() != h.Var(), "a fresh literal isn't a hidden one")
			}
			for v := 1; v <= p.nv; v++ {
				vsym.Assert(in.Var() != p.vs.ToInner(z.Var(v).Pos()).Var(), "a fresh literal isn't an old one")
			}
			// it is free
			k := m
			if vsym.Bool("neg") {
				k = m.Not()
			}
			assumed := vsym.Bool("assumed")
			if assumed {
				p.s.Assume(k)
			}
			as := p.all()
			if p.s.Solve() == 1 {
				vsym.Assert(p.s.MaxVar() >= m.Var(), "a fresh variable counts")
				vsym.Assert(p.s.Value(k) == vsym.Not(p.s.Value(k.Not())), "a fresh literal has a value")
				if assumed {
					vsym.Assert(p.s.Value(k), "a fresh literal has the assumed value")
				}
			} else {
				vsym.Assert(vsym.Not(allHold(p.any(), p.f, as)), "a fresh literal doesn't constrain")
			}
			p.pend = p.pend[:0]
		}
	}
	if old != nil {
		old.solve()
	}
	// every variable up to MaxVar has a value
	if p.open == 0 && p.s.Solve() == 1 {
		for v := z.Var(1); v <= p.s.MaxVar(); v++ {
			vsym.Assert(p.s.Value(v.Pos()) == vsym.Not(p.s.Value(v.Neg())), "every variable has a value")
		}
	}
	vsym.Reach("end")
}

// Plain: a wrapped solver which is only used through user literals. Parameter
// s: 1 clause 3 assume 4 solve 5 test 6 untest 2 inner variable.
func Plain() {
	p := &app{nv: vsym.P("nv", 2), s: gini.NewSv()}
	seen := z.Var(0) // variables up to this have been mapped
	var script []int
	for s := vsym.P("s", 1); s > 0; s /= 10 {
		script = append([]int{s % 10}, script...)
	}
	for _, op := range script {
		switch op {
		case 1:
			p.add(p.user("l"), p.user("l"))
		case 2:
			// Add doesn't tell the user's literals from others
			vsym.Known("sv-add", true)
			m := p.s.Inner()
			vsym.Assert(m.Var() != 0, "an inner literal has a variable")
		case 3:
			m := p.user("as")
			p.assume(m)
			if m.Var() > seen {
				seen = m.Var()
			}
		case 4:
			p.solve()
		case 5:
			// variables which were only added aren't reported
			unseen := false
			for _, c := range p.f {
				for _, m := range c {
					unseen = vsym.Or(unseen, m.Var() > seen)
				}
			}
			vsym.Known("sv-add", unseen)
			p.test()
		case 6:
			p.s.Untest()
			p.sc = p.sc[:0]
			p.open--
			p.failed = false
		}
	}
	vsym.Reach("end")
}
