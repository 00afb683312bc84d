package sat

// Clauses switched by activation literals.

import (
	"github.com/go-air/gini"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("sat.Active", Active)
	vsym.Register("sat.ActiveScript", ActiveScript)
}

type group struct {
	act z.Lit
	f   cnf
}

type actRef struct {
	*ref
	groups []*group
	pad    []z.Lit // literals of a long clause
	padAct z.Lit   // under which it is active
	made   int     // clauses activated
	twin   *actRef // a copy which goes on as well
	other  *gini.Gini
}

// write checks the written text, activation literals being ordinary variables.
func (r *actRef) write(g *gini.Gini) {
	var in cnf
	in = append(in, r.f...)
	for _, gr := range r.groups {
		for _, c := range gr.f {
			in = append(in, append(append([]z.Lit(nil), c...), gr.act.Not()))
		}
	}
	r.writeX(g, in, in)
}

// under is the reference of a solve with the groups in mask assumed.
func (r *actRef) under(mask int) *ref {
	o := &ref{nv: r.nv, mode: r.mode}
	o.f = append(o.f, r.f...)
	for i, gr := range r.groups {
		if mask>>uint(i)&1 == 1 {
			o.f = append(o.f, gr.f...)
		}
	}
	return o
}

func newActRef() (*actRef, *gini.Gini) {
	nv := vsym.P("nv", 2)
	r := &actRef{ref: &ref{nv: nv, mode: vsym.P("mode", 3)}}
	g := gini.NewVc(vsym.P("vcap", 3), 3)
	for i := 0; i < nv; i++ {
		g.Lit()
	}
	for i := 0; i < vsym.P("pad", 0); i++ {
		r.pad = append(r.pad, g.Lit())
	}
	n2 := vsym.P("n2", 0)
	for i := 0; i < n2; i++ {
		r.add(g, signed(combo(i, 2, nv))...)
	}
	for i := 0; i < vsym.P("n3", 0); i++ {
		r.add(g, signed(combo(i, 3, nv))...)
	}
	r.base(g)
	for i := 0; i < vsym.P("nc", 0); i++ {
		r.add(g, clause("lit", nv, vsym.P("wmin", 2), vsym.P("w", 2))...)
	}
	return r, g
}

// activate adds clause c to a new group, or to group i if i >= 0.
func (r *actRef) activate(g *gini.Gini, i int, c []z.Lit) {
	var gr *group
	empty := false
	defer func() {
		if e := recover(); e != nil {
			// documented for clauses without any literal left: then the
			// rest is undefined.
			a := anyAssignment(r.nv)
			vsym.Assert(vsym.Implies(allHold(a, r.f), vsym.Not(clauseHolds(a, c))), "activating a clause which is not empty works")
			empty = true
		}
		if empty {
			vsym.Assume(false)
		}
	}()
	if i < 0 {
		gr = &group{}
		if vsym.P("with", 0) == 1 {
			gr.act = g.ActivationLit()
			for _, m := range c {
				g.Add(m)
			}
			g.ActivateWith(gr.act)
		} else {
			for _, m := range c {
				g.Add(m)
			}
			gr.act = g.Activate()
		}
		vsym.Assert(int(gr.act.Var()) > r.nv, "an activation literal is not a user variable")
		for _, h := range r.groups {
			vsym.Assert(h.act.Var() != gr.act.Var(), "activation literals in use are distinct")
		}
		r.groups = append(r.groups, gr)
	} else {
		gr = r.groups[i]
		for _, m := range c {
			g.Add(m)
		}
		g.ActivateWith(gr.act)
	}
	gr.f = append(gr.f, c)
}

func (r *actRef) solve(g *gini.Gini, mask int, as ...z.Lit) int {
	var all []z.Lit
	for i, gr := range r.groups {
		if mask>>uint(i)&1 == 1 {
			all = append(all, gr.act)
		}
	}
	g.Assume(all...)
	g.Assume(as...)
	res := g.Solve()
	r.under(mask).judge(g, res, as)
	return res
}

func (r *actRef) deactivate(g *gini.Gini, i int) {
	g.Deactivate(r.groups[i].act)
	r.groups = append(r.groups[:i:i], r.groups[i+1:]...)
}

// Active: an arbitrary sequence of operations.
func Active() {
	r, g := newActRef()
	steps := vsym.P("steps", 4)
	for i := 0; i < steps; i++ {
		r.op(g, 1+vsym.Choose("op", 6))
	}
	r.solve(g, vsym.Choose("mask", 1<<uint(len(r.groups))))
	vsym.Reach("end")
}

// clause is the next to activate; the first ones are fixed if parameter fix
// is given.
func (r *actRef) clause(lo, hi int) []z.Lit {
	r.made++
	if r.made <= vsym.P("fix", 0) {
		return []z.Lit{z.Var(1 + r.made%r.nv).Pos()}
	}
	if w := vsym.P("asgn", 0); w > 0 {
		// over given variables, with arbitrary signs
		return signed(combo(r.made-1, w, r.nv))
	}
	return clause("cl", r.nv, lo, hi)
}

func (r *actRef) op(g *gini.Gini, op int) {
	nv := r.nv
	lo, hi := vsym.P("amin", 1), vsym.P("amax", 1)
	switch op {
	case 1:
		r.activate(g, -1, r.clause(lo, hi))
		if n := vsym.P("gbase", 0); n > 0 {
			// and fixed ones
			x := uint32(vsym.P("seed", 1) + r.made)
			for i := 0; i < n; i++ {
				r.activate(g, len(r.groups)-1, anyClause(&x, 3, nv))
			}
		}
	case 2:
		if len(r.groups) == 0 {
			vsym.Assume(false)
		}
		i := 0
		if r.made >= vsym.P("fix", 0) {
			i = vsym.Choose("group", len(r.groups))
		}
		r.activate(g, i, r.clause(lo, hi))
	case 3:
		r.solve(g, vsym.Choose("mask", 1<<uint(len(r.groups))))
	case 4:
		if len(r.groups) == 0 {
			vsym.Assume(false)
		}
		vsym.Reach("deactivate")
		r.deactivate(g, vsym.Choose("group", len(r.groups)))
	case 5:
		r.add(g, clause("cl", nv, lo, vsym.P("wadd", hi))...)
	case 6:
		r.solve(g, vsym.Choose("mask", 1<<uint(len(r.groups))), lit("as", nv))
	case 7:
		r.solve(g, 1<<uint(len(r.groups))-1)
	case 9:
		r.write(g)
	case 0:
		// a long clause, which nothing depends on, comes and goes, so that
		// the clause storage is compacted.
		if vsym.P("padin", 0) == 1 {
			// it goes with the last clauses
			for _, m := range r.pad {
				g.Add(m)
			}
			g.ActivateWith(r.groups[len(r.groups)-1].act)
			return
		}
		if r.padAct == z.LitNull {
			for _, m := range r.pad {
				g.Add(m)
			}
			r.padAct = g.Activate()
			for _, h := range r.groups {
				vsym.Assert(h.act.Var() != r.padAct.Var(), "activation literals in use are distinct")
			}
			return
		}
		g.Deactivate(r.padAct)
		r.padAct = z.LitNull
	case 8:
		o := g.Copy()
		if vsym.Choose("which", 2) == 1 {
			*g, *o = *o, *g
		}
		q := &actRef{ref: &ref{nv: nv, mode: r.mode}, pad: r.pad, padAct: r.padAct, made: r.made}
		q.f = append(q.f, r.f...)
		for _, gr := range r.groups {
			q.groups = append(q.groups, &group{act: gr.act, f: append(cnf(nil), gr.f...)})
		}
		if vsym.P("twin", 0) == 1 {
			r.twin, r.other = q, o
			return
		}
		if len(q.groups) > 0 {
			q.deactivate(o, 0)
		}
		q.add(o, clause("other", nv, 1, 1)...)
		q.solve(o, 1<<uint(len(q.groups))-1)
	}
}

// ActiveScript: the digits of parameter s.
func ActiveScript() {
	r, g := newActRef()
	script := vsym.P("s", 3)
	p10 := 1
	for p10*10 <= script {
		p10 *= 10
	}
	for ; p10 > 0; p10 /= 10 {
		op := script / p10 % 10
		if r.twin != nil {
			r.twin.op(r.other, op)
		}
		r.op(g, op)
	}
	vsym.Reach("end")
}
