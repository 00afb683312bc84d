package ctl

// Solves in their own goroutine under control of another.

import (
	"math"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("ctl.Ctl", Ctl)
}

type cnf [][]z.Lit

func holds(a []bool, m z.Lit) bool {
	r := false
	for v := 1; v < len(a); v++ {
		p := z.Var(v).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, a[v]), vsym.And(m == p.Not(), vsym.Not(a[v]))))
	}
	return r
}

func allHold(a []bool, f cnf, as []z.Lit) bool {
	r := true
	for _, c := range f {
		k := false
		for _, m := range c {
			k = vsym.Or(k, holds(a, m))
		}
		r = vsym.And(r, k)
	}
	for _, m := range as {
		r = vsym.And(r, holds(a, m))
	}
	return r
}

type world struct {
	s  inter.S
	x  *xo.S
	f  cnf
	nv int
}

func (w *world) add(ms ...z.Lit) {
	for _, m := range ms {
		w.s.Add(m)
	}
	w.s.Add(z.LitNull)
	w.f = append(w.f, ms)
}

// php: h+1 pigeons in h holes if variable 1 holds.
func (w *world) php(h int) {
	at := func(p, q int) z.Lit { return z.Var(2 + p*h + q).Pos() }
	for p := 0; p <= h; p++ {
		c := []z.Lit{z.Var(1).Neg()}
		for q := 0; q < h; q++ {
			c = append(c, at(p, q))
		}
		w.add(c...)
	}
	for q := 0; q < h; q++ {
		for p := 0; p <= h; p++ {
			for o := 0; o < p; o++ {
				w.add(at(p, q).Not(), at(o, q).Not())
			}
		}
	}
}

func (w *world) judge(s inter.S, res int, as []z.Lit) {
	switch res {
	case 1:
		vsym.Reach("sat")
		a := make([]bool, w.nv+1)
		for v := 1; v <= w.nv; v++ {
			a[v] = s.Value(z.Var(v).Pos())
		}
		vsym.Assert(allHold(a, w.f, as), "model satisfies clauses and assumptions")
	case -1:
		vsym.Reach("unsat")
		a := make([]bool, w.nv+1)
		for v := 1; v <= w.nv; v++ {
			a[v] = vsym.Bool("a")
		}
		vsym.Assert(vsym.Not(allHold(a, w.f, as)), "unsatisfiable answer is right")
	default:
		vsym.Assert(res == 0, "answers are -1, 0 or 1")
		vsym.Reach("undecided")
	}
}

// busy makes the search loop look at its controls at every step: the count of
// propagations is at the end of its range.
func (w *world) busy() {
	if w.x != nil {
		w.x.Trail.Props = math.MaxInt64 - 10000
	}
}

// calm undoes it.
func (w *world) calm() {
	if w.x != nil {
		w.x.Trail.Props = 0
	}
}

// Ctl: parameter s is the sequence of controls: 1 test 2 pause and resume
// 3 stop 4 try 5 wait 6 pause, look at a copy, resume 7 pause, read statistics,
// resume; 8 instead of all that, a limited solve.
func Ctl() {
	h := vsym.P("php", 2)
	w := &world{nv: 1 + h*(h+1)}
	if vsym.P("gini", 0) == 1 {
		w.s = gini.New()
	} else {
		w.x = xo.NewS()
		w.s = w.x
	}
	w.php(h)
	rounds := vsym.P("rounds", 1)
	for i := 0; i < rounds; i++ {
		w.round()
	}
	// later solves have no limit
	m := z.Lit(vsym.Conc(vsym.Int("last", 2, 3)))
	w.s.Assume(m)
	w.busy()
	res := w.s.Solve()
	w.calm()
	vsym.Assert(res != 0, "a solve without limit answers 1 or -1")
	w.judge(w.s, res, []z.Lit{m})
	vsym.Reach("end")
}

func (w *world) round() {
	var as []z.Lit
	// with or without the pigeons
	if m := z.Lit(vsym.Conc(vsym.Int("as", 1, 3))); m > 1 {
		w.s.Assume(m)
		as = append(as, m)
		if vsym.P("scope", 0) == 1 {
			r, _ := w.s.Test(nil)
			vsym.Assume(r != -1)
			defer w.s.Untest()
		}
	}
	script := vsym.P("s", 5)
	if script == 8 {
		w.busy()
		res := w.s.Try(time.Duration(1000))
		w.calm()
		w.judge(w.s, res, as)
		return
	}
	w.busy()
	c := w.s.GoSolve()
	p10 := 1
	for p10*10 <= script {
		p10 *= 10
	}
	for ; p10 > 0; p10 /= 10 {
		res, done, limited := 0, false, false
		switch op := script / p10 % 10; op {
		case 1:
			res, done = c.Test()
			if done {
				vsym.Reach("test done")
			} else {
				vsym.Assert(res == 0, "no result yet")
			}
		case 2, 6, 7:
			r, ok := c.Pause()
			if !ok {
				res, done = r, true
				vsym.Reach("pause late")
				break
			}
			vsym.Assert(r == 0, "no result yet")
			vsym.Reach("paused")
			if op == 6 {
				o := w.s.SCopy()
				n := z.Lit(vsym.Conc(vsym.Int("copy", 2, 3)))
				o.Assume(n)
				q := o.Solve()
				vsym.Assert(q != 0, "a copy made during a pause has no limit")
				w.judge(o, q, []z.Lit{n})
			}
			if op == 7 && w.x != nil {
				w.x.ReadStats(xo.NewStats())
			}
			c.Unpause()
		case 3:
			res, done, limited = c.Stop(), true, true
		case 4:
			res, done, limited = c.Try(time.Duration(1000)), true, true
		case 5:
			res, done = c.Wait(), true
		}
		if done {
			w.calm()
			vsym.Assert(vsym.Or(limited, res != 0), "a solve which isn't stopped answers 1 or -1")
			w.judge(w.s, res, as)
			return
		}
	}
	vsym.Fail("the script ends with a result")
}
