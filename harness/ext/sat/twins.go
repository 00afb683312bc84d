package sat

// A solver and its copy at work at the same time.

import (
	"bytes"

	"github.com/go-air/gini"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() { vsym.Register("sat.Twins", Twins) }

// twin is one of the two with what it is to do: the digits of a script, and the
// literals to do it with.
type twin struct {
	r   *ref
	g   *gini.Gini
	ops []int
	ms  []z.Lit

	res int
	as  []z.Lit // assumptions of the last solve
}

func digits(n int) []int {
	var ds []int
	for ; n > 0; n /= 10 {
		ds = append([]int{n % 10}, ds...)
	}
	return ds
}

func (t *twin) lit() z.Lit {
	m := t.ms[0]
	t.ms = t.ms[1:]
	return m
}

// run must not use vsym: it isn't meant for several goroutines.
func (t *twin) run() {
	r, g := t.r, t.g
	for _, op := range t.ops {
		switch op {
		case 1:
			r.add(g, t.lit(), t.lit())
		case 2:
			m := t.lit()
			g.Assume(m)
			r.pend = append(r.pend, m)
		case 3, 7:
			if op == 3 {
				t.res = g.Solve()
			} else {
				t.res = g.GoSolve().Wait()
			}
			t.as = r.pend
			r.pend = nil
		case 4:
			if t.res, _ = g.Test(nil); t.res == 0 {
				g.Solve()
			}
			g.Untest()
			r.pend = nil
		case 5:
			// a clause which holds for one solve
			g.Add(t.lit())
			g.Add(t.lit())
			a := g.Activate()
			g.Assume(a)
			g.Solve()
			g.Deactivate(a)
			r.pend = nil
		case 6:
			c := g.Copy()
			c.Add(t.lit())
			c.Add(z.LitNull)
			c.Solve()
		case 8:
			g.Write(&bytes.Buffer{})
		case 9:
			if t.res == -1 {
				g.Why(nil)
			}
		}
	}
}

// Twins: a script on the original and another one on its copy, at the same time.
func Twins() {
	nv := vsym.P("nv", 3)
	r := &ref{nv: nv, mode: vsym.P("mode", 15)}
	g := gini.NewVc(vsym.P("vcap", 3), 3)
	r.base(g)
	x := uint32(vsym.P("seed", 1))
	left := vsym.P("draw", 2) // literals which are arbitrary, the rest is pseudo random
	draw := func(n int) []z.Lit {
		var ms []z.Lit
		for len(ms) < n {
			if left > 0 {
				left--
				ms = append(ms, z.Lit(vsym.Conc(vsym.Int("lit", 2, 2*nv+1))))
			} else {
				ms = append(ms, anyClause(&x, 1, nv)...)
			}
		}
		return ms
	}
	pre := digits(vsym.P("pre", 0))
	a := &twin{r: r, g: g, ops: pre, ms: draw(2 * len(pre))}
	a.run()
	b := &twin{r: r.copy(), g: g.Copy(), ops: digits(vsym.P("t", 3))}
	a.ops = digits(vsym.P("s", 3))
	a.ms, b.ms = draw(2*len(a.ops)), draw(2*len(b.ops))
	done := make(chan bool)
	go func() {
		b.run()
		done <- true
	}()
	a.run()
	<-done
	for _, t := range []*twin{a, b} {
		t.r.judge(t.g, t.res, t.as)
	}
	vsym.Reach("end")
}
