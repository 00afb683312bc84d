package axs

// Assumption exchanges: every accepted request gets one response, its own.

import (
	"sync"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("axs.Ex", Ex)
	vsym.Register("axs.Gen", Gen)
}

// world: what the solvers know: unit clauses, one for each variable.
type world struct {
	mu      sync.Mutex
	nv      int
	a       []bool
	slow    []int // by Id of the literal sequence: tests before there is a result
	started int
	ended   int
	units   int
}

func (w *world) lock() {
	if !vsym.Symbolic() {
		w.mu.Lock()
	}
}

func (w *world) unlock() {
	if !vsym.Symbolic() {
		w.mu.Unlock()
	}
}

func (w *world) holds(m z.Lit) bool {
	r := false
	for v := 1; v <= w.nv; v++ {
		p := z.Var(v).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, w.a[v]), vsym.And(m == p.Not(), vsym.Not(w.a[v]))))
	}
	return r
}

// unit is a solver which answers after a number of looks.
type unit struct {
	w    *world
	ms   []z.Lit
	why  []z.Lit
	busy bool
	res  int
}

type run struct {
	u    *unit
	ms   []z.Lit
	left int
	done bool
}

func (u *unit) idle(what string) {
	vsym.Assert(!u.busy, what+" while the solver is solving")
}

func (u *unit) MaxVar() z.Var { return z.Var(u.w.nv) }
func (u *unit) Lit() z.Lit    { panic("no new literals") }
func (u *unit) Add(m z.Lit)   { panic("no new clauses") }
func (u *unit) Solve() int    { panic("solve") }
func (u *unit) Try(d time.Duration) int {
	panic("try")
}
func (u *unit) Value(m z.Lit) bool {
	u.idle("model")
	vsym.Assert(u.res == 1, "models are those of satisfiable answers")
	return u.w.holds(m)
}
func (u *unit) Assume(ms ...z.Lit) {
	u.idle("assume")
	u.ms = append(u.ms, ms...)
}
func (u *unit) Why(dst []z.Lit) []z.Lit {
	u.idle("why")
	vsym.Assert(u.res == -1, "reasons are those of unsatisfiable answers")
	return append(dst, u.why...)
}
func (u *unit) Test(dst []z.Lit) (int, []z.Lit) { panic("test") }
func (u *unit) Untest() int                     { panic("untest") }
func (u *unit) Reasons(dst []z.Lit, m z.Lit) []z.Lit {
	panic("reasons")
}
func (u *unit) SCopy() inter.S {
	u.idle("copy")
	u.w.lock()
	u.w.units++
	u.w.unlock()
	return &unit{w: u.w}
}
func (u *unit) GoSolve() inter.Solve {
	u.idle("solve")
	u.busy = true
	u.w.lock()
	// the number of looks is the request's, coded by its length
	n := u.w.slow[len(u.ms)%len(u.w.slow)]
	u.w.started++
	u.w.unlock()
	r := &run{u: u, ms: u.ms, left: n}
	u.ms = nil
	return r
}

func (r *run) finish() int {
	vsym.Assert(!r.done, "a solve isn't used after its result")
	r.done = true
	u := r.u
	u.busy = false
	u.w.lock()
	u.w.ended++
	u.w.unlock()
	u.res = 1
	u.why = nil
	for _, m := range r.ms {
		if !u.w.holds(m) {
			u.res = -1
			u.why = append(u.why, m)
			break
		}
	}
	return u.res
}

func (r *run) Test() (int, bool) {
	if r.left > 0 {
		r.left--
		return 0, false
	}
	return r.finish(), true
}
func (r *run) Stop() int {
	if r.left > 0 {
		r.finish()
		r.u.res = 0
		return 0
	}
	return r.finish()
}
func (r *run) Try(d time.Duration) int { panic("try") }
func (r *run) Pause() (int, bool)      { panic("pause") }
func (r *run) Unpause()                { panic("unpause") }
func (r *run) Wait() int               { panic("wait") }

// book of requests.
type book struct {
	w     *world
	reqs  []*ax.Request
	ms    [][]z.Lit // what was asked
	got   []bool
	n     int // answers
	flags []ax.ReqFlag
}

// fresh makes a request with a length of its own.
func (b *book) fresh() *ax.Request {
	k := len(b.reqs)
	var ms []z.Lit
	for i := 0; i <= k; i++ {
		// the first is any literal, others are repeated
		if i == 0 || vsym.P("mix", 0) == 1 {
			m := vsym.Int("m", 2, 2*b.w.nv+1)
			if vsym.P("gini", 0) == 1 {
				m = vsym.Conc(m)
			}
			ms = append(ms, z.Lit(m))
		} else {
			ms = append(ms, ms[0])
		}
	}
	r := ax.NewRequest(ms...)
	r.Flag = ax.ReqFlag(vsym.P("flag", 3))
	if vsym.P("limit", 0) == 1 {
		r.Limit = time.Microsecond
	}
	b.reqs = append(b.reqs, r)
	b.ms = append(b.ms, ms)
	b.got = append(b.got, false)
	return r
}

func (b *book) take(p *ax.Response) {
	if p == nil {
		vsym.Fail("a response was expected")
	}
	b.w.lock()
	defer b.w.unlock()
	k := -1
	for i, r := range b.reqs {
		if r == p.Req {
			k = i
		}
	}
	vsym.Assert(k >= 0, "responses are to requests")
	if k < 0 {
		return
	}
	vsym.Assert(!b.got[k], "a request has one response")
	b.got[k] = true
	b.n++
	vsym.Assert(p.Who >= 0 && p.Who < vsym.P("cap", 2), "responses tell the unit")
	vsym.Assert(len(p.Req.Ms) == len(b.ms[k]), "the request is as it was made")
	good := true
	for i, m := range b.ms[k] {
		vsym.Assert(p.Req.Ms[i] == m, "the request is as it was made")
		good = vsym.And(good, b.w.holds(m))
	}
	limit := p.Req.Limit != 0
	switch p.Res {
	case 1:
		vsym.Reach("sat")
		vsym.Assert(good, "satisfiable answers are right")
		if p.Req.Flag.Model() {
			vsym.Assert(len(p.Ms) == b.w.nv*(1+vsym.P("gini", 0)), "a model has all variables")
			for i, m := range p.Ms {
				vsym.Assert(m.Var() == z.Var(i+1), "a model has all variables in order")
				if i < b.w.nv {
					vsym.Assert(b.w.holds(m), "a model is one")
				}
			}
		} else {
			vsym.Assert(len(p.Ms) == 0, "a model is given to those who ask")
		}
	case -1:
		vsym.Reach("unsat")
		vsym.Assert(vsym.Not(good), "unsatisfiable answers are right")
		if p.Req.Flag.Why() {
			vsym.Assert(len(p.Ms) >= 1, "reasons are given")
			bad := true
			for _, m := range p.Ms {
				in := false
				for _, o := range b.ms[k] {
					in = vsym.Or(in, m == o)
				}
				vsym.Assert(in, "reasons are assumptions")
				bad = vsym.And(bad, b.w.holds(m))
			}
			vsym.Assert(vsym.Not(bad), "reasons suffice")
		} else {
			vsym.Assert(len(p.Ms) == 0, "reasons are given to those who ask")
		}
	default:
		vsym.Assert(p.Res == 0, "answers are -1, 0 and 1")
		vsym.Assert(limit, "only a time limit leaves a request undecided")
		vsym.Assert(len(p.Ms) == 0, "no data without result")
		vsym.Reach("undecided")
	}
}

// Ex: parameter s: what the client does: 1 exchange a new request, 2 the same
// without blocking, 3 wait for a response if some is due, 4 look for one, 5 ask
// for the responses due, 6 stop and look whether everything has.
// Parameter others: requests another client makes.
func Ex() {
	nv := vsym.P("nv", 1)
	w := &world{nv: nv, a: make([]bool, nv+1)}
	for v := 1; v <= nv; v++ {
		w.a[v] = vsym.Bool("unit")
	}
	for i := 0; i < 4; i++ {
		n := 0
		if vsym.P("slow", 0) > 0 {
			n = vsym.Choose("looks", vsym.P("slow", 0)+1)
		}
		w.slow = append(w.slow, n)
	}
	var s inter.S = &unit{w: w}
	if vsym.P("gini", 0) == 1 {
		g := gini.New()
		for v := 1; v <= nv; v++ {
			// by way of another variable
			o := z.Var(nv + v)
			u := z.Var(v).Pos()
			w.a[v] = vsym.Conc(vsym.B2i(w.a[v])) == 1
			if !w.a[v] {
				u = u.Not()
			}
			g.Add(o.Pos())
			g.Add(u)
			g.Add(0)
			g.Add(o.Neg())
			g.Add(u)
			g.Add(0)
		}
		s = g
	}
	b := &book{w: w}
	t := ax.NewT(s, vsym.P("cap", 2))
	in := 0 // accepted requests
	due := func() int { return in - b.n }
	pend := func(p *ax.Response) {
		b.take(p)
		if vsym.P("others", 0) == 0 {
			vsym.Assert(p.Pending == due(), "responses tell how many are to come")
			vsym.Assert(p.HasPending() == (p.Pending == 0), "the last response is known as such")
		}
	}
	drain := func() {
		for due() > 0 {
			pend(t.Ex(nil))
		}
	}
	done := make(chan struct{})
	if n := vsym.P("others", 0); n > 0 {
		o := b.fresh()
		in++
		go func() {
			for {
				p := t.Ex(o)
				if p == nil {
					break
				}
				b.take(p)
			}
			close(done)
		}()
	} else {
		close(done)
	}
	var r *ax.Request // not yet accepted
	script := vsym.P("s", 115)
	p10 := 1
	for p10*10 <= script {
		p10 *= 10
	}
	for ; p10 > 0; p10 /= 10 {
		switch script / p10 % 10 {
		case 1:
			if r == nil {
				r = b.fresh()
			}
			if p := t.Ex(r); p == nil {
				r = nil
				in++
			} else {
				vsym.Reach("response first")
				pend(p)
			}
		case 2:
			if r == nil {
				r = b.fresh()
			}
			p, ok := t.TryEx(r)
			vsym.Assert(p == nil || ok, "a response is an exchange")
			if p != nil {
				vsym.Reach("response at once")
				pend(p)
			} else if ok {
				vsym.Reach("accepted at once")
				r = nil
				in++
			} else {
				vsym.Reach("neither")
			}
		case 3:
			if due() > 0 {
				pend(t.Ex(nil))
			}
		case 4:
			p, ok := t.TryEx(nil)
			vsym.Assert((p != nil) == ok, "without request an exchange is a response")
			if ok {
				pend(p)
			}
		case 5:
			<-done
			drain()
			for i, k := range b.got {
				vsym.Assert(k || b.reqs[i] == r, "every accepted request has a response")
			}
			if _, ok := t.TryEx(nil); ok {
				vsym.Fail("there are no further responses")
			}
		case 6:
			if vsym.P("others", 0) > 0 {
				<-done
			}
			t.Stop()
			vsym.Settle()
			w.lock()
			vsym.Assert(w.started == w.ended, "solving has stopped")
			w.unlock()
			if vsym.P("after", 0) == 1 {
				// an exchange after the end doesn't hang
				t.Ex(nil)
				t.Ex(b.fresh())
				t.TryEx(nil)
				t.TryEx(b.fresh())
			}
			vsym.Reach("stopped")
		}
	}
	vsym.Assert(w.units < vsym.P("cap", 2), "there are no more solvers than allowed")
	vsym.Reach("end")
}

// Gen: requests have identities of their own and what was asked for.
func Gen() {
	g := ax.NewRequestGen()
	f := ax.ReqFlag(vsym.Int("flag", 0, 3))
	l := time.Duration(vsym.Int("limit", 0, 3))
	g.SetFlag(f)
	g.Limit(l)
	vsym.Assert(g.Flag() == f, "the flag is as set")
	n := 3
	seen := make([]int, 0, n)
	for i := 0; i < n; i++ {
		ms := make([]z.Lit, vsym.Choose("len", 3))
		was := make([]z.Lit, len(ms))
		for j := range ms {
			ms[j] = z.Lit(vsym.Uint32("m"))
			was[j] = ms[j]
		}
		r := g.New(ms...)
		vsym.Assert(r.Flag == f, "requests have the flag")
		vsym.Assert(r.Limit == l, "requests have the limit")
		for _, o := range seen {
			vsym.Assert(o != r.Id, "requests have their own identity")
		}
		seen = append(seen, r.Id)
		vsym.Assert(len(r.Ms) == len(ms), "requests have the assumptions")
		for j := range ms {
			ms[j] = 0
			vsym.Assert(r.Ms[j] == was[j], "requests keep the assumptions")
		}
		vsym.Assert(r.Flag.Model() == (f&ax.ReqModel != 0), "flags tell models")
		vsym.Assert(r.Flag.Why() == (f&ax.ReqWhy != 0), "flags tell reasons")
	}
	vsym.Reach("end")
}
