package wire

// Sessions with a server: what requests are answered with.

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/go-air/gini/crisp"
	gnet "github.com/go-air/gini/inter/net"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("wire.Order", Order)
	vsym.Register("wire.Session", Session)
	vsym.Register("wire.Exts", Exts)
	vsym.Register("wire.Addr", Addr)
	vsym.Register("wire.Stop", Stop)
	vsym.Register("wire.Broken", Broken)
}

// spec is what a session is about. Variables are base+1,...,base+nv.
type spec struct {
	base, nv int
	cls      [][]z.Lit
	ass      []z.Lit // assumptions for the next solve
	last     []z.Lit // assumptions of the last solve
	res      int     // its result, 2 if there is none
	stale    bool    // there were clauses or assumptions since
	maxVar   int
}

func newSpec() *spec {
	return &spec{base: vsym.P("base", 0), nv: vsym.P("nv", 2), res: 2}
}

func (s *spec) reset() {
	s.cls, s.ass, s.last, s.res, s.stale, s.maxVar = nil, nil, nil, 2, false, 0
}

func (s *spec) lit() z.Lit {
	m := vsym.Int("m", 2*(s.base+1), 2*(s.base+s.nv)+1)
	if vsym.P("conc", 0) == 1 {
		m = vsym.Conc(m)
	}
	return z.Lit(m)
}

func (s *spec) lits(n int) []z.Lit {
	var ms []z.Lit
	for i := 0; i < n; i++ {
		ms = append(ms, s.lit())
	}
	return ms
}

func (s *spec) know(ms []z.Lit) {
	for _, m := range ms {
		v := int(m) >> 1
		s.maxVar = vsym.Ite(v > s.maxVar, v, s.maxVar)
	}
}

func (s *spec) add(ms []z.Lit) {
	s.cls = append(s.cls, ms)
	s.know(ms)
	s.stale = true
}

func (s *spec) assume(ms []z.Lit) {
	s.ass = append(s.ass, ms...)
	s.know(ms)
	s.stale = true
}

func (s *spec) solve() {
	s.last = s.ass
	s.ass = nil
	s.stale = false
	s.res = 0
}

// holds: m under a, which has a bit for each variable.
func (s *spec) holds(m z.Lit, a func(v int) bool) bool {
	r := false
	for i := 0; i < s.nv; i++ {
		p := z.Var(s.base + 1 + i).Pos()
		r = vsym.Or(r, vsym.Or(vsym.And(m == p, a(i)), vsym.And(m == p.Not(), vsym.Not(a(i)))))
	}
	return r
}

// true under a: clauses and the literals.
func (s *spec) sats(ms []z.Lit, a func(v int) bool) bool {
	r := true
	for _, c := range s.cls {
		x := false
		for _, m := range c {
			x = vsym.Or(x, s.holds(m, a))
		}
		r = vsym.And(r, x)
	}
	for _, m := range ms {
		r = vsym.And(r, s.holds(m, a))
	}
	return r
}

// sat: there is a model.
func (s *spec) sat(ms []z.Lit) bool {
	r := false
	for k := 0; k < 1<<uint(s.nv); k++ {
		r = vsym.Or(r, s.sats(ms, func(v int) bool { return k&(1<<uint(v)) != 0 }))
	}
	return r
}

// result checks an answer.
func (s *spec) result(n int) {
	s.res = n
	switch n {
	case 1:
		vsym.Reach("sat")
		vsym.Assert(s.sat(s.last), "satisfiable problems are")
	case -1:
		vsym.Reach("unsat")
		vsym.Assert(vsym.Not(s.sat(s.last)), "unsatisfiable problems are")
	case 0:
		vsym.Reach("unknown")
	default:
		vsym.Fail("what a result is")
	}
}

func in(m z.Lit, ms []z.Lit) bool {
	r := false
	for _, o := range ms {
		r = vsym.Or(r, m == o)
	}
	return r
}

// failed checks reasons.
func (s *spec) failed(fs []z.Lit) {
	vsym.Reach("failed")
	for _, m := range fs {
		vsym.Assert(in(m, s.last), "failed assumptions are assumptions")
	}
	vsym.Assert(vsym.Not(s.sat(fs)), "failed assumptions are a reason")
}

// model checks a model.
func (s *spec) model(a func(v int) bool) {
	vsym.Reach("model")
	vsym.Assert(s.sats(s.last, a), "models satisfy clauses and assumptions")
}

// filter checks that got has those of ms which are in fs.
func filter(got, ms, fs []z.Lit) {
	k := 0
	for _, m := range ms {
		if in(m, fs) {
			vsym.Assert(k < len(got), "failed assumptions of interest are found")
			if k < len(got) {
				vsym.Assert(got[k] == m, "failed assumptions of interest are in order")
			}
			k++
		}
	}
	vsym.Assert(k == len(got), "only failed assumptions of interest are found")
}

// requests
const (
	rAdd = 11 + iota
	rAssume
	rSolve
	rContinue
	rEnd
	rModel
	rModelFor
	rFailed
	rFailedFor
	rExt
	rReset
	rOp
	rData
	rAssume2
	rKey
	rLong
	rMax
)

type request struct {
	k  int
	ms []z.Lit
}

func (s *spec) request(k int) request {
	r := request{k: k}
	switch k {
	case rAdd:
		r.ms = s.lits(vsym.P("w", 2))
	case rAssume:
		r.ms = s.lits(1)
	case rAssume2, rModelFor, rFailedFor:
		r.ms = many(s.lits(2))
	}
	return r
}

// many: the first is repeated so that there are n.
func many(ms []z.Lit) []z.Lit {
	var r []z.Lit
	for i := len(ms); i < vsym.P("many", 0); i++ {
		r = append(r, ms[0])
	}
	return append(r, ms...)
}

func (r request) bytes(b []byte) []byte {
	op := func(p crisp.ProtoPoint) { b = enc(b, uint32(p)) }
	lits := func() {
		for _, m := range r.ms {
			b = enc(b, uint32(m))
		}
		b = enc(b, 0)
	}
	switch r.k {
	case rAdd:
		op(crisp.Add)
		lits()
		op(crisp.End)
	case rAssume, rAssume2:
		op(crisp.Assume)
		lits()
	case rSolve:
		op(crisp.Solve)
	case rContinue:
		op(crisp.Continue)
	case rEnd:
		op(crisp.End)
	case rModel:
		op(crisp.Model)
	case rModelFor:
		op(crisp.ModelFor)
		lits()
	case rFailed:
		op(crisp.Failed)
	case rFailedFor:
		op(crisp.FailedFor)
		lits()
	case rExt:
		op(crisp.Ext)
	case rReset:
		op(crisp.Reset)
	case rOp:
		op(crisp.MinProto + 7)
	case rData:
		b = enc(b, 5)
	case rKey:
		op(crisp.Key)
		b = enc(b, 2)
		b = enc(b, 0xffffffff)
		b = enc(b, 0)
	case rLong:
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff)
	}
	return b
}

// raw is a session without a client.
type raw struct {
	*spec
	c       net.Conn
	solving bool
	fs      []z.Lit
	haveFs  bool
	dead    bool
}

// fails: the server reports an error and disconnects.
func (r *raw) fails(codes ...crisp.ProtoErr) {
	vsym.Reach("error")
	vsym.Assert(expect(r.c, crisp.Error), "bad requests are errors")
	u, e := readNum(r.c)
	ok := false
	for _, c := range codes {
		ok = vsym.Or(ok, u == uint32(c))
	}
	vsym.Assert(e == nil && ok, "errors are described")
	_, e = readNum(r.c)
	vsym.Assert(e != nil, "a server disconnects after an error")
	r.dead = true
}

func (r *raw) num() uint32 {
	u, e := readNum(r.c)
	vsym.Assert(e == nil, "requests are answered")
	return u
}

// words reads the values of a model of n.
func (r *raw) words(n int) []uint32 {
	vsym.Assert(uint32(n+31)/32 == r.num(), "the number of words of a model")
	k := vsym.Conc((n + 31) / 32)
	us := make([]uint32, k)
	for i := range us {
		us[i] = r.num()
	}
	return us
}

func (r *raw) list() []z.Lit {
	var ms []z.Lit
	for {
		u := r.num()
		if u == 0 {
			return ms
		}
		vsym.Assert(u < uint32(crisp.MinProto), "lists are of literals")
		ms = append(ms, z.Lit(u))
		vsym.Assert(len(ms) < 100, "lists end")
	}
}

func (r *raw) answer(end bool) {
	switch crisp.ProtoPoint(r.num()) {
	case crisp.Sat:
		r.solving = false
		r.result(1)
	case crisp.Unsat:
		r.solving = false
		r.result(-1)
	case crisp.Unknown:
		vsym.Reach("later")
		vsym.Assert(!end, "solving ends")
		r.solving = true
	case crisp.End:
		vsym.Assert(end, "a solve ends when asked to")
		r.solving = false
		r.result(0)
	default:
		vsym.Fail("solves are answered")
	}
	r.haveFs = false
}

// ready: a request needs a result.
func (r *raw) ready(res int, e crisp.ProtoErr) bool {
	switch {
	case r.solving:
		r.fails(crisp.ErrOutOfOrder)
	case r.stale && r.res != 2:
		// which of both is wrong first isn't said
		if r.res != res {
			r.fails(crisp.ErrOutOfOrder, e)
		} else {
			r.fails(crisp.ErrOutOfOrder)
		}
	case r.res == 2:
		r.fails(crisp.ErrOutOfOrder, e)
	case r.res != res:
		r.fails(e)
	default:
		return true
	}
	return false
}

// reply checks what is the answer to q.
func (r *raw) reply(q request) {
	switch q.k {
	case rContinue:
		if !r.solving {
			r.fails(crisp.ErrOutOfOrder)
			return
		}
		r.answer(false)
		return
	case rEnd:
		if !r.solving {
			r.fails(crisp.ErrOutOfOrder)
			return
		}
		r.answer(true)
		return
	case rOp:
		if r.solving {
			r.fails(crisp.ErrUnknownOp, crisp.ErrOutOfOrder)
		} else {
			r.fails(crisp.ErrUnknownOp)
		}
		return
	case rData:
		if r.solving {
			r.fails(crisp.ErrNotOp, crisp.ErrUnknownOp, crisp.ErrOutOfOrder)
		} else {
			r.fails(crisp.ErrNotOp, crisp.ErrUnknownOp)
		}
		return
	case rLong:
		r.fails(crisp.ErrVarUint)
		return
	case rModel:
		if r.ready(1, crisp.ErrNotSat) {
			us := r.words(r.maxVar)
			r.model(func(v int) bool {
				v += r.base
				return v/32 < len(us) && us[v/32]&(1<<uint(v%32)) != 0
			})
		}
		return
	case rModelFor:
		if r.ready(1, crisp.ErrNotSat) {
			us := r.words(len(q.ms))
			// what is said about the literals goes with the rest
			var ms []z.Lit
			for i, m := range q.ms {
				ms = append(ms, m^z.Lit(vsym.B2i(us[i/32]&(1<<uint(i%32)) == 0)))
			}
			vsym.Reach("model for")
			vsym.Assert(r.sat(append(ms, r.last...)), "values are those of a model")
		}
		return
	case rFailed:
		if r.ready(-1, crisp.ErrNotUnsat) {
			r.fs = r.list()
			r.haveFs = true
			r.failed(r.fs)
		}
		return
	case rFailedFor:
		if r.ready(-1, crisp.ErrNotUnsat) {
			got := r.list()
			if r.haveFs {
				vsym.Reach("failed for")
				filter(got, q.ms, r.fs)
			} else {
				for _, m := range got {
					vsym.Assert(in(m, q.ms), "failed assumptions of interest are of interest")
				}
			}
		}
		return
	}
	if r.solving {
		r.fails(crisp.ErrOutOfOrder)
		return
	}
	switch q.k {
	case rAdd:
		r.add(q.ms)
	case rAssume, rAssume2:
		r.assume(q.ms)
	case rSolve:
		r.solve()
		r.answer(false)
	case rExt:
		vsym.Assert(r.num() == 0, "there are no extensions")
	case rReset:
		r.reset()
	case rKey:
		r.res = 2
	}
}

func digits() []int {
	var ks []int
	for s := vsym.P("s", 111316); s > 0; s /= 100 {
		ks = append([]int{s % 100}, ks...)
	}
	return ks
}

// dialRaw gives a connection which has been greeted.
func dialRaw(a string) net.Conn {
	c, e := net.Dial("unix", a[1:])
	vsym.Assert(e == nil, "a server accepts")
	for _, x := range []byte("CRISP") {
		vsym.Assert(expect(c, crisp.ProtoPoint(x)), "a server greets")
	}
	vsym.Assert(expect(c, crisp.ProtoPoint(crisp.V)), "a server greets")
	return c
}

func serve() string {
	a := address()
	s, e := crisp.NewServer(a)
	vsym.Assert(e == nil, "a server starts")
	go s.Serve()
	return a
}

// Order: requests of all kinds and in any order get the answers which the
// protocol has for them. Parameter s: the requests, two digits for each, 99
// for any of them. pipe: the requests are sent before answers are read.
func Order() {
	a := serve()
	r := &raw{spec: newSpec(), c: dialRaw(a)}
	r.run(digits())
	// the server goes on
	if vsym.P("more", 1) == 1 {
		r = &raw{spec: newSpec(), c: dialRaw(a)}
		r.run([]int{rAdd, rAssume, rSolve})
	}
	vsym.Reach("end")
}

func (r *raw) run(ks []int) {
	var qs []request
	for _, k := range ks {
		if k == 99 {
			k = rAdd + vsym.Choose("op", rMax-rAdd)
		}
		qs = append(qs, r.request(k))
	}
	pipe := vsym.P("pipe", 0) == 1
	if pipe {
		var b []byte
		for _, q := range qs {
			b = q.bytes(b)
		}
		put(r.c, b)
	}
	for _, q := range qs {
		if !pipe {
			put(r.c, q.bytes(nil))
		}
		r.reply(q)
		if r.dead {
			r.c.Close()
			return
		}
	}
	// maybe while solving
	put(r.c, enc(nil, uint32(crisp.Quit)))
	_, e := readNum(r.c)
	vsym.Assert(e != nil, "a server disconnects after quit")
	r.c.Close()
}

// Session: a client gets the answers which a solver has. Parameter s: what is
// done, two digits for each.
func Session() {
	a := serve()
	if vsym.P("clients", 1) == 2 {
		done := make(chan struct{})
		go func() {
			defer close(done)
			session(a, newSpec(), []int{11, 12, 13, 28})
		}()
		session(a, newSpec(), digits())
		<-done
	} else {
		session(a, newSpec(), digits())
	}
	vsym.Reach("end")
}

func dial(a string) *crisp.Client {
	c, e := crisp.Dial(a)
	vsym.Assert(e == nil, "a client greets the server")
	return c
}

func session(a string, s *spec, ks []int) {
	c := dial(a)
	none := func(e error) { vsym.Assert(e == nil, "requests are answered") }
	get := func(n int, e error) {
		none(e)
		s.result(n)
	}
	// value under a model
	val := func(bs []bool) func(v int) bool {
		return func(v int) bool {
			i := s.base + v + 1
			vsym.Assert(vsym.Implies(i <= s.maxVar, i < len(bs)), "models have values for all variables")
			return i < len(bs) && bs[i]
		}
	}
	has := func(res int) bool { return s.res == res && !s.stale }
	var buf []bool
	for _, k := range ks {
		switch k {
		case 11: // add
			ms := s.lits(vsym.P("w", 2))
			for _, m := range ms {
				none(c.Add(m))
			}
			none(c.Add(0))
			s.add(ms)
		case 12, 30: // assume
			ms := s.lits(vsym.Ite(k == 12, 1, 2))
			none(c.Assume(ms...))
			s.assume(ms)
		case 13:
			s.solve()
			n, e := c.Solve()
			get(n, e)
			vsym.Assert(n != 0, "a solve has a result")
		case 14:
			s.solve()
			get(c.GoSolve().Stop())
		case 15: // test until there is a result
			s.solve()
			g := c.GoSolve()
			for i := 0; ; i++ {
				n, done, e := g.Test()
				none(e)
				if done {
					vsym.Assert(n != 0, "a solve has a result")
					s.result(n)
					break
				}
				vsym.Assert(n == 0, "there is no result before the end")
				if i == vsym.P("tests", 2) {
					get(g.Stop())
					break
				}
				vsym.Settle()
			}
		case 16:
			s.solve()
			get(c.GoSolve().Try(time.Duration(vsym.P("try", 1)) * time.Millisecond))
		case 17, 18: // model, in a slice which there was
			var dst []bool
			if k == 18 {
				dst = buf
			}
			bs, e := c.Model(dst)
			if !has(1) {
				vsym.Reach("no model")
				vsym.Assert(e != nil, "there are models only of satisfiable problems")
				break
			}
			none(e)
			s.model(val(bs))
			buf = bs
		case 19: // values; the slice isn't the client's
			for i := range buf {
				buf[i] = !buf[i]
			}
			var bs []bool
			for i := 0; i < s.nv; i++ {
				p := z.Var(s.base + 1 + i).Pos()
				if !has(1) {
					_, e := c.Value(p)
					vsym.Reach("no value")
					vsym.Assert(e != nil, "there are values only of satisfiable problems")
					continue
				}
				if s.base+1+i > s.maxVar {
					bs = append(bs, true)
					continue
				}
				x, e := c.Value(p)
				none(e)
				y, e := c.Value(p.Not())
				none(e)
				vsym.Assert(x != y, "a literal has a value")
				bs = append(bs, x)
			}
			if has(1) {
				s.model(func(v int) bool { return bs[v] })
			}
		case 20: // values of literals
			ms := many(s.lits(vsym.P("for", 2)))
			buf = make([]bool, 0, vsym.P("cap", 0))
			bs, e := c.ModelFor(buf, ms)
			if !has(1) {
				vsym.Reach("no model for")
				vsym.Assert(e != nil, "there are values only of satisfiable problems")
				break
			}
			none(e)
			vsym.Assert(len(bs) >= len(ms), "all literals have a value")
			ns := append([]z.Lit{}, s.last...)
			for i, m := range ms {
				ns = append(ns, m^z.Lit(vsym.B2i(!bs[i])))
			}
			vsym.Reach("model for")
			vsym.Assert(s.sat(ns), "values are those of a model")
		case 21:
			fs, e := c.Why([]z.Lit{2})
			if !has(-1) {
				vsym.Reach("no why")
				vsym.Assert(e != nil, "there are reasons only of unsatisfiable problems")
				break
			}
			none(e)
			vsym.Assert(len(fs) > 0 && fs[0] == 2, "reasons are appended")
			s.failed(fs[1:])
		case 22:
			ms := many(s.lits(2))
			got, e := c.WhySelect(nil, ms)
			if !has(-1) {
				vsym.Assert(e != nil, "there are reasons only of unsatisfiable problems")
				break
			}
			none(e)
			fs, e := c.Why(nil)
			none(e)
			s.failed(fs)
			vsym.Reach("select")
			filter(got, ms, fs)
		case 23:
			none(c.Reset())
			s.reset()
		case 24:
			n, e := c.GetExts()
			none(e)
			vsym.Assert(n == 0, "there are no extensions")
		case 25:
			vsym.Assert(int(c.MaxVar()) == s.maxVar, "the maximal variable is that of clauses and assumptions")
		case 26: // another connection
			none(c.Quit())
			none(c.Close())
			c = dial(a)
			s.reset()
		case 27:
			var b bytes.Buffer
			ms := s.lits(2)
			var cls [][]z.Lit
			switch vsym.P("dim", 0) {
			case 0:
				cls = [][]z.Lit{ms, {ms[0].Not()}}
			case 1: // no clauses
			case 2: // an empty clause
				cls = [][]z.Lit{ms, {}}
			case 3: // a tautology, one with twice a literal
				cls = [][]z.Lit{{ms[0], ms[1], ms[0].Not()}, {ms[1], ms[1]}}
			case 4: // units first
				cls = [][]z.Lit{{ms[0]}, {ms[1]}, {ms[0].Not(), ms[1]}, {ms[1].Not(), ms[0].Not(), ms[0].Not()}}
			}
			fmt.Fprintf(&b, "p cnf %d %d\n", s.base+s.nv, len(cls))
			for _, c := range cls {
				for _, m := range c {
					fmt.Fprintf(&b, "%d ", vsym.Conc(m.Dimacs()))
				}
				fmt.Fprintf(&b, "0\n")
			}
			none(c.Dimacs(&b))
			for _, c := range cls {
				s.add(c)
			}
		case 28: // what there is to ask for
			switch {
			case has(1):
				bs, e := c.Model(nil)
				none(e)
				s.model(val(bs))
			case has(-1):
				fs, e := c.Why(nil)
				none(e)
				s.failed(fs)
			}
		case 29: // as 15, until the result
			s.solve()
			var g gnet.Solve = c.GoSolve()
			for {
				n, done, e := g.Test()
				none(e)
				if done {
					get(n, e)
					vsym.Assert(n != 0, "a solve has a result")
					break
				}
				vsym.Settle()
			}
		}
	}
	none(c.Quit())
	none(c.Close())
}

// Stop: a client stops a solve which the server isn't done with.
func Stop() {
	a := address()
	l := listen(a)
	late := vsym.P("late", 0)
	go func() {
		c, e := l.Accept()
		if e != nil {
			return
		}
		l.Close()
		hello(c)
		if !expect(c, crisp.Solve) {
			return
		}
		for i := 0; ; i++ {
			if i == 3-2*late {
				put(c, enc(nil, uint32(crisp.Sat)))
				return
			}
			put(c, enc(nil, uint32(crisp.Unknown)))
			u, e := readNum(c)
			if e != nil {
				return
			}
			if crisp.ProtoPoint(u) == crisp.Continue {
				continue
			}
			vsym.Assert(crisp.ProtoPoint(u) == crisp.End, "<unknown> is answered")
			switch vsym.Choose("end", 4) {
			case 0:
				put(c, enc(nil, uint32(crisp.End)))
			case 1:
				put(c, enc(nil, uint32(crisp.Sat)))
			case 2:
				put(c, enc(nil, uint32(crisp.Unsat)))
			case 3:
				put(c, enc(enc(nil, uint32(crisp.Error)), uint32(crisp.ErrInternal)))
			}
			return
		}
	}()
	c := dial(a)
	g := c.GoSolve()
	n, e := g.Stop()
	if e != nil {
		vsym.Reach("error")
		vsym.Assert(e == crisp.ErrInternal, "errors are reported")
	} else {
		vsym.Reach("result")
		vsym.Assert(n >= -1 && n <= 1, "what a result is")
	}
	c.Close()
	vsym.Reach("end")
}

// Broken: what a client can't do since the connection is closed is reported.
func Broken() {
	a := address()
	l := listen(a)
	res := crisp.Sat
	if vsym.Choose("res", 2) == 1 {
		res = crisp.Unsat
	}
	closed := make(chan struct{})
	go func() {
		c, e := l.Accept()
		if e != nil {
			return
		}
		l.Close()
		hello(c)
		if expect(c, crisp.Add) && expect(c, 2) && expect(c, 0) && expect(c, crisp.End) && expect(c, crisp.Solve) {
			put(c, enc(nil, uint32(res)))
		}
		c.Close()
		close(closed)
	}()
	c := dial(a)
	vsym.Assert(c.Add(2) == nil && c.Add(0) == nil, "requests are possible")
	n, e := c.Solve()
	vsym.Assert(e == nil && n == vsym.Ite(res == crisp.Sat, 1, -1), "a client gets the result")
	<-closed
	ms := []z.Lit{2, 3}
	pend := vsym.Choose("add", 2) == 1
	op := vsym.Choose("op", 10)
	if pend {
		// to be flushed by the next request
		if e = c.Add(2); e != nil {
			return
		}
		vsym.Reach("pending")
		op += 10
	}
	e = nil
	switch op % 10 {
	case 0:
		e = c.Assume(ms...)
	case 1:
		_, e = c.Solve()
	case 2:
		_, e = c.GoSolve().Stop()
	case 3:
		_, e = c.GetExts()
	case 4:
		e = c.Reset()
	case 5:
		_, e = c.Model(nil)
	case 6:
		_, e = c.ModelFor(nil, ms)
	case 7:
		_, e = c.Why(nil)
	case 8:
		_, e = c.WhySelect(nil, ms)
	case 9:
		_, e = c.Value(2)
	}
	vsym.Reach(fmt.Sprintf("op %d", op))
	vsym.Assert(e != nil, "requests which can't be made are reported")
	c.Close()
	vsym.Reach("end")
}

// Exts: operations of extensions are distinct and none of the protocol's.
func Exts() {
	x := crisp.NewExts()
	n := vsym.P("n", 3)
	ids := make([]uint16, n)
	ns := make([]uint8, n)
	var ok []int
	total := 0
	for i := 0; i < n; i++ {
		ids[i] = vsym.Uint16("id")
		ns[i] = vsym.Byte("n")
		k, e := x.Install(ids[i], ns[i])
		if e != nil {
			vsym.Reach("full")
			vsym.Assert(total+int(ns[i]) >= int(crisp.NumExtProtos), "extensions are installed")
			continue
		}
		vsym.Reach("installed")
		vsym.Assert(k == len(ok), "extensions are numbered")
		ok = append(ok, i)
		total += int(ns[i])
	}
	o, p := vsym.Byte("o"), vsym.Byte("p")
	for k, i := range ok {
		vsym.Assert(x.Id(k) == ids[i], "extensions have their id")
		u := x.Op(k, uint32(o))
		vsym.Assert(vsym.Implies(o < ns[i], vsym.And(u >= crisp.MinProto, u < crisp.Reset)), "operations of extensions are those reserved")
		for l, j := range ok {
			w := x.Op(l, uint32(p))
			vsym.Assert(vsym.Implies(vsym.And(vsym.And(o < ns[i], p < ns[j]), u == w), vsym.And(k == l, o == p)), "operations of extensions are distinct")
		}
	}
	vsym.Reach("end")
}

// Addr: addresses.
func Addr() {
	n := vsym.P("n", 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("c")
	}
	s := string(b)
	a := crisp.ParseAddr(s)
	vsym.Assert((a.Network == "unix") == (n > 0 && b[0] == '@'), "addresses which start with @ are of unix sockets")
	vsym.Assert(a.Network == "unix" || a.Network == "tcp", "what a network is")
	vsym.Assert(a.String() == s, "addresses are written as they were")
	vsym.Reach("end")
}
