// Package dim has the harnesses about reading DIMACS texts.
package dim

import (
	"errors"
	"io"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("dim.Layout", Layout)
	vsym.Register("dim.Bytes", Bytes)
	vsym.Register("dim.Load", Load)
}

const (
	fcnf = iota
	ficnf
	fsolve
)

// a call of the visitor
type call struct {
	what byte // i(nit) a(dd) s(assume) r(esult) v(alue) e(of)
	m    int
	n    int
}

type log struct{ cs []call }

func (l *log) Init(v, c int)  { l.cs = append(l.cs, call{'i', v, c}) }
func (l *log) Add(m z.Lit)    { l.cs = append(l.cs, call{'a', int(m), 0}) }
func (l *log) Assume(m z.Lit) { l.cs = append(l.cs, call{'s', int(m), 0}) }
func (l *log) Solution(r int) { l.cs = append(l.cs, call{'r', r, 0}) }
func (l *log) Value(m z.Lit)  { l.cs = append(l.cs, call{'v', int(m), 0}) }
func (l *log) Eof()           { l.cs = append(l.cs, call{'e', 0, 0}) }

var errBroken = errors.New("broken")

// chunks delivers b in pieces: k=0 all at once, k>0 that many at a time,
// k<0 the first -k bytes and then the rest; the error comes with the last
// bytes or after them.
type chunks struct {
	b    []byte
	k    int
	with bool
	err  error
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := len(c.b)
	if c.k > 0 && c.k < n {
		n = c.k
	}
	if c.k < 0 {
		if -c.k < n {
			n = -c.k
		}
		c.k = 0
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if c.with && len(c.b) == 0 {
		return n, c.err
	}
	return n, nil
}

func read(format int, r io.Reader, l *log, strict bool) error {
	switch format {
	case fcnf:
		if strict {
			return dimacs.ReadCnfStrict(r, l, true)
		}
		return dimacs.ReadCnf(r, l)
	case ficnf:
		return dimacs.ReadICnf(r, l)
	}
	return dimacs.ReadSolve(r, l)
}

func lit(v int) int {
	if v < 0 {
		return -2*v + 1
	}
	return 2 * v
}

func str(b []byte, s string) []byte { return append(b, s...) }

// white space between two tokens; within a line if !lines.
var gaps = []string{" ", "\n", "  ", "\t", "\r\n", "\n\n", " \n ", "\nc x\n", "\n\nc 5 0\nc\n", "\n\n\n", "\nc\n\nc 1\n", " \n\n\t"}

type layout struct {
	t     []byte
	left  int // how many gaps are arbitrary
	kinds int
}

func (l *layout) gap(def string, lines bool) {
	if l.left == 0 {
		l.t = str(l.t, def)
		return
	}
	l.left--
	k := vsym.Choose("gap", l.kinds)
	g := gaps[k%len(gaps)]
	if !lines {
		g = []string{" ", "  ", "\t", " \t "}[k%4]
	}
	for i := 0; i < len(g); i++ {
		b := g[i]
		if b == 'x' {
			b = vsym.Byte("comment")
			vsym.Assume(b != '\n')
		}
		l.t = append(l.t, b)
	}
}

// an arbitrary literal of d digits
func (l *layout) lit(d int) int {
	v := 0
	neg := vsym.Choose("sign", 2) == 1
	if neg {
		l.t = append(l.t, '-')
	}
	for i := 0; i < d; i++ {
		b := vsym.Byte("digit")
		vsym.Assume(b >= '0')
		vsym.Assume(b <= '9')
		if i == 0 {
			vsym.Assume(b != '0')
		}
		l.t = append(l.t, b)
		v = 10*v + int(b-'0')
	}
	if neg {
		return -v
	}
	return v
}

func (l *layout) num(v int) {
	if v >= 10 {
		l.num(v / 10)
	}
	l.t = append(l.t, byte('0'+v%10))
}

// Layout: well formed texts, written in any way, are read exactly.
func Layout() {
	format := vsym.P("format", fcnf)
	n := vsym.P("n", 2)
	w := vsym.P("w", 2)
	l := &layout{left: 0, kinds: len(gaps)}
	gapsFree := vsym.P("gaps", 2)
	skip := vsym.P("skip", 0) // fixed gaps before the arbitrary ones
	count := 0
	gap := func(def string, lines bool) {
		l.left = 0
		if count >= skip && count < skip+gapsFree {
			l.left = 1
		}
		count++
		l.gap(def, lines)
	}
	var want []call
	header := vsym.P("header", 1) == 1
	nv := vsym.P("nv", 9)
	nc := n
	strict := false
	if vsym.P("lead", 1) == 1 {
		switch vsym.Choose("lead", 5) {
		case 1:
			l.t = str(l.t, "c\n")
		case 2:
			l.t = str(l.t, "\nc p cnf 1 1\n")
		case 3:
			l.t = str(l.t, "c x\nc y\n\n")
		case 4:
			l.t = str(l.t, "\n\n")
		}
	}
	switch format {
	case fcnf:
		if header {
			l.t = str(l.t, "p")
			gap(" ", false)
			l.t = str(l.t, "cnf")
			gap(" ", false)
			l.num(nv)
			gap(" ", false)
			l.num(nc)
			if vsym.P("trail", 0) == 1 {
				l.t = str(l.t, " ")
			}
			l.t = str(l.t, "\n")
		}
		want = append(want, call{'i', nv, nc})
	case ficnf:
		l.t = str(l.t, "p")
		gap(" ", false)
		l.t = str(l.t, "inccnf")
		if vsym.P("trail", 0) == 1 {
			l.t = str(l.t, " \r")
		}
		l.t = str(l.t, "\n")
	case fsolve:
		l.t = str(l.t, "s")
		gap(" ", false)
		k := vsym.Choose("verdict", 3)
		l.t = str(l.t, []string{"UNKNOWN", "SATISFIABLE", "UNSATISFIABLE"}[k])
		if vsym.P("trail", 0) == 1 {
			l.t = str(l.t, " \r")
		}
		want = append(want, call{'r', []int{0, 1, -1}[k], 0})
		if n > 0 {
			l.t = str(l.t, "\n")
		}
	}
	top := 0
	d := vsym.P("digits", 1)
	for i := 0; i < n; i++ {
		what := byte('a')
		switch format {
		case ficnf:
			if vsym.Choose("assume", 2) == 1 {
				what = 's'
				l.t = str(l.t, "a")
				gap(" ", false)
			}
		case fsolve:
			what = 'v'
			l.t = str(l.t, "v")
			gap(" ", false)
		}
		sz := w
		if i > 0 && vsym.P("anyw", 0) == 1 {
			sz = vsym.Choose("width", w+1)
		}
		for j := 0; j < sz; j++ {
			v := l.lit(d)
			want = append(want, call{what, lit(v), 0})
			if v < 0 {
				v = -v
			}
			if v > top {
				top = v
			}
			gap(" ", format != fsolve)
		}
		if format != fsolve || i+1 == n {
			l.t = append(l.t, '0')
			want = append(want, call{what, 0, 0})
		}
		if i+1 < n {
			if format == ficnf || format == fsolve {
				gap := []string{"\n", "\n\n", "\r\n", " \n", "\nc x\n", "\n\nc\n", "\n\n\nc\n\n"}
				if format == ficnf { // lines don't matter
					gap = append(gap, " ", "\t ")
				}
				l.t = str(l.t, gap[vsym.Choose("line", len(gap))])
			} else {
				gap("\n", true)
			}
		}
	}
	l.t = str(l.t, []string{"\n", "", " ", "\n\n", "\nc", "\nc end\n", "\n\nc\n\n", "\r\n"}[vsym.Choose("end", 8)])
	want = append(want, call{'e', 0, 0})
	if vsym.P("strict", 0) == 1 {
		strict = true
	}
	c := &chunks{b: l.t, err: io.EOF, k: vsym.P("chunk", 0)}
	if vsym.P("cut", 0) == 1 {
		// split anywhere
		c.k = -vsym.Choose("cut", len(l.t)+1)
	}
	c.with = vsym.P("with", 0) == 1
	var got log
	err := read(format, c, &got, strict)
	if strict && header && top != nv {
		vsym.Assert(err != nil, "a wrong header is reported in strict mode")
		vsym.Reach("strict")
		return
	}
	if strict && !header {
		vsym.Assert(err != nil, "a missing header is reported in strict mode")
		vsym.Reach("strict")
		return
	}
	if err != nil {
		vsym.Trace(err.Error())
	}
	vsym.Assert(err == nil, "a well formed text is read without error")
	same(got.cs, want, !header)
	vsym.Assert(len(got.cs) == len(want), "everything is handed over")
	vsym.Reach("end")
}

// same: got is a prefix of want.
func same(got, want []call, anyInit bool) {
	vsym.Assert(len(got) <= len(want), "only what the text says is handed over")
	for i, c := range got {
		x := want[i]
		vsym.Assert(c.what == x.what, "what the text says is handed over in order")
		if c.what == 'i' && anyInit {
			vsym.Assert(c.m >= 0, "a sane guess of the number of variables")
			vsym.Assert(c.n >= 0, "a sane guess of the number of clauses")
			continue
		}
		vsym.Assert(c.m == x.m, "the numbers are those of the text")
		vsym.Assert(c.n == x.n, "the number of clauses is that of the text")
	}
}

// ---- arbitrary text, and what it says

const maxVar = 1<<31 - 1

func white(b byte) bool { return b == ' ' || b == '\n' || b == '\t' || b == '\r' }

type token struct {
	s    []byte
	line int
}

// strip removes the comment lines and splits the rest.
func strip(t []byte) []token {
	var ts []token
	line := 0
	i := 0
	for i < len(t) {
		if t[i] == 'c' { // at the start of a line
			for i < len(t) && t[i] != '\n' {
				i++
			}
			i++
			continue
		}
		var cur []byte
		for i < len(t) && t[i] != '\n' {
			if white(t[i]) {
				if len(cur) > 0 {
					ts = append(ts, token{cur, line})
				}
				cur = nil
			} else {
				cur = append(cur, t[i])
			}
			i++
		}
		if len(cur) > 0 {
			ts = append(ts, token{cur, line})
		}
		i++
		line++
	}
	return ts
}

// number: the value; whether it is one; whether it is in canonical form.
func number(s []byte) (v int, ok, plain bool) {
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false, false
	}
	plain = true
	if s[0] == '0' && (neg || len(s) > 1) {
		plain = false
	}
	for _, b := range s {
		if b < '0' || b > '9' {
			return 0, false, false
		}
		if v <= maxVar {
			v = 10*v + int(b-'0')
		}
	}
	if v > maxVar {
		return 0, false, false
	}
	if neg {
		v = -v
	}
	return v, true, plain
}

func eq(s []byte, x string) bool {
	if len(s) != len(x) {
		return false
	}
	for i := range s {
		if s[i] != x[i] {
			return false
		}
	}
	return true
}

// says: what the text says up to its first mistake, whether there is none and
// whether it has to be accepted. with init the number of variables given.
func says(format int, t []byte) (cs []call, ok, plain, header bool) {
	ts := strip(t)
	plain = true
	at := 0
	switch format {
	case fcnf:
		if len(ts) > 0 && ts[0].s[0] == 'p' {
			if !eq(ts[0].s, "p") || len(ts) < 4 || !eq(ts[1].s, "cnf") {
				return
			}
			v, ok1, p1 := number(ts[2].s)
			c, ok2, p2 := number(ts[3].s)
			if !ok1 || !ok2 || v < 0 || c < 0 {
				return
			}
			cs = append(cs, call{'i', v, c})
			header = true
			plain = p1 && p2 && ts[0].line == ts[3].line && (len(ts) == 4 || ts[4].line > ts[3].line)
			at = 4
		} else {
			cs = append(cs, call{'i', 0, 0})
		}
	case ficnf:
		if len(ts) < 2 || !eq(ts[0].s, "p") || !eq(ts[1].s, "inccnf") {
			return
		}
		plain = ts[0].line == ts[1].line && (len(ts) == 2 || ts[2].line > ts[1].line)
		at = 2
	}
	kind, open := byte('a'), false
	for at < len(ts) {
		s := ts[at].s
		first := at == 0 || ts[at].line != ts[at-1].line
		if format == ficnf && s[0] == 'a' {
			if open {
				return
			}
			kind, open = 's', true
			plain = plain && first && len(s) == 1
			s = s[1:]
			if len(s) == 0 {
				at++
				continue
			}
		}
		if format == fsolve {
			if first {
				kind = s[0]
				open = kind == 's'
				if kind != 's' && kind != 'v' {
					return
				}
				plain = plain && len(s) == 1
				s = s[1:]
				if len(s) == 0 {
					at++
					continue
				}
			}
			if kind == 's' {
				if !open {
					return
				}
				open = false
				switch {
				case eq(s, "SATISFIABLE"):
					cs = append(cs, call{'r', 1, 0})
				case eq(s, "UNSATISFIABLE"):
					cs = append(cs, call{'r', -1, 0})
				case eq(s, "UNKNOWN"):
					cs = append(cs, call{'r', 0, 0})
				default:
					return
				}
				if at+1 < len(ts) && ts[at+1].line == ts[at].line {
					// s X Y: nothing is said
					cs = cs[:len(cs)-1]
					return
				}
				at++
				continue
			}
		}
		v, ok1, p1 := number(s)
		if !ok1 {
			return
		}
		plain = plain && p1
		cs = append(cs, call{kind, lit(v), 0})
		if format != fsolve {
			open = true
			if v == 0 {
				kind, open = 'a', false
			}
		}
		at++
	}
	ok = true
	if open {
		plain = false
	}
	if format == fsolve {
		// a bare s or v
		for i, k := range ts {
			last := i+1 == len(ts) || ts[i+1].line != k.line
			if last && (i == 0 || ts[i-1].line != k.line) {
				plain = false
			}
		}
	}
	cs = append(cs, call{'e', 0, 0})
	return
}

var heads = []string{
	"", "p cnf 3 2\n", "p cnf ", "p cnf 2147483", "p cnf 1 1\n-214748364", "1 922337203685477580", "c\n1 -2 0 ",
	"p inccnf\n", "p inccnf\n1 0\na 2", "p inccnf\na 1 ", "p inccnf\na 1 0\n", "p ", "p cnf 1 1\n184467440737095516",
	"s SATISFIABLE\nv ", "s UN", "v 1 2\n", "v 429496729", "c x\n", "p cnf 2 1\n1 2 ", "p inccnf", "p inccnf\n2 1\n", "s UNKNOWN",
	"p cnf 3 4294967", "1 36893488147419103", "s UNSATISFIABLE\n",
}

// Bytes: arbitrary text after the beginning of one.
func Bytes() {
	format := vsym.P("format", fcnf)
	n := vsym.P("n", 4)
	t := []byte(heads[vsym.P("head", 0)])
	for i := 0; i < n; i++ {
		b := vsym.Byte("byte")
		if format == fsolve { // what else than ' ' is space is not at issue
			vsym.Assume(b < 0x80)
			vsym.Assume(b != '\v')
			vsym.Assume(b != '\f')
		}
		t = append(t, b)
	}
	t = append(t, []string{"", " 0\n", "\n1 0\n", "\nv 1 0\n"}[vsym.P("tail", 0)]...)
	c := &chunks{b: t, err: io.EOF, k: vsym.P("chunk", 0), with: vsym.P("with", 0) == 1}
	broken := vsym.P("broken", 0) == 1
	if broken {
		c.b = t[:vsym.Choose("at", len(t)+1)]
		c.err = errBroken
	}
	var got log
	err := read(format, c, &got, false)
	want, ok, plain, header := says(format, t)
	if err != nil {
		vsym.Trace(err.Error())
	}
	same(got.cs, want, !header)
	if broken {
		vsym.Assert(err != nil, "an error while reading is reported")
		return
	}
	if err == nil {
		vsym.Assert(ok, "a malformed text is reported")
		vsym.Assert(len(got.cs) == len(want), "everything is handed over")
		vsym.Reach("good")
		return
	}
	vsym.Assert(!plain || !ok, "a well formed text is read without error")
	vsym.Reach("error")
}

// Load: the solver made from a text has the clauses of the text.
func Load() {
	nv, n, w := vsym.P("nv", 2), vsym.P("n", 2), vsym.P("w", 2)
	l := &layout{}
	if vsym.P("header", 1) == 1 {
		l.t = str(l.t, "c x\np cnf ")
		l.num(nv)
		l.t = append(l.t, ' ')
		l.num(n)
		l.t = append(l.t, '\n')
	}
	var cls [][]int
	for i := 0; i < n; i++ {
		var c []int
		for j := 0; j < w; j++ {
			v := l.lit(1)
			vsym.Assume(v <= nv)
			vsym.Assume(v >= -nv)
			c = append(c, v)
			l.t = append(l.t, ' ')
		}
		l.t = str(l.t, "0\n")
		cls = append(cls, c)
	}
	g, err := gini.NewDimacs(&chunks{b: l.t, err: io.EOF, k: vsym.P("chunk", 0)})
	vsym.Assert(err == nil, "a well formed text is read without error")
	any := false
	for a := 0; a < 1<<uint(nv); a++ {
		all := true
		for _, c := range cls {
			all = vsym.And(all, holds(c, a, nv))
		}
		any = vsym.Or(any, all)
	}
	if g.Solve() != 1 {
		vsym.Assert(!any, "a satisfiable text isn't unsat")
		vsym.Reach("unsat")
		return
	}
	a := 0
	for v := 1; v <= nv; v++ {
		if int(g.MaxVar()) >= v && g.Value(z.Var(v).Pos()) {
			a |= 1 << uint(v-1)
		}
	}
	for _, c := range cls {
		vsym.Assert(holds(c, a, nv), "the model is one of the text")
	}
	vsym.Reach("sat")
}

// holds: a satisfies the clause c.
func holds(c []int, a, nv int) bool {
	r := false
	for _, v := range c {
		for i := 1; i <= nv; i++ {
			if a>>uint(i-1)&1 == 1 {
				r = vsym.Or(r, v == i)
			} else {
				r = vsym.Or(r, v == -i)
			}
		}
	}
	return r
}
