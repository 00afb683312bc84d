package aig

// AIGER: writing and reading designs, reading arbitrary text.

import (
	"bytes"
	"errors"
	"io"

	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("aig.Trip", Trip)
	vsym.Register("aig.Read", Read)
	vsym.Register("aig.Bytes", Bytes)
}

func at(vs []bool, m z.Lit) bool {
	if m.IsPos() {
		return vs[m.Var()]
	}
	return vsym.Not(vs[m.Var()])
}

// rnd is a fixed pseudo random sequence.
type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>8) % k
}

// chunks hands text over in pieces of k bytes and then fails with err.
type chunks struct {
	b     []byte
	k     int
	err   error
	extra int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		c.extra++
		if c.extra > 200 {
			vsym.Fail("reading goes on after the end")
		}
		return 0, c.err
	}
	n := len(c.b)
	if c.k > 0 && n > c.k {
		n = c.k
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

var names = []string{"a", "x 1", "", "c", "i0 b", "long-name_", "\t"}

// design: a design together with how it was made.
type design struct {
	a   *aiger.T
	ms  []z.Lit
	r   rnd
	any int // literals which are arbitrary; the others are pseudo random
	low int // literals before are not used
}

func (d *design) lit() z.Lit {
	if d.any > 0 {
		d.any--
		k := vsym.Choose("lit", 2*len(d.ms))
		return flip(d.ms[k/2], k%2 == 1)
	}
	k := 2*d.low + d.r.n(2*(len(d.ms)-d.low))
	return flip(d.ms[k/2], k%2 == 1)
}

func flip(m z.Lit, f bool) z.Lit {
	if f {
		return m.Not()
	}
	return m
}

func (d *design) list(name string) []z.Lit {
	var r []z.Lit
	n := vsym.P(name, -1)
	if n < 0 {
		n = vsym.Choose("count", 3)
	}
	for i := 0; i < n; i++ {
		r = append(r, d.lit())
	}
	return r
}

// make builds a design.
func build() *design {
	nin, nl, n := vsym.P("in", 1), vsym.P("latches", 1), vsym.P("n", 2)
	var d = &design{r: rnd(vsym.P("seed", 1) + vsym.Choose("seed", vsym.P("seeds", 1)))}
	var s *logic.S
	over := vsym.P("over", 0) == 1 // made over an existing system
	if over {
		s = logic.NewSCap(2)
	} else {
		d.a = aiger.Make(vsym.P("cap", 2))
		s = d.a.Sys()
	}
	d.ms = append(d.ms, s.T)
	var ins, ls []z.Lit
	order := vsym.P("order", 0) // latches first, inputs first, mixed
	gates := func(k int) {
		for i := 0; i < k; i++ {
			d.ms = append(d.ms, s.And(d.lit(), d.lit()))
		}
	}
	early := vsym.P("early", 0)
	for i := 0; i < nin || i < nl || i < nin+nl; i++ {
		in := i%2 == 0
		switch order {
		case 0:
			in = len(ls) >= nl
		case 1:
			in = len(ins) < nin
		}
		if in && len(ins) >= nin {
			in = false
		} else if !in && len(ls) >= nl {
			in = true
		}
		if in {
			var m z.Lit
			if over {
				m = s.Lit()
			} else {
				m = d.a.NewIn()
			}
			ins = append(ins, m)
			d.ms = append(d.ms, m)
		} else {
			inits := []z.Lit{s.T, s.F, z.LitNull}
			k := vsym.P("init", -1)
			if k < 0 {
				k = vsym.Choose("init", 3)
			}
			m := s.Latch(inits[k])
			ls = append(ls, m)
			d.ms = append(d.ms, m)
		}
		if i < early {
			gates(1)
		}
	}
	d.any = vsym.P("anygate", 0)
	if vsym.P("top", 0) == 1 { // no constants
		d.low = 1
	}
	gates(n)
	d.any = vsym.P("any", 1)
	if vsym.P("top", 0) == 1 { // ports are gates
		d.low = len(d.ms) - n
	}
	for _, l := range ls {
		if vsym.P("next", 1) == 1 {
			s.SetNext(l, d.lit())
		}
	}
	if over {
		var outs []z.Lit
		if vsym.P("out", 1) > 0 {
			outs = d.list("out")
		}
		d.a = aiger.MakeFor(s, outs...)
		vsym.Assert(len(d.a.Outputs) == len(outs), "the outputs given")
		for i := range outs {
			vsym.Assert(d.a.Outputs[i] == outs[i], "the outputs given")
		}
	} else {
		for _, m := range d.list("out") {
			d.a.SetOutput(m)
		}
	}
	a := d.a
	vsym.Assert(len(a.Inputs) == len(ins), "the inputs made")
	for i := range ins {
		vsym.Assert(a.Inputs[i] == ins[i], "the inputs made")
	}
	a.Bad = append(a.Bad, d.list("bad")...)
	a.Constraints = append(a.Constraints, d.list("con")...)
	for i := 0; i < vsym.P("jus", 0); i++ {
		a.Justice = append(a.Justice, d.list("jlen"))
	}
	a.Fair = append(a.Fair, d.list("fair")...)
	return d
}

// namers: names of the ports of a.
func namers(a *aiger.T) (set []func(int, string) error, get []func(int) (string, bool), n []int) {
	set = []func(int, string) error{a.NameInput, a.NameLatch, a.NameOutput, a.NameBad, a.NameConstraint, a.NameJustice, a.NameFair}
	get = []func(int) (string, bool){a.InputName, a.LatchName, a.OutputName, a.BadName, a.ConstraintName, a.JusticeName, a.FairName}
	n = []int{len(a.Inputs), len(a.Latches), len(a.Outputs), len(a.Bad), len(a.Constraints), len(a.Justice), len(a.Fair)}
	return
}

// name gives names to some ports.
func name(a *aiger.T) {
	set, get, n := namers(a)
	k := vsym.Choose("named", len(set))
	i := vsym.Choose("index", n[k]+3) - 1
	nm := names[vsym.Choose("name", len(names))]
	err := set[k](i, nm)
	if i < 0 || i >= n[k] {
		vsym.Assert(err != nil, "only ports have names")
		_, ok := get[k](i)
		vsym.Assert(!ok, "only ports have names")
	} else {
		vsym.Assert(err == nil, "ports have names")
		s, ok := get[k](i)
		vsym.Assert(ok && s == nm, "a port has the name given")
		vsym.Assert(set[k](i, "a\nb") != nil, "names are within a line")
		s, ok = get[k](i)
		vsym.Assert(ok && s == nm, "a port has the name given")
	}
	// and one more for each kind
	for k := range set {
		if n[k] > 0 {
			if _, ok := get[k](n[k] - 1); !ok {
				set[k](n[k]-1, names[k])
			}
		}
	}
}

type view struct {
	a  *aiger.T
	vs []bool
}

// same asserts that b is the design a.
func same(a, b *aiger.T, reset bool) {
	vsym.Assert(len(a.Inputs) == len(b.Inputs), "as many inputs")
	vsym.Assert(len(a.Latches) == len(b.Latches), "as many latches")
	vsym.Assert(len(a.Outputs) == len(b.Outputs), "as many outputs")
	vsym.Assert(len(a.Bad) == len(b.Bad), "as many bad states")
	vsym.Assert(len(a.Constraints) == len(b.Constraints), "as many constraints")
	vsym.Assert(len(a.Justice) == len(b.Justice), "as many justice properties")
	vsym.Assert(len(a.Fair) == len(b.Fair), "as many fairness constraints")
	for i := range a.Justice {
		vsym.Assert(len(a.Justice[i]) == len(b.Justice[i]), "as long justice properties")
	}
	_, ga, n := namers(a)
	_, gb, _ := namers(b)
	for k := range ga {
		for i := -1; i <= n[k]+1; i++ {
			x, okx := ga[k](i)
			y, oky := gb[k](i)
			vsym.Assert(okx == oky && x == y, "the same names")
		}
	}
	va, vb := view{a: a, vs: make([]bool, a.Len())}, view{a: b, vs: make([]bool, b.Len())}
	for i := range a.Inputs {
		vsym.Assert(b.Type(b.Inputs[i]) == logic.SInput && b.Inputs[i].IsPos(), "inputs are inputs")
		v := vsym.Bool("in")
		va.vs[a.Inputs[i].Var()] = v
		vb.vs[b.Inputs[i].Var()] = v
	}
	for i := range a.Latches {
		vsym.Assert(b.Type(b.Latches[i]) == logic.SLatch && b.Latches[i].IsPos(), "latches are latches")
		v := vsym.Bool("state")
		va.vs[a.Latches[i].Var()] = v
		vb.vs[b.Latches[i].Var()] = v
	}
	a.Eval(va.vs)
	b.Eval(vb.vs)
	ok := true
	cmp := func(x, y []z.Lit) {
		for i := range x {
			ok = vsym.And(ok, vsym.Iff(at(va.vs, x[i]), at(vb.vs, y[i])))
		}
	}
	cmp(a.Outputs, b.Outputs)
	cmp(a.Bad, b.Bad)
	cmp(a.Constraints, b.Constraints)
	for i := range a.Justice {
		cmp(a.Justice[i], b.Justice[i])
	}
	cmp(a.Fair, b.Fair)
	var na, nb []z.Lit
	for i := range a.Latches {
		na, nb = append(na, a.Next(a.Latches[i])), append(nb, b.Next(b.Latches[i]))
	}
	cmp(na, nb)
	vsym.Assert(ok, "the ports and next states have the same functions")
	if !reset {
		return
	}
	for i := range a.Latches {
		x, y := a.Init(a.Latches[i]), b.Init(b.Latches[i])
		vsym.Assert((x == z.LitNull) == (y == z.LitNull), "uninitialised latches stay so")
	}
	for i := range a.Latches {
		x, y := a.Init(a.Latches[i]), b.Init(b.Latches[i])
		if x != z.LitNull {
			if vsym.P("bin", 0) == 1 && (x == a.T) == (y == b.F) {
				vsym.Known("binary-reset", true)
			}
			vsym.Assert((x == a.T) == (y == b.T), "the same initial values")
		}
	}
}

// Trip: writing and reading back.
func Trip() {
	d := build()
	a := d.a
	if vsym.P("names", 0) == 1 {
		name(a)
	}
	if vsym.P("copy", 0) == 1 {
		o := aiger.Copy(a)
		same(a, o, true)
		for i, l := range a.Latches {
			vsym.Assert(a.Init(l) == o.Init(o.Latches[i]), "a copy has the same initial values")
		}
		// go on with one, the other one goes its own way
		if vsym.Choose("which", 2) == 1 {
			a, o = o, a
		}
		spoil(o)
	}
	var w bytes.Buffer
	var err error
	bin := vsym.P("bin", 0) == 1
	if bin {
		err = a.WriteBinary(&w)
	} else {
		err = a.WriteAscii(&w)
	}
	vsym.Assert(err == nil, "writing succeeds")
	keep := append([]byte(nil), w.Bytes()...)
	c := &chunks{b: w.Bytes(), k: vsym.P("chunk", 0), err: io.EOF}
	var b *aiger.T
	if bin {
		b, err = aiger.ReadBinary(c)
	} else {
		b, err = aiger.ReadAscii(c)
	}
	vsym.Trace(string(keep))
	if err != nil {
		vsym.Trace(err.Error())
	}
	vsym.Assert(err == nil && b != nil, "what was written is read")
	same(a, b, true)
	vsym.Reach("end")
}

func spoil(o *aiger.T) {
	for _, l := range o.Latches {
		o.SetNext(l, o.T)
		o.SetInit(l, o.T)
	}
	for i := range o.Outputs {
		o.Outputs[i] = o.T
	}
	for i := range o.Inputs {
		o.Inputs[i] = o.T
	}
	for i := range o.Bad {
		o.Bad[i] = o.T
	}
	for i := range o.Constraints {
		o.Constraints[i] = o.T
	}
	for i := range o.Justice {
		for j := range o.Justice[i] {
			o.Justice[i][j] = o.T
		}
	}
	for i := range o.Fair {
		o.Fair[i] = o.T
	}
	o.NewIn()
	set, _, n := namers(o)
	for k := range set {
		for i := 0; i < n[k]; i++ {
			set[k](i, "spoilt")
		}
	}
}

// num appends the decimal digits of x.
func num(b []byte, x int) []byte {
	if x >= 10 {
		b = num(b, x/10)
	}
	return append(b, byte('0'+x%10))
}

func nums(b []byte, xs ...int) []byte {
	for i, x := range xs {
		if i > 0 {
			b = append(b, ' ')
		}
		b = num(b, x)
	}
	return append(b, '\n')
}

// Read: well formed text written here.
func Read() {
	bin := vsym.P("bin", 0) == 1
	nin, nl, n := vsym.P("in", 1), vsym.P("latches", 1), vsym.P("n", 2)
	nout, nbad, ncon, njus, nfair := vsym.P("out", 1), vsym.P("bad", 0), vsym.P("con", 0), vsym.P("jus", 0), vsym.P("fair", 0)
	max := nin + nl + n
	// numbering of the variables
	vars := make([]int, 1+max)
	for i := range vars {
		vars[i] = i
	}
	gap := 0
	if !bin {
		switch vsym.P("perm", 0) {
		case 1: // backwards
			for i := 1; i <= max; i++ {
				vars[i] = max + 1 - i
			}
		case 2: // gaps
			for i := 1; i <= max; i++ {
				vars[i] = 2*i + 1
			}
			gap = max + 3
		case 3: // large
			for i := 1; i <= max; i++ {
				vars[i] = i + 100
			}
			gap = 150
		}
	}
	r := rnd(vsym.P("seed", 1))
	anyn := vsym.P("any", 2)
	pick := func(below int) int { // a literal over variables <= below (in my order)
		var k int
		if anyn > 0 {
			anyn--
			k = vsym.Choose("lit", 2*(below+1))
		} else {
			k = r.n(2 * (below + 1))
		}
		return k
	}
	aig := func(k int) int { return 2*vars[k/2] + k&1 }
	var t []byte
	if bin {
		t = append(t, "aig "...)
	} else {
		t = append(t, "aag "...)
	}
	hdr := []int{max + gap, nin, nl, nout, n, nbad, ncon, njus, nfair}
	h := 9
	for h > 5 && hdr[h-1] == 0 && vsym.P("short", 1) == 1 {
		h--
	}
	t = nums(t, hdr[:h]...)
	if !bin {
		for i := 1; i <= nin; i++ {
			t = nums(t, 2*vars[i])
		}
	}
	all := max
	var nexts, resets []int
	for i := 0; i < nl; i++ {
		me := 1 + nin + i
		nx := pick(all)
		nexts = append(nexts, nx)
		k := vsym.P("reset", -1)
		if k < 0 {
			k = vsym.Choose("reset", 4)
		}
		resets = append(resets, k)
		var l []int
		if !bin {
			l = append(l, 2*vars[me])
		}
		l = append(l, aig(nx))
		switch k {
		case 0, 1:
			l = append(l, k)
		case 2:
			l = append(l, 2*vars[me])
		}
		t = nums(t, l...)
	}
	ports := func(k int) []int {
		var x []int
		for i := 0; i < k; i++ {
			l := 0
			if nin >= 1000 {
				// most of what there is are inputs: take a gate
				l = 2*(1+nin+nl+i%n) + r.n(2)
			} else {
				l = pick(all)
			}
			x = append(x, l)
			t = nums(t, aig(l))
		}
		return x
	}
	outs := ports(nout)
	bads := ports(nbad)
	cons := ports(ncon)
	var lens []int
	for i := 0; i < njus; i++ {
		lens = append(lens, vsym.Choose("jlen", 3))
		t = nums(t, lens[i])
	}
	var jus [][]int
	for _, k := range lens {
		jus = append(jus, ports(k))
	}
	fairs := ports(nfair)
	// gates; in ascii in the order given by "rev"
	ops := make([][2]int, n)
	for i := range ops {
		below := nin + nl + i
		x, y := pick(below), pick(below)
		if bin && x < y {
			x, y = y, x
		}
		ops[i] = [2]int{x, y}
	}
	for i := range ops {
		j := i
		if vsym.P("rev", 0) == 1 && !bin {
			j = n - 1 - i
		}
		me := 2 * (1 + nin + nl + j)
		if bin {
			t = leb(t, me-ops[j][0])
			t = leb(t, ops[j][0]-ops[j][1])
		} else {
			t = nums(t, aig(me), aig(ops[j][0]), aig(ops[j][1]))
		}
	}
	if vsym.P("sym", 0) == 1 {
		if nin > 0 {
			t = append(t, "i0 in x\n"...)
		}
		if ncon > 0 {
			t = append(t, "c0 con\n"...)
		}
		t = append(t, "c\nanything\n"...)
	}
	vsym.Trace(string(t))
	c := &chunks{b: t, k: vsym.P("chunk", 0), err: io.EOF}
	var a *aiger.T
	var err error
	if bin {
		a, err = aiger.ReadBinary(c)
	} else {
		a, err = aiger.ReadAscii(c)
	}
	if err != nil {
		vsym.Trace(err.Error())
	}
	vsym.Assert(err == nil && a != nil, "well formed text is read")
	wellFormed(a, nin, nl, nout, nbad, ncon, njus, nfair)
	// values
	vs := make([]bool, max+1)
	as := make([]bool, a.Len())
	// in large circuits only inputs something depends on directly are symbolic
	used := make([]bool, max+1)
	for _, ks := range [][]int{nexts, outs, bads, cons, fairs} {
		for _, k := range ks {
			used[k/2] = true
		}
	}
	for _, op := range ops {
		used[op[0]/2], used[op[1]/2] = true, true
	}
	for i := 0; i < nin; i++ {
		v := false
		if nin < 1000 || used[1+i] {
			v = vsym.Bool("in")
		}
		vs[1+i] = v
		as[a.Inputs[i].Var()] = v
	}
	for i := 0; i < nl; i++ {
		v := vsym.Bool("state")
		vs[1+nin+i] = v
		as[a.Latches[i].Var()] = v
	}
	val := func(k int) bool {
		if k&1 == 1 {
			return vsym.Not(vs[k/2])
		}
		return vs[k/2]
	}
	for i := range ops {
		vs[1+nin+nl+i] = vsym.And(val(ops[i][0]), val(ops[i][1]))
	}
	a.Eval(as)
	ok := true
	cmp := func(x z.Lit, k int) { ok = vsym.And(ok, vsym.Iff(at(as, x), val(k))) }
	for i := range outs {
		cmp(a.Outputs[i], outs[i])
	}
	for i := range bads {
		cmp(a.Bad[i], bads[i])
	}
	for i := range cons {
		cmp(a.Constraints[i], cons[i])
	}
	for i := range jus {
		vsym.Assert(len(a.Justice[i]) == len(jus[i]), "as long justice properties")
		for j := range jus[i] {
			cmp(a.Justice[i][j], jus[i][j])
		}
	}
	for i := range fairs {
		cmp(a.Fair[i], fairs[i])
	}
	for i := range nexts {
		cmp(a.Next(a.Latches[i]), nexts[i])
	}
	vsym.Assert(ok, "the design has the functions the text describes")
	for i, k := range resets {
		x := a.Init(a.Latches[i])
		switch k {
		case 0, 3:
			vsym.Assert(x == a.F, "a reset value of 0, or none")
		case 1:
			vsym.Assert(x == a.T, "a reset value of 1")
		case 2:
			vsym.Assert(x == z.LitNull, "no initial value")
		}
	}
	if vsym.P("sym", 0) == 1 && nin > 0 {
		s, ok := a.InputName(0)
		vsym.Assert(ok && s == "in x", "names are read")
	}
	vsym.Reach("end")
}

func leb(b []byte, x int) []byte {
	for x >= 128 {
		b = append(b, byte(x&127|128))
		x >>= 7
	}
	return append(b, byte(x))
}

// wellFormed: a has the ports announced and they are defined.
func wellFormed(a *aiger.T, n ...int) {
	have := []int{len(a.Inputs), len(a.Latches), len(a.Outputs), len(a.Bad), len(a.Constraints), len(a.Justice), len(a.Fair)}
	for i := range n {
		vsym.Assert(have[i] == n[i], "as many ports as announced")
	}
	def := func(ms ...z.Lit) {
		for _, m := range ms {
			vsym.Assert(m.Var() > 0 && int(m.Var()) < a.Len(), "literals are defined")
		}
	}
	used := map[z.Var]bool{}
	for _, m := range a.Inputs {
		def(m)
		vsym.Assert(m.IsPos() && a.Type(m) == logic.SInput && !used[m.Var()], "inputs are inputs")
		used[m.Var()] = true
	}
	for _, m := range a.Latches {
		def(m)
		vsym.Assert(m.IsPos() && a.Type(m) == logic.SLatch && !used[m.Var()], "latches are latches")
		used[m.Var()] = true
		def(a.Next(m))
	}
	def(a.Outputs...)
	def(a.Bad...)
	def(a.Constraints...)
	for _, j := range a.Justice {
		def(j...)
	}
	def(a.Fair...)
	x, y := a.Ins(a.T)
	vsym.Assert(x == z.LitNull && y == z.LitNull, "the constant has no operands")
	for i := 2; i < a.Len(); i++ {
		m := a.At(i)
		x, y := a.Ins(m)
		if a.Type(m) == logic.SAnd {
			def(x, y)
			vsym.Assert(int(x.Var()) < i && int(y.Var()) < i, "operands come before")
		}
	}
	_, get, _ := namers(a)
	for k := range get {
		for i := -1; i < 4; i++ {
			if _, ok := get[k](i); ok {
				vsym.Assert(i >= 0 && i < have[k], "only ports have names")
			}
		}
	}
}

var errBroken = errors.New("broken")

var heads = []string{
	"", "aag 2 1 1 0 0\n2\n4 ", "aag 3 1 1 0 1\n2\n4 6\n6 ", "aag 3 1 0 1 2\n2\n4\n4 2 ", "aag 1 1 0 0 0\n2\n",
	"aig 3 1 1 0 1\n", "aig 2 1 0 1 1\n4\n", "aig 3 2 0 1 1\n6\n\x02", "aag 1 1 0 0 0 0 0 1 0\n2\n", "aag ",
	"aig 1 1 0 0 0\nc\n", "aag 1 1 0 0 0\n2\nc", "aig ", "aag 2 2 0 0 0\n", "aig 1 1 0 0 0\ni0 n\nc\n",
	"aag 2 0 1 0 0\n", "aag 3 2 0 0 1\n2\n4\n",
}

// Bytes: arbitrary text after a well formed beginning.
func Bytes() {
	n, head := vsym.P("n", 4), vsym.P("head", 1)
	t := []byte(heads[head])
	for i := 0; i < n; i++ {
		t = append(t, vsym.Byte("byte"))
	}
	bin := head >= 5 && t[1] == 'i'
	if head == 0 {
		bin = vsym.P("bin", 0) == 1
	}
	c := &chunks{b: t, k: vsym.P("chunk", 0), err: io.EOF}
	broken := vsym.P("broken", 0) == 1
	if broken {
		k := vsym.Choose("at", len(t)+1)
		c.b = t[:k]
		c.err = errBroken
	}
	var a *aiger.T
	var err error
	if bin {
		a, err = aiger.ReadBinary(c)
	} else {
		a, err = aiger.ReadAscii(c)
	}
	vsym.Assert(a != nil || err != nil, "a design or an error")
	if err != nil {
		vsym.Assert(a == nil, "a design or an error")
		vsym.Reach("error")
		return
	}
	vsym.Assert(!broken, "an error while reading is reported")
	vsym.Assert(len(t) > 0, "nothing isn't a design")
	wellFormed(a)
	if head > 0 && head != 9 && head != 12 {
		// the numbers of the header
		var hd []int
		x := 0
		for _, b := range t[4:] {
			if b == ' ' || b == '\n' {
				hd = append(hd, x)
				x = 0
			} else {
				x = 10*x + int(b-'0')
			}
			if b == '\n' {
				break
			}
		}
		for len(hd) < 9 {
			hd = append(hd, 0)
		}
		wellFormed(a, hd[1], hd[2], hd[3], hd[5], hd[6], hd[7], hd[8])
	}
	vsym.Reach("design")
}
