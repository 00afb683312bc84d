// Package cli runs the commands: what they print and their exit status.
package cli

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/go-air/gini/internal/vh/clicmd"
	"github.com/go-air/gini/internal/vsym"
)

func init() {
	vsym.Register("cli.Cnf", Cnf)
	vsym.Register("cli.Long", Long)
	vsym.Register("cli.Files", Files)
	vsym.Register("cli.ICnf", ICnf)
	vsym.Register("cli.Bytes", Bytes)
	vsym.Register("cli.Child", Child)
}

func give(name, text string) { files = append(files, &vfile{name: name, data: []byte(text)}) }

// run gives the exit status and the standard output of command gini.
func run(as []string) (int, string) {
	if !vsym.Symbolic() {
		return native(as)
	}
	os.Args = append([]string{"gini"}, as...)
	os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
	if v := find("-"); v != nil {
		v.f = os.Stdin
	}
	code := 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				x, ok := e.(exited)
				if !ok {
					panic(e)
				}
				code = x.code
			}
		}()
		clicmd.Main()
	}()
	return code, string(outText)
}

func native(as []string) (int, string) {
	d, e := os.MkdirTemp("", "cli")
	if e != nil {
		panic(e)
	}
	defer os.RemoveAll(d)
	bin, e := os.Executable()
	if e != nil {
		panic(e)
	}
	cmd := exec.Command(bin, "cli.Child")
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "CLI_ARGS="+strings.Join(as, "\x01"))
	for _, f := range files {
		if f.name == "-" {
			cmd.Stdin = bytes.NewReader(f.data)
		} else if e := os.WriteFile(filepath.Join(d, f.name), f.data, 0644); e != nil {
			panic(e)
		}
	}
	out, _ := cmd.Output()
	return cmd.ProcessState.ExitCode(), string(out)
}

// Child is the process which runs the command natively.
func Child() {
	os.Args = append([]string{"gini"}, strings.Split(os.Getenv("CLI_ARGS"), "\x01")...)
	clicmd.Main()
	os.Exit(0)
}

// verdict is what is printed about one problem.
type verdict struct {
	res    int
	model  []int
	hasV   bool
	ended  bool // model has its 0
	failed []int
	hasF   bool
}

// parse reads the output.
func parse(out string) []verdict {
	var vs []verdict
	last := func() *verdict {
		vsym.Assert(len(vs) > 0, "values come after a verdict")
		return &vs[len(vs)-1]
	}
	vsym.Assert(out == "" || strings.HasSuffix(out, "\n"), "lines are complete")
	for _, l := range strings.Split(out, "\n") {
		if l == "" || l == "c" || strings.HasPrefix(l, "c ") {
			continue
		}
		w := fields(l)
		switch w[0] {
		case "s":
			vsym.Assert(len(w) == 2, "a verdict is one word")
			v := verdict{}
			switch w[1] {
			case "SATISFIABLE":
				v.res = 1
			case "UNSATISFIABLE":
				v.res = -1
			case "UNKNOWN":
			default:
				vsym.Fail("a verdict is one of the competition's")
			}
			vs = append(vs, v)
		case "v":
			v := last()
			v.hasV = true
			for _, n := range numbers(w[1:]) {
				vsym.Assert(!v.ended, "0 is the last value")
				if n == 0 {
					v.ended = true
					continue
				}
				v.model = append(v.model, n)
			}
		case "f":
			v := last()
			v.hasF = true
			v.failed = append(v.failed, numbers(w[1:])...)
		default:
			vsym.Fail("lines are of a known kind")
		}
		vsym.Assert(len(l) <= 80, "lines are not too long")
	}
	return vs
}

func fields(l string) []string {
	var r []string
	for _, w := range strings.Split(l, " ") {
		if w != "" {
			r = append(r, w)
		}
	}
	return r
}

func numbers(ws []string) []int {
	var r []int
	for _, w := range ws {
		n, e := strconv.Atoi(w)
		vsym.Assert(e == nil, "values are numbers")
		r = append(r, n)
	}
	return r
}

type cnf [][]int

func (f cnf) text(header string) string {
	s := header
	for _, c := range f {
		s += line("", c)
	}
	return s
}

func line(pre string, c []int) string {
	s := pre
	for _, m := range c {
		s += word(m, ' ') + " "
	}
	return s + "0\n"
}

// word writes literal m, positive ones with byte plus before them. Small ones
// have the same length for all values, so that m can be arbitrary.
func word(m int, plus byte) string {
	if vsym.P("nv", 2) > 9 {
		return strconv.Itoa(m)
	}
	neg := m < 0
	return string([]byte{byte(vsym.Ite(neg, '-', int(plus))), byte('0' + vsym.Ite(neg, -m, m))})
}

// isTrue says whether literal m is true under the values a[1..], without
// branching on m.
func isTrue(m int, a []bool) bool {
	r := false
	for i := 1; i < len(a); i++ {
		r = vsym.Or(r, vsym.Or(vsym.And(m == i, a[i]), vsym.And(m == -i, vsym.Not(a[i]))))
	}
	return r
}

// holds under the assignment a[1..]
func (f cnf) holds(a []bool) bool {
	all := true
	for _, c := range f {
		ok := false
		for _, m := range c {
			ok = vsym.Or(ok, isTrue(m, a))
		}
		all = vsym.And(all, ok)
	}
	return all
}

func (f cnf) with(as []int) cnf {
	r := append(cnf(nil), f...)
	for _, m := range as {
		r = append(r, []int{m})
	}
	return r
}

// sat tries all assignments of n variables.
func (f cnf) sat(n int) bool {
	r := false
	for x := 0; x < 1<<uint(n); x++ {
		a := make([]bool, n+1)
		for i := range a {
			a[i] = i > 0 && x>>uint(i-1)&1 == 1
		}
		r = vsym.Or(r, f.holds(a))
	}
	return r
}

func pick(name string, n int) int { return vsym.Conc(vsym.Choose(name, n)) }

func lit(nv int) int {
	k := vsym.Choose("lit", 2*nv)
	return vsym.Ite(k < nv, -1-k, k+1-nv)
}

func clause(nv, lo, hi int) []int {
	var c []int
	w := lo
	if hi > lo {
		w += pick("w", hi-lo+1)
	}
	for ; w > 0; w-- {
		c = append(c, lit(nv))
	}
	return c
}

// judge checks one verdict; sat is whether f with the assumptions has a model.
func judge(v verdict, nv int, f cnf, as []int, sat, model, failed bool) {
	if vsym.P("notimer", 0) == 1 {
		vsym.Assert(v.res != 0, "a problem is decided in time")
	}
	if v.res == 1 {
		vsym.Reach("sat")
		vsym.Assert(sat, "satisfiable verdicts are right")
	}
	if v.res == -1 {
		vsym.Reach("unsat")
		vsym.Assert(vsym.Not(sat), "unsatisfiable verdicts are right")
	}
	vsym.Assert(v.res == 1 || !v.hasV, "values are those of a model")
	vsym.Assert(v.res == -1 || !v.hasF, "failed assumptions are those of an unsatisfiable problem")
	vsym.Assert(v.hasV || !model || v.res != 1, "the model is printed when asked for")
	vsym.Assert(v.hasF || !failed || v.res != -1, "failed assumptions are printed when asked for")
	all := f.with(as)
	if v.hasV {
		// every variable which occurs has a value
		n := nv
		for _, m := range v.model {
			if m > n {
				n = m
			}
			if -m > n {
				n = -m
			}
		}
		a := make([]bool, n+1)
		seen := make([]bool, n+1)
		for _, m := range v.model {
			x := m
			if x < 0 {
				x = -x
			}
			vsym.Assert(!seen[x], "a variable has one value")
			seen[x] = true
			a[x] = m > 0
		}
		for x := 1; x <= n; x++ {
			occurs := false
			for _, c := range all {
				for _, m := range c {
					occurs = vsym.Or(occurs, vsym.Or(m == x, m == -x))
				}
			}
			vsym.Assert(vsym.Implies(occurs, seen[x]), "every variable which occurs has a value")
		}
		vsym.Assert(v.ended, "the model ends with 0")
		vsym.Assert(all.holds(a), "the model satisfies the clauses and assumptions")
	}
	if v.hasF {
		for _, m := range v.failed {
			ok := false
			for _, o := range as {
				ok = vsym.Or(ok, o == m)
			}
			vsym.Assert(ok, "failed assumptions are assumptions")
		}
		if nv < 10 {
			vsym.Assert(vsym.Not(f.with(v.failed).sat(nv)), "failed assumptions contradict the clauses")
		}
	}
}

// options are the flags of one run.
type options struct {
	args           []string
	as             []int
	model, failed  bool
	satcomp, stdin bool
}

func flagsOf() *options {
	o := &options{}
	o.model = pick("model", 2) == 1
	o.failed = pick("failed", 2) == 1
	o.satcomp = pick("satcomp", 2) == 1
	if o.model {
		o.args = append(o.args, "-model")
	}
	if o.failed {
		o.args = append(o.args, "-failed")
	}
	if o.satcomp {
		o.args = append(o.args, "-satcomp")
	}
	if vsym.P("mon", 0) == 1 {
		o.args = append(o.args, "-mon", "1s")
	}
	return o
}

func (o *options) assume(as []int) {
	o.as = as
	if len(as) == 0 {
		return
	}
	var ws []string
	for _, m := range as {
		ws = append(ws, word(m, '+'))
	}
	if len(as) > 1 && pick("twice", 2) == 1 {
		o.args = append(o.args, "-assume", ws[0], "-assume="+strings.Join(ws[1:], ","))
		return
	}
	o.args = append(o.args, "-assume", strings.Join(ws, ","))
}

// status checks the exit status of a run with one problem.
func (o *options) status(code, res int) {
	want := 0
	if o.satcomp && res == 1 {
		want = 10
	}
	if o.satcomp && res == -1 {
		want = 20
	}
	vsym.Assert(code == want, "the exit status matches the verdict")
}

// Cnf: a problem with arbitrary clauses, flags and assumptions.
func Cnf() {
	nv := vsym.P("nv", 2)
	var f cnf
	for i := 0; i < vsym.P("nc", 2); i++ {
		f = append(f, clause(nv, vsym.P("wmin", 1), vsym.P("w", 2)))
	}
	o := flagsOf()
	var as []int
	for i := 0; i < vsym.P("as", 0); i++ {
		as = append(as, lit(nv))
	}
	o.assume(as)
	text := f.text("c a problem\np cnf " + strconv.Itoa(nv) + " " + strconv.Itoa(len(f)) + "\n")
	name := "p.cnf"
	if vsym.P("stdin", 0) == 1 {
		name = "-"
	}
	give(name, text)
	if name != "-" || !o.satcomp {
		o.args = append(o.args, name)
	}
	code, out := run(o.args)
	vs := parse(out)
	vsym.Assert(len(vs) == 1, "there is one verdict")
	judge(vs[0], nv, f, as, f.with(as).sat(nv), o.model, o.failed)
	o.status(code, vs[0].res)
	vsym.Reach("end")
}

// Long: models and failed assumptions of many variables.
func Long() {
	nv := vsym.P("nv", 30)
	var f cnf
	var as []int
	x := uint32(vsym.P("seed", 1))
	k := vsym.P("free", 2)
	unsat := pick("unsat", 2) == 1
	for i := 1; i <= nv; i++ {
		m := i
		x = x*1664525 + 1013904223
		if i <= k && pick("neg", 2) == 1 || i > k && x>>16&1 == 1 {
			m = -m
		}
		as = append(as, m)
	}
	if unsat {
		// all the assumptions together are too much
		var c []int
		for _, m := range as {
			c = append(c, -m)
		}
		f = append(f, c)
	} else {
		for _, m := range as {
			f = append(f, []int{m})
		}
		as = nil
	}
	o := &options{args: []string{"-model", "-failed"}, model: true, failed: true}
	o.assume(as)
	give("p.cnf", f.text("p cnf "+strconv.Itoa(nv)+" "+strconv.Itoa(len(f))+"\n"))
	o.args = append(o.args, "p.cnf")
	code, out := run(o.args)
	vs := parse(out)
	vsym.Assert(len(vs) == 1, "there is one verdict")
	judge(vs[0], nv, f, as, !unsat, true, true)
	if unsat {
		vsym.Assert(len(vs[0].failed) == nv, "all assumptions are needed")
	}
	o.status(code, vs[0].res)
	vsym.Reach("end")
}

// Files: several inputs, some of which can't be read.
func Files() {
	n := vsym.P("n", 3)
	nv := vsym.P("nv", 1)
	var o options
	type in struct {
		f    cnf
		inc  bool
		skip bool
	}
	var ins []in
	for i := 0; i < n; i++ {
		name := "p" + strconv.Itoa(i)
		f := cnf{clause(nv, 1, 2), clause(nv, 1, 1)}
		switch pick("kind", 6) {
		case 0:
			name += ".cnf"
			give(name, f.text("p cnf 1 2\n"))
			ins = append(ins, in{f: f})
		case 1:
			name += ".icnf"
			give(name, f.text("p inccnf\n")+"a 0\n")
			ins = append(ins, in{f: f, inc: true})
		case 2: // missing
			name += ".cnf"
		case 3: // not a problem
			name += ".cnf"
			give(name, "p cnf 1 1\n1 x 0\n")
		case 4: // cut off
			name += ".cnf"
			give(name, "p cnf 1 1\n1 -")
		case 5: // no known extension
			give(name, f.text("p cnf 1 2\n"))
		}
		o.args = append(o.args, name)
	}
	o.satcomp = n == 1 && pick("satcomp", 2) == 1
	if o.satcomp {
		o.args = append([]string{"-satcomp"}, o.args...)
	}
	code, out := run(o.args)
	vs := parse(out)
	vsym.Assert(len(vs) == len(ins), "there is a verdict for each problem")
	for i, v := range vs {
		judge(v, nv, ins[i].f, nil, ins[i].f.sat(nv), false, false)
	}
	if !o.satcomp {
		vsym.Assert(code == 0, "the command ends")
	} else if len(ins) == 0 {
		vsym.Assert(code != 10 && code != 20, "the exit status doesn't claim a verdict")
	} else if !ins[0].inc {
		o.status(code, vs[0].res)
	}
	vsym.Reach("end")
}

// ICnf: clauses and queries in any order: the digits of parameter s (1 a
// clause, 2 a query).
func ICnf() {
	nv := vsym.P("nv", 2)
	text := "p inccnf\n"
	type query struct {
		f  cnf
		as []int
	}
	var f cnf
	var qs []query
	s := strconv.Itoa(vsym.P("s", 121))
	for i := 0; i < len(s); i++ {
		if s[i] == '1' {
			c := clause(nv, 1, vsym.P("w", 2))
			f = append(f, c)
			text += line("", c)
			continue
		}
		as := clause(nv, vsym.P("qmin", 0), vsym.P("q", 1))
		qs = append(qs, query{append(cnf(nil), f...), as})
		text += line("a ", as)
	}
	give("p.icnf", text)
	var args []string
	if vsym.P("ax", 0) == 1 {
		args = append(args, "-ax")
	}
	code, out := run(append(args, "p.icnf"))
	vs := parse(out)
	vsym.Assert(len(vs) == len(qs), "there is a verdict for each query")
	for i, v := range vs {
		judge(v, nv, qs[i].f, qs[i].as, qs[i].f.with(qs[i].as).sat(nv), false, false)
	}
	vsym.Assert(code == 0, "the command ends")
	vsym.Reach("end")
}

// Bytes: any bytes at all.
func Bytes() {
	n := vsym.P("n", 2)
	pre := [...]string{"p cnf 2 2\n1 ", "p inccnf\n1 0\na ", "", "1 2 0 -"}[vsym.P("pre", 0)]
	b := []byte(pre)
	for i := 0; i < n; i++ {
		b = append(b, vsym.Byte("b"))
	}
	name := "p.cnf"
	if vsym.P("inc", 0) == 1 {
		name = "p.icnf"
	}
	give(name, string(b))
	o := &options{satcomp: true}
	code, out := run([]string{"-satcomp", name})
	vs := parse(out)
	if vsym.P("inc", 0) == 0 {
		vsym.Assert(len(vs) <= 1, "there is at most one verdict")
		res := 0
		if len(vs) == 1 {
			res = vs[0].res
		}
		o.status(code, res)
	} else {
		vsym.Assert(code == 0, "the command ends")
	}
	vsym.Reach("end")
}
