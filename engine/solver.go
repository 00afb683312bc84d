package main

// Persistent SMT solver process (z3 -in), one per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	RUnknown SatRes = iota
	RSat
	RUnsat
)

type Solver struct {
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	defined  map[uint32]bool
	declVars []*Term
	declSet  map[uint32]bool
	stack    []*Term // asserted conjuncts, one push level each
	sb       strings.Builder
	nDefs    int
	dead     bool
	log      *os.File
	timeout  int // ms
	lastErr  string
}

var (
	statQueries  int64
	statSat      int64
	statUnsat    int64
	statUnknown  int64
	statSolverNs int64
	statRestarts int64
)

func newSolver(bin string) *Solver {
	s := &Solver{bin: bin, timeout: 60000}
	if d := os.Getenv("ENG_SMTLOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "smt")
	}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		atomic.AddInt64(&statRestarts, 1)
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.declSet = map[uint32]bool{}
	s.declVars = nil
	s.stack = nil
	s.nDefs = 0
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-logic QF_BV)\n")
	if s.timeout > 0 {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.val, t.w)
	case OVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// declare makes all subterms known to the solver (definitions are global).
func (s *Solver) declare(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	if t.op == OVar {
		s.defined[t.id] = true
		s.declVars = append(s.declVars, t)
		s.send("(declare-fun " + s.ref(t) + " () " + sortOf(t.w) + ")\n")
		return
	}
	if t.a != nil {
		s.declare(t.a)
	}
	if t.b != nil {
		s.declare(t.b)
	}
	if t.c != nil {
		s.declare(t.c)
	}
	s.defined[t.id] = true
	s.nDefs++
	var sb strings.Builder
	sb.WriteString("(define-fun ")
	sb.WriteString(s.ref(t))
	sb.WriteString(" () ")
	sb.WriteString(sortOf(t.w))
	sb.WriteString(" (")
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.val)+int(t.w)-1, t.val)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a.w)
	default:
		sb.WriteString(opName[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(x))
		}
	}
	sb.WriteString("))\n")
	s.send(sb.String())
}

func varsOf(ts []*Term, f func(*Term)) {
	seen := map[uint32]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			f(t)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	for _, t := range ts {
		rec(t)
	}
}

// check decides pc /\ extra. pc is the list of conjuncts of the path condition
// in order; the common prefix with the currently asserted stack is kept.
func (s *Solver) check(pc []*Term, extra *Term, wantModel bool) (SatRes, *Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&statQueries, 1)
	for attempt := 0; ; attempt++ {
		r, m, ok := s.check1(pc, extra, wantModel)
		if ok {
			switch r {
			case RSat:
				atomic.AddInt64(&statSat, 1)
			case RUnsat:
				atomic.AddInt64(&statUnsat, 1)
			default:
				atomic.AddInt64(&statUnknown, 1)
			}
			return r, m
		}
		s.start()
		if attempt >= 1 {
			atomic.AddInt64(&statUnknown, 1)
			return RUnknown, nil
		}
	}
}

func (s *Solver) check1(pc []*Term, extra *Term, wantModel bool) (SatRes, *Model, bool) {
	if s.nDefs > 30000 {
		s.start()
	}
	s.send("(push 1)\n")
	for _, p := range pc {
		s.declare(p)
		s.send("(assert " + s.ref(p) + ")\n")
	}
	if extra != nil {
		s.declare(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	line, err := s.readLine()
	if err != nil {
		return RUnknown, nil, false
	}
	var r SatRes
	switch line {
	case "sat":
		r = RSat
	case "unsat":
		r = RUnsat
	case "unknown", "timeout":
		r = RUnknown
	default:
		s.lastErr = line
		return RUnknown, nil, false
	}
	var m *Model
	if r == RSat && wantModel {
		m = newModel()
		var vs []*Term
		all := pc
		if extra != nil {
			all = append(append([]*Term(nil), pc...), extra)
		}
		varsOf(all, func(t *Term) { vs = append(vs, t) })
		if len(vs) > 0 {
			s.send("(get-value (")
			for _, v := range vs {
				s.send(s.ref(v) + " ")
			}
			s.send("))\n")
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.lastErr = txt
				return RUnknown, nil, false
			}
			parseValues(txt, vs, m)
		}
	}
	s.send("(pop 1)\n")
	return r, m, true
}

func (s *Solver) readLine() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			if err == io.EOF {
				return sb.String(), err
			}
			return "", err
		}
		if c == '(' {
			depth++
			started = true
		}
		if started {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string, vs []*Term, m *Model) {
	// ((v0 #x..) (v1 (_ bv3 4)) (v2 true))
	byIdx := map[int]*Term{}
	for _, v := range vs {
		byIdx[int(v.val)] = v
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t[0] != 'v' {
			continue
		}
		idx, err := strconv.Atoi(t[1:])
		if err != nil || i+1 >= len(toks) {
			continue
		}
		v := toks[i+1]
		var val uint64
		switch {
		case v == "true":
			val = 1
		case v == "false":
			val = 0
		case strings.HasPrefix(v, "#x"):
			val, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			val, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			val, _ = strconv.ParseUint(toks[i+2][2:], 10, 64)
			i++
		}
		if tm := byIdx[idx]; tm != nil {
			m.set(tm, val)
		}
		i++
	}
}
