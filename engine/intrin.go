package main

// Intrinsics: the harness interface and stubs for the environment.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
)

const (
	modPath  = "github.com/go-air/gini"
	vsymPkg  = modPath + "/internal/vsym"
	modelPkg = modPath + "/internal/vmodel"
)

var redirects = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Fprintf": "Fprintf", "fmt.Errorf": "Errorf", "fmt.Sprint": "Sprint",
	"fmt.Fprintln": "Fprintln", "fmt.Fprint": "Fprint", "sort.Sort": "Sort", "sort.Stable": "Sort", "sort.Ints": "Ints",
	"internal/bytealg.MakeNoZero": "MakeNoZero", "internal/bytealg.CountString": "CountString", "internal/bytealg.Count": "Count",
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut",
	"net.Dial": "wire:NetDial", "net.Listen": "wire:NetListen", "os.Stat": "wire:OsStat",
}

// cliRedirects apply when harness package cli is loaded, before intrinsics.
var cliRedirects = map[string]string{
	"os.Stat": "OsStat", "os.Lstat": "OsStat", "os.Open": "OsOpen", "os.ReadFile": "OsReadFile", "os.Exit": "OsExit",
	"(*os.File).Read": "FileRead", "(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", "(*os.File).Close": "FileClose",
	"log.Fatal": "LogFatal", "log.Fatalln": "LogFatal", "log.Fatalf": "LogFatalf", "fmt.Printf": "Printf", "fmt.Print": "Print", "fmt.Println": "Println", "os/signal.Notify": "SignalNotify",
	"flag.Bool": "FlagBool", "flag.String": "FlagString", "flag.Int": "FlagInt", "flag.Duration": "FlagDuration", "flag.Var": "FlagVar",
	"flag.BoolVar": "FlagBoolVar", "flag.StringVar": "FlagStringVar", "flag.IntVar": "FlagIntVar", "flag.DurationVar": "FlagDurationVar",
	"flag.Parse": "FlagParse", "flag.NArg": "FlagNArg", "flag.Arg": "FlagArg", "flag.Args": "FlagArgs", "flag.PrintDefaults": "FlagPrintDefaults",
}

var intrinsics map[string]intrinsic

func (st *State) ndCount() int {
	if st.nd == nil {
		return 0
	}
	return st.nd.n
}

// nondetTerm creates the next arbitrary value of this path in [lo,hi].
func (st *State) nondetTerm(name string, lo, hi uint64, w uint8) *Term {
	n := st.ndCount()
	rng := hi - lo
	var t *Term
	full := fmt.Sprintf("%s@%d", name, n)
	if rng == 0 {
		t = mkConst(lo, w)
	} else {
		vw := uint8(bits.Len64(rng))
		v := mkVar(full, vw, 0, rng)
		if rng != mask(vw) {
			c := intern(OUle, 0, v, mkConst(rng, vw), nil, 0)
			st.pc = append(st.pc, c)
		}
		if w == 0 {
			t = mkBin(OEq, v, mkConst(1, 1))
		} else {
			t = mkZext(v, w)
			if lo != 0 {
				t = mkBin(OAdd, t, mkConst(lo, w))
			}
		}
	}
	st.nd = &ndEnt{name: name, t: t, prev: st.nd, n: n + 1, w: w}
	return t
}

func constStrArg(v Val) string {
	s, _ := v.x.(string)
	return s
}

func nd(w uint8) intrinsic {
	return func(st *State, c *callCtx) {
		c.ret(vTerm(st.nondetTerm(constStrArg(c.args[0]), 0, mask(w), w)))
	}
}

func nop(st *State, c *callCtx) { c.ret(zeroResult(c.fn)) }

func zeroResult(fn *Fn) Val {
	if fn.results == nil || fn.results.Len() == 0 {
		return Val{}
	}
	if fn.results.Len() == 1 {
		return zeroVal(fn.results.At(0).Type())
	}
	return zeroVal(fn.results)
}

func bool2(f func(a, b *Term) *Term) intrinsic {
	return func(st *State, c *callCtx) {
		c.ret(vTerm(f(c.args[0].term(0), c.args[1].term(0))))
	}
}

func fatal(name string) intrinsic {
	return func(st *State, c *callCtx) {
		c.noret = true
		st.wk.violation(st, name+" at "+st.where(), nil)
	}
}

// lock-like operations --------------------------------------------------

func cell0(st *State, v Val) (*Obj, int, bool) {
	v = st.res(v)
	o, ok := v.x.(*Obj)
	if !ok {
		if st.flag == fRun {
			st.nilDeref()
		}
		return nil, 0, false
	}
	return o, int(v.c), true
}

// guarded runs body when ready; otherwise parks the goroutine.
func syncCall(name string, ready func(st *State, args []Val) bool, body func(st *State, c *callCtx)) {
	syncFns[name] = ready
	intrinsics[name] = func(st *State, c *callCtx) {
		g := c.g
		if len(st.gs) > 1 && !g.granted {
			c.noret = true
			g.blocked = true
			st.schedule()
			return
		}
		g.granted = false
		if !ready(st, c.args) {
			if st.flag != fRun {
				return
			}
			c.noret = true
			g.blocked = true
			st.schedule()
			return
		}
		body(st, c)
	}
}

func init() {
	intrinsics = map[string]intrinsic{}
	V := func(n string, f intrinsic) { intrinsics[vsymPkg+"."+n] = f }
	V("Register", nop)
	V("Lookup", nop)
	V("Trace", nop)
	V("Symbolic", func(st *State, c *callCtx) { c.ret(vBool(true)) })
	V("P", func(st *State, c *callCtx) {
		if v, ok := st.wk.job.params[constStrArg(c.args[0])]; ok {
			c.ret(Val{c: uint64(int64(v))})
			return
		}
		c.ret(c.args[1])
	})
	V("Int", func(st *State, c *callCtx) {
		lo, hi := c.args[1], c.args[2]
		if lo.x != nil || hi.x != nil {
			l, h := st.conc(lo, 64), st.conc(hi, 64)
			if st.flag != fRun {
				return
			}
			lo, hi = Val{c: l}, Val{c: h}
		}
		if int64(hi.c) < int64(lo.c) {
			st.end(fInfeasible, "empty range")
			return
		}
		c.ret(vTerm(st.nondetTerm(constStrArg(c.args[0]), lo.c, hi.c, 64)))
	})
	V("Choose", func(st *State, c *callCtx) {
		n := st.conc(c.args[1], 64)
		if st.flag != fRun {
			return
		}
		if n == 0 {
			st.end(fInfeasible, "empty choice")
			return
		}
		save := st.nd
		t := st.nondetTerm(constStrArg(c.args[0]), 0, n-1, 64)
		e := st.nd
		st.nd = save // forks re-execute this call
		k := st.conc(vTerm(t), 64)
		if st.flag != fRun {
			return
		}
		st.nd = e
		c.ret(Val{c: k})
	})
	V("Bool", func(st *State, c *callCtx) {
		c.ret(vTerm(st.nondetTerm(constStrArg(c.args[0]), 0, 1, 0)))
	})
	V("Byte", nd(8))
	V("Uint16", nd(16))
	V("Uint32", nd(32))
	V("Uint64", nd(64))
	V("Conc", func(st *State, c *callCtx) {
		k := st.conc(c.args[0], 64)
		if st.flag == fRun {
			c.ret(Val{c: k})
		}
	})
	V("Assume", func(st *State, c *callCtx) {
		t := c.args[0].term(0)
		if t.op == OConst {
			if t.val == 0 {
				st.end(fInfeasible, "assume")
				return
			}
			c.ret(Val{})
			return
		}
		if !st.assume(t) {
			return
		}
		c.ret(Val{})
	})
	V("Assert", func(st *State, c *callCtx) {
		msg := constStrArg(c.args[1])
		st.wk.asserts++
		t := c.args[0].term(0)
		if t.op == OConst {
			if t.val == 0 {
				c.noret = true
				st.wk.violation(st, "assertion failed: "+msg, nil)
				return
			}
			c.ret(Val{})
			return
		}
		if kv, ok := st.known(t); ok && kv {
			c.ret(Val{})
			return
		}
		nt := mkNot(t)
		if st.model.eval(nt) == 1 {
			c.noret = true
			st.wk.violation(st, "assertion failed: "+msg, nil)
			return
		}
		st.pend = append(st.pend, pendAssert{t, msg})
		st.impl = append(st.impl, t)
		c.ret(Val{})
		if len(st.pend) >= 48 {
			st.flush()
		}
	})
	V("Fail", func(st *State, c *callCtx) {
		c.noret = true
		st.wk.violation(st, "assertion failed: "+constStrArg(c.args[0]), nil)
	})
	V("And", bool2(mkAnd))
	V("Or", bool2(mkOr))
	V("Not", func(st *State, c *callCtx) { c.ret(vTerm(mkNot(c.args[0].term(0)))) })
	V("Implies", bool2(func(a, b *Term) *Term { return mkOr(mkNot(a), b) }))
	V("Iff", bool2(func(a, b *Term) *Term { return mkBin(OEq, a, b) }))
	V("Ite", func(st *State, c *callCtx) {
		c.ret(vTerm(mkIte(c.args[0].term(0), c.args[1].term(64), c.args[2].term(64))))
	})
	V("IteB", func(st *State, c *callCtx) {
		c.ret(vTerm(mkIte(c.args[0].term(0), c.args[1].term(0), c.args[2].term(0))))
	})
	V("B2i", func(st *State, c *callCtx) {
		c.ret(vTerm(mkIte(c.args[0].term(0), mkConst(1, 64), mkConst(0, 64))))
	})
	V("Reach", func(st *State, c *callCtx) {
		st.wk.job.reached(constStrArg(c.args[0]))
		c.ret(Val{})
	})
	V("Known", func(st *State, c *callCtx) {
		id := constStrArg(c.args[0])
		if !openKnown[id] {
			c.ret(Val{})
			return
		}
		t := c.args[1].term(0)
		hit := st.model.eval(t) == 1
		if !hit && t.op != OConst {
			r, _ := st.wk.query(st, t)
			hit = r == RSat
		}
		if hit {
			j := st.wk.job
			j.mu.Lock()
			if j.knownHit == nil {
				j.knownHit = map[string]bool{}
			}
			j.knownHit[id] = true
			j.mu.Unlock()
		}
		nt := mkNot(t)
		if nt.op == OConst {
			if nt.val == 0 {
				st.end(fInfeasible, "known finding")
				return
			}
			c.ret(Val{})
			return
		}
		if st.assume(nt) {
			c.ret(Val{})
		}
	})
	V("Merge", func(st *State, c *callCtx) {
		fv, ok := st.res(c.args[0]).x.(*Func)
		if !ok || !st.mergeOK(c.g) {
			st.callVal(c.g, c.args[0], nil, -1, false)
			c.noret = true
			return
		}
		c.noret = true
		st.mergeCall(c.g, fv.fn, nil, fv.bind, -1)
	})

	// model helpers
	intrinsics[modelPkg+".rawInt"] = func(st *State, c *callCtx) {
		v := st.res(c.args[0])
		ifc, ok := v.x.(*Iface)
		if ok {
			ck := kindOf(ifc.t)
			if ck.k == KInt {
				t := ifc.v.term(ck.w)
				if !ck.s {
					c.ret(Val{x: &Tuple{v: []Val{{}, vTerm(mkZext(t, 64)), vBool(true)}}})
					return
				}
				neg := mkBin(OSlt, t, mkConst(0, ck.w))
				x := mkSext(t, 64)
				mag := mkIte(neg, mkBin(OSub, mkConst(0, 64), x), x)
				c.ret(Val{x: &Tuple{v: []Val{vTerm(neg), vTerm(mag), vBool(true)}}})
				return
			}
		}
		c.ret(Val{x: &Tuple{v: []Val{{}, {}, {}}}})
	}
	intrinsics[modelPkg+".stringOf"] = func(st *State, c *callCtx) {
		v := st.res(c.args[0])
		ifc, ok := v.x.(*Iface)
		if ok {
			if kindOf(ifc.t).k == KString {
				c.ret(Val{x: &Tuple{v: []Val{ifc.v, vBool(true)}}})
				return
			}
			if s, ok := ifc.t.Underlying().(*types.Slice); ok && kindOf(s.Elem()).k == KInt && kindOf(s.Elem()).w == 8 {
				if sl, ok := st.res(ifc.v).x.(*Slice); ok {
					c.ret(Val{x: &Tuple{v: []Val{mkStr(st.sliceVals(sl)), vBool(true)}}})
					return
				}
				c.ret(Val{x: &Tuple{v: []Val{{}, vBool(true)}}})
				return
			}
		}
		c.ret(Val{x: &Tuple{v: []Val{{}, {}}}})
	}

	// logging, formatting to the console, process
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetPrefix", "log.SetFlags", "log.SetOutput",
		"fmt.Printf", "fmt.Println", "fmt.Print", "(*os.File).Sync", "(*os.File).Close", "runtime.Gosched", "runtime.GC", "time.Sleep",
		"runtime.SetFinalizer", "runtime.KeepAlive", "(*time.Timer).Stop", "(*time.Ticker).Stop", "os.Remove"} {
		intrinsics[n] = nop
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panicf", "log.Panic"} {
		intrinsics[n] = fatal(n)
	}
	intrinsics["(*os.File).Write"] = func(st *State, c *callCtx) {
		n := 0
		if s, ok := st.res(c.args[1]).x.(*Slice); ok {
			n = s.len
		}
		c.ret(Val{x: &Tuple{v: []Val{{c: uint64(n)}, {}}}})
	}
	intrinsics["os.Getenv"] = nop
	intrinsics["internal/reflectlite.TypeOf"] = nop
	intrinsics["(internal/reflectlite.rtype).Elem"] = nop
	intrinsics["runtime.NumCPU"] = func(st *State, c *callCtx) { c.ret(Val{c: 2}) }

	// math
	mf := func(n string, f func(float64) float64) {
		intrinsics["math."+n] = func(st *State, c *callCtx) {
			x := math.Float64frombits(st.concF(c.args[0]))
			if st.flag == fRun {
				c.ret(Val{c: math.Float64bits(f(x))})
			}
		}
	}
	mf("Exp", math.Exp)
	mf("Ceil", math.Ceil)
	mf("Floor", math.Floor)
	mf("Log", math.Log)
	mf("Log2", math.Log2)
	mf("Sqrt", math.Sqrt)
	mf("Abs", math.Abs)

	// bytealg
	intrinsics["internal/bytealg.IndexByte"] = func(st *State, c *callCtx) {
		s, ok := st.res(c.args[0]).x.(*Slice)
		if !ok {
			c.ret(Val{c: ^uint64(0)})
			return
		}
		st.idxByte(c, st.sliceVals(s), c.args[1])
	}
	intrinsics["internal/bytealg.IndexByteString"] = func(st *State, c *callCtx) {
		st.idxByte(c, strBytes(st.res(c.args[0])), c.args[1])
	}
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	intrinsics["strings.IndexByte"] = intrinsics["internal/bytealg.IndexByteString"]
	intrinsics["bytes.Equal"] = func(st *State, c *callCtx) {
		get := func(v Val) []Val {
			if s, ok := st.res(v).x.(*Slice); ok {
				return st.sliceVals(s)
			}
			return nil
		}
		c.ret(vTerm(st.strEq(mkStr(get(c.args[0])), mkStr(get(c.args[1])))))
	}
	concStr := func(st *State, v Val) string {
		v = st.res(v)
		b := make([]byte, strLen(v))
		for i := range b {
			b[i] = byte(st.conc(strByte(v, i), 8))
		}
		return string(b)
	}
	intrinsics["strings.Contains"] = func(st *State, c *callCtx) {
		a, b := concStr(st, c.args[0]), concStr(st, c.args[1])
		if st.flag == fRun {
			c.ret(vBool(strings.Contains(a, b)))
		}
	}
	intrinsics["strings.TrimSpace"] = func(st *State, c *callCtx) {
		a := concStr(st, c.args[0])
		if st.flag == fRun {
			c.ret(vStr(strings.TrimSpace(a)))
		}
	}
	intrinsics["strings.Join"] = func(st *State, c *callCtx) {
		sep := st.res(c.args[1])
		var out []Val
		if s, ok := st.res(c.args[0]).x.(*Slice); ok {
			for i, v := range st.sliceVals(s) {
				if i > 0 {
					out = append(out, strBytes(sep)...)
				}
				out = append(out, strBytes(st.res(v))...)
			}
		}
		if st.flag == fRun {
			c.ret(mkStr(out))
		}
	}
	intrinsics["internal/stringslite.Clone"] = func(st *State, c *callCtx) { c.ret(c.args[0]) }
	intrinsics["(*strings.Builder).copyCheck"] = nop
	intrinsics["(*os.File).Sync"] = nop

	// time
	intrinsics["time.Now"] = func(st *State, c *callCtx) {
		c.ret(Val{x: &Agg{v: []Val{{c: 1}, {c: uint64(st.ndCount() + 1)}, {}}}})
	}
	intrinsics["time.Until"] = func(st *State, c *callCtx) {
		// arbitrary remaining time: either expired or not
		if st.wk.job.params["noexpire"] == 1 || st.wk.job.params["notimer"] == 1 {
			c.ret(Val{c: 1000000000})
			return
		}
		b := st.nondetTerm("expired", 0, 1, 0)
		c.ret(vTerm(mkIte(b, mkConst(0, 64), mkConst(1000000000, 64))))
	}
	intrinsics["time.Since"] = func(st *State, c *callCtx) { c.ret(Val{c: 1000}) }
	intrinsics["(time.Time).Sub"] = func(st *State, c *callCtx) { c.ret(Val{c: 1000}) }
	intrinsics["(time.Time).Add"] = func(st *State, c *callCtx) {
		a := c.args[0].x.(*Agg)
		d := st.conc(c.args[1], 64)
		if st.flag != fRun {
			return
		}
		c.ret(Val{x: &Agg{v: []Val{a.v[0], {c: a.v[1].c + d}, a.v[2]}}})
	}
	for _, n := range []string{"(time.Time).Before", "(time.Time).After"} {
		before := n == "(time.Time).Before"
		intrinsics[n] = func(st *State, c *callCtx) {
			if st.wk.job.params["notimer"] == 1 {
				x, y := c.args[0].x.(*Agg).v[1].c, c.args[1].x.(*Agg).v[1].c
				c.ret(vBool(before && x < y || !before && x > y))
				return
			}
			// the later of the two is a deadline, which has passed or not; once
			// it has, it has for good.
			x, y := c.args[0].x.(*Agg).v[1].c, c.args[1].x.(*Agg).v[1].c
			e := st.nondetTerm("expired", 0, 1, 0)
			for n := st.nd; n != nil; n = n.prev {
				if n.name == "expired" && n.t != e {
					e = mkBin(OOr, e, n.t)
				}
			}
			if before != (x > y) {
				e = mkNot(e)
			}
			c.ret(vTerm(e))
		}
	}
	intrinsics["time.After"] = func(st *State, c *callCtx) {
		ch := &Chan{cap: 1, timer: 1}
		if st.wk.job.params["notimer"] == 1 {
			ch.fires = 1 // never
		}
		o := st.allocSpecial('c', &Cont{ch: ch}, "timer", nil)
		c.ret(Val{x: o})
	}
	intrinsics["time.NewTicker"] = func(st *State, c *callCtx) {
		o := st.allocSpecial('c', &Cont{ch: &Chan{cap: 1, timer: 2}}, "ticker", nil)
		tt := deref(c.fn.results.At(0).Type())
		lay := layoutOf(tt)
		to := st.alloc(lay.size(), lay, "Ticker")
		st.store(to, 0, Val{x: o})
		c.ret(Val{x: to})
	}
	intrinsics["(time.Duration).String"] = func(st *State, c *callCtx) { c.ret(vStr("dur")) }

	for _, n := range []string{"Round", "Truncate"} {
		intrinsics["(time.Duration)."+n] = func(st *State, c *callCtx) { c.ret(c.args[0]) }
	}

	// rand: arbitrary values
	drawn := func(st *State) {
		st.draws++
		if m := st.wk.job.maxDraws; m > 0 && st.draws > m {
			st.end(fInfeasible, "more random values than the bound allows")
		}
	}
	ndRange := func(signed bool, n uint64, w uint8) intrinsic {
		return func(st *State, c *callCtx) {
			if drawn(st); st.flag == fRun {
				c.ret(vTerm(st.nondetTerm("rand", 0, n, w)))
			}
		}
	}
	intn := func(argIx int, w uint8) intrinsic {
		return func(st *State, c *callCtx) {
			n := st.conc(c.args[argIx], w)
			if st.flag != fRun {
				return
			}
			if sx(n, w) <= 0 {
				st.doPanic(mkErrVal(st, "invalid argument to Intn"), "invalid argument to Intn")
				c.noret = true
				return
			}
			if drawn(st); st.flag == fRun {
				c.ret(vTerm(st.nondetTerm("rand", 0, n-1, w)))
			}
		}
	}
	intrinsics["math/rand.Intn"] = intn(0, 64)
	intrinsics["math/rand.Int63n"] = intn(0, 64)
	intrinsics["(*math/rand.Rand).Intn"] = intn(1, 64)
	intrinsics["(*math/rand.Rand).Int63n"] = intn(1, 64)
	intrinsics["(*math/rand.Rand).Int31n"] = intn(1, 32)
	intrinsics["(*math/rand.Rand).Int"] = ndRange(true, mask(63), 64)
	intrinsics["(*math/rand.Rand).Uint32"] = ndRange(false, mask(32), 32)
	intrinsics["math/rand.Int"] = ndRange(true, mask(63), 64)
	intrinsics["math/rand.NewSource"] = nop
	intrinsics["math/rand.New"] = func(st *State, c *callCtx) {
		lay := layoutOf(deref(c.fn.results.At(0).Type()))
		o := st.alloc(lay.size(), lay, "rand")
		c.ret(Val{x: o})
	}
	intrinsics["math/rand.Seed"] = nop

	// sync
	lockFree := func(st *State, args []Val) bool {
		o, i, ok := cell0(st, args[0])
		return ok && st.load(o, i).c == 0
	}
	takeLock := func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		st.store(o, i, Val{c: 1})
		c.ret(Val{})
	}
	syncCall("(*sync.Mutex).Lock", lockFree, takeLock)
	syncCall(settleFn, func(st *State, a []Val) bool { return true }, func(st *State, c *callCtx) { c.ret(Val{}) })
	syncCall("(*sync.RWMutex).Lock", func(st *State, a []Val) bool {
		o, i, ok := cell0(st, a[0])
		return ok && st.load(o, i).c == 0 && st.load(o, i+1).c == 0
	}, takeLock)
	syncCall("(*sync.RWMutex).RLock", lockFree, func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		st.store(o, i+1, Val{c: st.load(o, i+1).c + 1})
		c.ret(Val{})
	})
	intrinsics["(*sync.RWMutex).RUnlock"] = func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		st.store(o, i+1, Val{c: st.load(o, i+1).c - 1})
		c.ret(Val{})
	}
	unlock := func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		if st.load(o, i).c == 0 {
			c.noret = true
			st.wk.violation(st, "fatal error: sync: unlock of unlocked mutex at "+st.where(), nil)
			return
		}
		st.store(o, i, Val{})
		c.ret(Val{})
	}
	intrinsics["(*sync.Mutex).Unlock"] = unlock
	intrinsics["(*sync.RWMutex).Unlock"] = unlock
	intrinsics["(*sync.Mutex).TryLock"] = func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		if st.load(o, i).c != 0 {
			c.ret(vBool(false))
			return
		}
		st.store(o, i, Val{c: 1})
		c.ret(vBool(true))
	}
	intrinsics["(*sync.WaitGroup).Add"] = func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		st.store(o, i, Val{c: st.load(o, i).c + c.args[1].c})
		c.ret(Val{})
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		st.store(o, i, Val{c: st.load(o, i).c - 1})
		c.ret(Val{})
	}
	syncCall("(*sync.WaitGroup).Wait", lockFree, func(st *State, c *callCtx) { c.ret(Val{}) })
	intrinsics["(*sync.Once).Do"] = func(st *State, c *callCtx) {
		o, i, ok := cell0(st, c.args[0])
		if !ok {
			return
		}
		if st.load(o, i).c != 0 {
			c.ret(Val{})
			return
		}
		st.store(o, i, Val{c: 1})
		c.noret = true
		st.callVal(c.g, c.args[1], nil, -1, c.isDefer)
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Load"+ty] = func(st *State, c *callCtx) {
			o, i, ok := cell0(st, c.args[0])
			if ok {
				c.ret(st.load(o, i))
			}
		}
		intrinsics["sync/atomic.Store"+ty] = func(st *State, c *callCtx) {
			o, i, ok := cell0(st, c.args[0])
			if ok {
				st.store(o, i, c.args[1])
				c.ret(Val{})
			}
		}
		intrinsics["sync/atomic.Add"+ty] = func(st *State, c *callCtx) {
			o, i, ok := cell0(st, c.args[0])
			if ok {
				v := vTerm(mkBin(OAdd, st.load(o, i).term(w), c.args[1].term(w)))
				st.store(o, i, v)
				c.ret(v)
			}
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = func(st *State, c *callCtx) {
			o, i, ok := cell0(st, c.args[0])
			if ok {
				e := st.branch(mkBin(OEq, st.load(o, i).term(w), c.args[1].term(w)))
				if st.flag != fRun {
					return
				}
				if e {
					st.store(o, i, c.args[2])
				}
				c.ret(vBool(e))
			}
		}
	}
}

func (st *State) idxByte(c *callCtx, vs []Val, b Val) {
	for i, v := range vs {
		if st.branch(mkBin(OEq, v.term(8), b.term(8))) {
			if st.flag == fRun {
				c.ret(Val{c: uint64(i)})
			}
			return
		}
		if st.flag != fRun {
			return
		}
	}
	c.ret(Val{c: ^uint64(0)})
}

// assume adds t to the path condition; false if the path became infeasible.
func (st *State) assume(t *Term) bool {
	if !st.flush() {
		return false
	}
	if v, ok := st.known(t); ok {
		if !v {
			st.end(fInfeasible, "assume")
		}
		return v
	}
	if st.model.eval(t) == 1 {
		st.addPC(t)
		return true
	}
	r, m := st.wk.query(st, t)
	switch r {
	case RSat:
		st.addPC(t)
		st.model = m
		return true
	case RUnsat:
		st.end(fInfeasible, "assume")
		return false
	}
	st.wk.job.incomplete("solver unknown on assumption")
	st.end(fAbort, "solver unknown on assumption")
	return false
}

// pendAssert is an assertion whose negation has not been put to the solver.
// Assertions are collected while the path condition stays the same and decided
// together.
type pendAssert struct {
	t   *Term
	msg string
}

// flush hands the pending assertions over for decision; false means that one
// is known to be violated (and the path has ended).
func (st *State) flush() bool {
	if len(st.pend) == 0 {
		return true
	}
	ps := st.pend
	st.pend = nil
	neg := mkBool(false)
	for _, p := range ps {
		neg = mkOr(neg, mkNot(p.t))
	}
	if st.model.eval(neg) == 1 {
		for _, p := range ps {
			if st.model.eval(p.t) != 1 {
				st.wk.violation(st, "assertion failed: "+p.msg, st.model)
				return false
			}
		}
	}
	st.wk.enqueue(st, ps, neg)
	return true
}
