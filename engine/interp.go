package main

// The symbolic interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sync/atomic"
)

const (
	fRun       = iota
	fEnd       // path finished (harness returned or exited early)
	fViolation // stop
	fAbort     // unsupported / bound exceeded
	fInfeasible
)

func (st *State) end(flag int, why string) {
	if st.flag == fRun {
		if flag != fViolation && !st.flush() {
			return
		}
		st.flag = flag
		st.endWhy = why
	}
}

func (st *State) g() *Goro { return st.gs[st.cur] }

func (st *State) top() *Frame {
	g := st.gs[st.cur]
	return g.frames[len(g.frames)-1]
}

// known looks a condition up in the path condition.
func (st *State) known(t *Term) (bool, bool) {
	nt := mkNot(t)
	for i := len(st.pc) - 1; i >= 0; i-- {
		p := st.pc[i]
		if p == t {
			return true, true
		}
		if p == nt {
			return false, true
		}
	}
	for i := len(st.impl) - 1; i >= 0; i-- {
		p := st.impl[i]
		if p == t {
			return true, true
		}
		if p == nt {
			return false, true
		}
	}
	return false, false
}

func (st *State) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	st.pc = append(st.pc, t)
	st.addParts(t)
}

func (st *State) addParts(t *Term) {
	if t.op == OAnd {
		st.impl = append(st.impl, t.a, t.b)
		st.addParts(t.a)
		st.addParts(t.b)
	} else if t.op == ONot && t.a.op == OOr {
		a, b := mkNot(t.a.a), mkNot(t.a.b)
		st.impl = append(st.impl, a, b)
		st.addParts(a)
		st.addParts(b)
	}
}

// branch decides a symbolic condition for this path, forking the other side.
func (st *State) branch(t *Term) bool {
	if t.op == OConst {
		return t.val == 1
	}
	if st.flag != fRun {
		return st.model.eval(t) == 1
	}
	if v, ok := st.known(t); ok {
		return v
	}
	v := st.model.eval(t) == 1
	this, other := t, mkNot(t)
	if !v {
		this, other = other, this
	}
	if dbgInv {
		st.inv("pre")
	}
	r, m := st.wk.query(st, other)
	switch r {
	case RSat:
		if !st.flush() {
			return v
		}
		n := st.clone()
		n.addPC(other)
		n.model = m
		if dbgInv {
			n.wk = st.wk
			n.inv("clone")
		}
		if st.wk.job.traceForks {
			n.trace = &trEnt{s: fmt.Sprintf("fork %s at %s: %s", st.top().fn.name, st.where(), other), prev: n.trace}
		}
		atomic.AddInt64(&st.wk.job.forks, 1)
		if hot := st.wk.job.hot; hot != nil {
			st.wk.job.hotAdd(st.top().fn.name + " " + st.where())
		}
		st.wk.push(n)
		st.addPC(this)
	case RUnsat:
		if dbgInv {
			r2, _ := st.wk.sol.check(st.pc, other, false)
			if r2 != RUnsat {
				fmt.Println("BAD UNSAT", other, len(other.sup), other.sup)
				for _, q := range st.pc {
					fmt.Println("PC", q, q.sup)
				}
			}
		}
		st.impl = append(st.impl, this) // implied; recorded so that it is not asked again
	default:
		st.wk.job.incomplete("solver unknown")
		if !st.flush() {
			return v
		}
		st.addPC(this)
	}
	return v
}

func (st *State) where() string {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return "?"
	}
	fr := g.frames[len(g.frames)-1]
	if fr.fn.compiled && fr.blk < len(fr.fn.blocks) && fr.pc < len(fr.fn.blocks[fr.blk].ins) {
		return st.wk.job.prog.pos(fr.fn.blocks[fr.blk].ins[fr.pc].pos)
	}
	return fr.fn.name
}

func (st *State) stackTrace() []string {
	var out []string
	g := st.gs[st.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		s := fr.fn.name
		if fr.fn.compiled && fr.blk < len(fr.fn.blocks) && fr.pc < len(fr.fn.blocks[fr.blk].ins) {
			s += " " + st.wk.job.prog.pos(fr.fn.blocks[fr.blk].ins[fr.pc].pos)
		}
		out = append(out, s)
	}
	return out
}

// conc makes a scalar concrete by case splitting.
func (st *State) conc(v Val, w uint8) uint64 {
	if v.x == nil {
		return v.c
	}
	t := v.x.(*Term)
	if t.w == 0 {
		return b2u(st.branch(t))
	}
	// already pinned?
	for {
		k := st.model.eval(t)
		if st.branch(mkBin(OEq, t, mkConst(k, t.w))) {
			return k
		}
		if st.flag != fRun {
			return k
		}
	}
}

// res resolves guarded (merged) values by case splitting.
func (st *State) res(v Val) Val {
	for {
		c, ok := v.x.(*Choice)
		if !ok {
			return v
		}
		if st.branch(c.cond) {
			v = c.a
		} else {
			v = c.b
		}
	}
}

func (fr *Frame) get(o Opd) Val {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[^o]
}

func (fr *Frame) gets(os []Opd) []Val {
	r := make([]Val, len(os))
	for i, o := range os {
		if o >= 0 {
			r[i] = fr.regs[o]
		} else {
			r[i] = fr.fn.consts[^o]
		}
	}
	return r
}

func mkErrVal(st *State, msg string) Val {
	return Val{x: &Iface{t: rtErrType, v: vStr(msg)}}
}

var rtErrType types.Type

// doPanic raises an interpreted panic in the current goroutine.
func (st *State) doPanic(v Val, msg string) {
	g := st.g()
	fr := st.wframe(g)
	fr.panicking = &panicInfo{v: v, where: st.where(), msg: msg}
	fr.recovered = false
	if st.wk.job.verbose > 1 {
		fmt.Println("PANIC", msg, st.stackTrace())
	}
	st.unwind(g)
}

func (st *State) rtPanic(msg string) {
	st.doPanic(mkErrVal(st, "runtime error: "+msg), "runtime error: "+msg)
}

// unwind continues a panic until a deferred call is started or the goroutine dies.
func (st *State) unwind(g *Goro) {
	for {
		if len(g.frames) == 0 {
			return
		}
		fr := st.wframe(g)
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			st.startDefer(g, d)
			return
		}
		if fr.panicking == nil { // recovered
			st.finishRecovered(g, fr)
			return
		}
		pi := fr.panicking
		if pi.goexit && len(g.frames) == 1 {
			g.frames = g.frames[:0]
			g.dead = true
			return
		}
		if len(g.frames) == 1 {
			st.uncaught(pi)
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		up := st.wframe(g)
		up.panicking = pi
		up.recovered = false
	}
}

func (st *State) finishRecovered(g *Goro, fr *Frame) {
	fr.recovered = false
	if fr.fn.recover >= 0 {
		fr.prev = fr.blk
		fr.blk = fr.fn.recover
		fr.pc = 0
		fr.inDefers = false
		return
	}
	// return zero values
	res := fr.fn.results
	var r Val
	if res.Len() == 1 {
		r = zeroVal(res.At(0).Type())
	} else if res.Len() > 1 {
		r = zeroVal(res)
	}
	st.doReturn(g, r)
}

func (st *State) startDefer(g *Goro, d deferred) {
	n := len(g.frames)
	st.callVal(g, d.fn, d.args, -1, true)
	_ = n
}

func (st *State) uncaught(pi *panicInfo) {
	st.wk.violation(st, "uncaught panic: "+pi.msg+" at "+pi.where, nil)
}

// pushCall invokes fn with args, result to register dst of the current frame.
func (st *State) pushCall(g *Goro, fn *Fn, args []Val, bind []Val, dst int, isDefer bool) {
	if !fn.resolved {
		st.wk.job.prog.resolve(fn)
	}
	for fn.redirect != nil {
		fn = fn.redirect
		if !fn.resolved {
			st.wk.job.prog.resolve(fn)
		}
	}
	if fn.intr != nil {
		c := &callCtx{st: st, g: g, fn: fn, args: args, dst: dst, isDefer: isDefer, bind: bind}
		if st.race != nil {
			st.raceCall(fn, c)
		} else {
			fn.intr(st, c)
		}
		if !c.done && st.flag == fRun && !c.noret {
			c.ret(Val{})
		}
		return
	}
	if fn.noBody {
		st.end(fAbort, "unsupported function "+fn.name+" at "+st.where())
		return
	}
	if len(g.frames) > 2000 {
		st.end(fAbort, "call depth bound exceeded in "+fn.name)
		return
	}
	if fn.mergeMe && st.mergeOK(g) {
		st.mergeCall(g, fn, args, bind, dst)
		return
	}
	st.pushFrame(g, fn, args, bind, dst, isDefer)
}

func (st *State) pushFrame(g *Goro, fn *Fn, args []Val, bind []Val, dst int, isDefer bool) {
	atomic.AddInt64(&fn.calls, 1)
	nf := &Frame{owner: st.id, fn: fn, regs: make([]Val, fn.nregs), dst: dst, isDefer: isDefer}
	copy(nf.regs, args)
	copy(nf.regs[fn.freeBase:], bind)
	g.frames = append(g.frames, nf)
	if len(fn.cover) > 0 {
		fn.cover[0]++
	}
}

func (st *State) callVal(g *Goro, f Val, args []Val, dst int, isDefer bool) {
	f = st.res(f)
	if st.flag != fRun {
		return
	}
	fv, ok := f.x.(*Func)
	if !ok {
		st.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		return
	}
	if fv.bi != "" {
		st.end(fAbort, "builtin as value "+fv.bi)
		return
	}
	st.pushCall(g, fv.fn, args, fv.bind, dst, isDefer)
}

// doReturn pops the top frame delivering r.
func (st *State) doReturn(g *Goro, r Val) {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.dead = true
		if g.id == 0 {
			st.end(fEnd, "done")
		}
		return
	}
	up := st.wframe(g)
	if fr.isDefer {
		st.afterDefer(g, up)
		return
	}
	if fr.dst >= 0 {
		up.regs[fr.dst] = r
	}
	up.pc++
}

func (st *State) afterDefer(g *Goro, up *Frame) {
	if up.inDefers && up.panicking == nil && !up.recovered {
		return // RunDefers instruction loops
	}
	// unwinding
	st.unwind(g)
}

type callCtx struct {
	st      *State
	g       *Goro
	fn      *Fn
	args    []Val
	bind    []Val
	dst     int
	isDefer bool
	done    bool
	noret   bool
}

// ret delivers the result of an intrinsic.
func (c *callCtx) ret(v Val) {
	if c.done {
		return
	}
	c.done = true
	st := c.st
	if len(c.g.frames) == 0 {
		c.g.dead = true
		return
	}
	up := st.wframe(c.g)
	if c.isDefer {
		st.afterDefer(c.g, up)
		return
	}
	if c.dst >= 0 {
		up.regs[c.dst] = v
	}
	up.pc++
}

type intrinsic func(st *State, c *callCtx)

// run executes the current state until it ends or must reschedule.
func (st *State) run() {
	job := st.wk.job
	for st.flag == fRun {
		g := st.gs[st.cur]
		if g.dead || len(g.frames) == 0 {
			if !st.schedule() {
				return
			}
			continue
		}
		st.steps++
		if st.steps&0xfff == 0 {
			if st.steps > job.maxSteps {
				st.end(fAbort, "step bound exceeded at "+st.where())
				st.wk.hang(st)
				return
			}
			if job.stopped() {
				st.end(fAbort, "stopped")
				return
			}
			st.wk.instrs += 0x1000
		}
		fr := g.frames[len(g.frames)-1]
		if fr.owner != st.id {
			fr = st.wframe(g)
		}
		if st.mergeBase > 0 && len(g.frames) <= st.mergeBase {
			st.end(fEnd, "merge")
			return
		}
		st.step(g, fr, &fr.fn.blocks[fr.blk].ins[fr.pc])
	}
}

func (st *State) jump(fr *Frame, to int) {
	from := fr.blk
	b := &fr.fn.blocks[to]
	fr.fn.cover[to]++
	if len(b.phis) > 0 {
		e := 0
		for i, p := range b.preds {
			if p == from {
				e = i
				break
			}
		}
		var tmp [8]Val
		vs := tmp[:0]
		for i := range b.phis {
			vs = append(vs, fr.get(b.phis[i].edges[e]))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = vs[i]
		}
	}
	fr.prev = from
	fr.blk = to
	fr.pc = 0
}

func (st *State) step(g *Goro, fr *Frame, in *Instr) {
	switch in.op {
	case iAlloc:
		o := st.alloc(in.lay.size(), in.lay, in.name)
		fr.regs[in.dst] = Val{x: o}
	case iBin:
		v, ok := st.binop(in, fr.get(in.a), fr.get(in.b))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iUn:
		v := fr.get(in.a)
		switch in.tok {
		case token.NOT:
			if v.x == nil {
				v = Val{c: 1 - v.c}
			} else {
				v = vTerm(mkNot(v.x.(*Term)))
			}
		case token.SUB:
			if in.k == KFloat || in.k == KFloat32 {
				v = Val{c: math.Float64bits(-math.Float64frombits(st.concF(v)))}
			} else if v.x == nil {
				v = Val{c: -v.c & mask(in.w)}
			} else {
				v = vTerm(mkBin(OSub, mkConst(0, in.w), v.term(in.w)))
			}
		case token.XOR:
			if v.x == nil {
				v = Val{c: ^v.c & mask(in.w)}
			} else {
				v = vTerm(mkBnot(v.term(in.w)))
			}
		}
		if st.flag != fRun {
			return
		}
		fr.regs[in.dst] = v
	case iLoad:
		v, ok := st.loadPtr(fr.get(in.a), in)
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iStore:
		if !st.storePtr(fr.get(in.a), fr.get(in.b), in) {
			return
		}
	case iMove:
		fr.regs[in.dst] = fr.get(in.a)
	case iConvert:
		v, ok := st.convert(in, fr.get(in.a))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iCall:
		st.pushCall(g, in.fn, fr.gets(in.args), nil, int(in.dst), false)
		return
	case iCallDyn:
		st.callVal(g, fr.get(in.a), fr.gets(in.args), int(in.dst), false)
		return
	case iInvoke:
		fn, recv, ok := st.invokeTarget(in, fr.get(in.a))
		if !ok {
			return
		}
		args := append([]Val{recv}, fr.gets(in.args)...)
		st.pushCall(g, fn, args, nil, int(in.dst), false)
		return
	case iBuiltin:
		v, ok := st.builtin(in, fr.gets(in.args), fr)
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iDefer:
		d, ok := st.mkDeferred(fr, in)
		if !ok {
			return
		}
		fr.defers = append(fr.defers, d)
	case iGo:
		d, ok := st.mkDeferred(fr, in)
		if !ok {
			return
		}
		fr.pc++
		ng := &Goro{id: len(st.gs)}
		st.gs = append(st.gs, ng)
		st.raceGo(st.cur, ng.id)
		cur := st.cur
		st.cur = ng.id
		// push a frame directly (intrinsics as goroutine bodies are not supported)
		fv, ok2 := d.fn.x.(*Func)
		if !ok2 || fv.fn == nil {
			st.end(fAbort, "go of nil/builtin")
			return
		}
		st.pushCall(ng, fv.fn, d.args, fv.bind, -1, false)
		if len(ng.frames) == 0 {
			ng.dead = true
		}
		st.cur = cur
		return
	case iExtract:
		v := fr.get(in.a)
		tp, ok := v.x.(*Tuple)
		if !ok {
			v = st.res(v)
			if st.flag != fRun {
				return
			}
			tp = v.x.(*Tuple)
		}
		fr.regs[in.dst] = tp.v[in.imm]
	case iField:
		v := st.res(fr.get(in.a))
		if st.flag != fRun {
			return
		}
		ag := v.x.(*Agg)
		if in.heap {
			fr.regs[in.dst] = Val{x: &Agg{v: ag.v[in.imm : in.imm+in.lay.size() : in.imm+in.lay.size()]}}
		} else {
			fr.regs[in.dst] = ag.v[in.imm]
		}
	case iFieldAddr:
		v := fr.get(in.a)
		switch p := v.x.(type) {
		case *Obj:
			fr.regs[in.dst] = Val{x: p, c: v.c + uint64(in.imm)}
		case *SymPtr:
			q := *p
			q.base += in.imm
			fr.regs[in.dst] = Val{x: &q}
		case *Choice:
			st.res(v)
			if st.flag == fRun {
				rv := st.res(v)
				if rv.x == nil {
					st.rtPanic("invalid memory address or nil pointer dereference")
					return
				}
				if o, ok := rv.x.(*Obj); ok {
					fr.regs[in.dst] = Val{x: o, c: rv.c + uint64(in.imm)}
				} else {
					q := *rv.x.(*SymPtr)
					q.base += in.imm
					fr.regs[in.dst] = Val{x: &q}
				}
			} else {
				return
			}
		case nil:
			st.rtPanic("invalid memory address or nil pointer dereference")
			return
		default:
			st.end(fAbort, fmt.Sprintf("FieldAddr on %T at %s", v.x, st.where()))
			return
		}
	case iIf:
		v := fr.get(in.a)
		var b bool
		if v.x == nil {
			b = v.c == 1
		} else {
			if st.tryIfConvert(fr, in, v.x.(*Term)) {
				return
			}
			b = st.branch(v.x.(*Term))
			if st.flag != fRun {
				return
			}
		}
		if b {
			st.jump(fr, in.t1)
		} else {
			st.jump(fr, in.t2)
		}
		return
	case iJump:
		st.jump(fr, in.t1)
		return
	case iIndex:
		v, ok := st.index(in, fr.get(in.a), fr.get(in.b))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iIndexAddr:
		v, ok := st.indexAddr(in, fr.get(in.a), fr.get(in.b))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iLookup:
		v, ok := st.lookup(in, fr.get(in.a), fr.get(in.b))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iMakeChan:
		n := st.conc(fr.get(in.a), 64)
		if st.flag != fRun {
			return
		}
		o := st.allocSpecial('c', &Cont{ch: &Chan{cap: int(n)}}, "chan", nil)
		fr.regs[in.dst] = Val{x: o}
	case iMakeClosure:
		fr.regs[in.dst] = Val{x: &Func{fn: in.fn, bind: fr.gets(in.args)}}
	case iMakeInterface:
		fr.regs[in.dst] = Val{x: &Iface{t: in.typ, v: fr.get(in.a)}}
	case iMakeMap:
		o := st.allocSpecial('m', &Cont{}, "map", nil)
		fr.regs[in.dst] = Val{x: o}
	case iMakeSlice:
		l := st.conc(fr.get(in.a), in.w)
		c := st.conc(fr.get(in.b), in.w2)
		if st.flag != fRun {
			return
		}
		if int64(l) < 0 || l > 1<<40 {
			st.rtPanic("makeslice: len out of range")
			return
		}
		if int64(c) < int64(l) || c > 1<<40 {
			st.rtPanic("makeslice: cap out of range")
			return
		}
		es := in.lay.size()
		if es == 0 {
			es = 1
		}
		if c*uint64(es) > uint64(st.wk.job.maxAlloc) {
			st.wk.hugeAlloc(st, c*uint64(es))
			st.end(fAbort, fmt.Sprintf("huge allocation %d at %s", c, st.where()))
			return
		}
		o := st.alloc(int(c)*in.lay.size(), in.lay, "makeslice")
		fr.regs[in.dst] = Val{x: &Slice{obj: o, off: 0, len: int(l), cap: int(c)}}
	case iMapUpdate:
		if !st.mapUpdate(in, fr.get(in.a), fr.get(in.b), fr.get(in.c)) {
			return
		}
	case iNext:
		v, ok := st.next(in, fr.get(in.a))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iPanic:
		v := fr.get(in.a)
		st.doPanic(v, st.panicString(v))
		return
	case iRange:
		v := st.res(fr.get(in.a))
		if st.flag != fRun {
			return
		}
		o := st.alloc(1, nil, "iter")
		fr.regs[in.dst] = Val{x: &Iter{obj: o, v: v, isMap: isMapT(in.typ)}}
	case iReturn:
		var r Val
		switch len(in.args) {
		case 0:
		case 1:
			r = fr.get(in.args[0])
		default:
			r = Val{x: &Tuple{v: fr.gets(in.args)}}
		}
		st.doReturn(g, r)
		return
	case iRunDefers:
		if len(fr.defers) > 0 {
			fr.inDefers = true
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			st.startDefer(g, d)
			return
		}
		fr.inDefers = false
	case iSlice:
		v, ok := st.slice(in, fr)
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iTypeAssert:
		v, ok := st.typeAssert(in, fr.get(in.a))
		if !ok {
			return
		}
		fr.regs[in.dst] = v
	case iSl2Arr:
		v := st.res(fr.get(in.a))
		if st.flag != fRun {
			return
		}
		s, ok := v.x.(*Slice)
		if !ok {
			fr.regs[in.dst] = Val{}
		} else {
			if s.len < in.imm {
				st.rtPanic("slice to array conversion: length")
				return
			}
			fr.regs[in.dst] = Val{x: s.obj, c: uint64(s.off)}
		}
	case iSend, iRecv, iSelect:
		st.syncOp(g, fr, in)
		return
	default:
		st.end(fAbort, "unsupported instruction "+in.name+" at "+st.where())
		return
	}
	if st.flag != fRun {
		return
	}
	fr.pc++
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

type Iter struct {
	obj   *Obj
	v     Val
	isMap bool
}

func (st *State) mkDeferred(fr *Frame, in *Instr) (deferred, bool) {
	args := fr.gets(in.args)
	switch iop(in.imm) {
	case iCall:
		return deferred{fn: Val{x: &Func{fn: in.fn}}, args: args}, true
	case iInvoke:
		fn, recv, ok := st.invokeTarget(in, fr.get(in.a))
		if !ok {
			return deferred{}, false
		}
		return deferred{fn: Val{x: &Func{fn: fn}}, args: append([]Val{recv}, args...)}, true
	case iBuiltin:
		// wrap: closing channels is the only builtin deferred in practice
		if fn, ok := builtinFns[in.name]; ok {
			return deferred{fn: Val{x: &Func{fn: fn}}, args: args}, true
		}
		st.end(fAbort, "deferred builtin "+in.name)
		return deferred{}, false
	}
	return deferred{fn: fr.get(in.a), args: args}, true
}

var builtinFns map[string]*Fn
var rtErrFn *Fn

func init() {
	builtinFns = map[string]*Fn{
		"close": {name: "close", resolved: true, intr: func(st *State, c *callCtx) { st.chanClose(c.args[0]) }},
	}
	rtErrFn = &Fn{name: "runtime.Error.Error", resolved: true, intr: func(st *State, c *callCtx) { c.ret(c.args[0]) }}
}

func (st *State) invokeTarget(in *Instr, v Val) (*Fn, Val, bool) {
	v = st.res(v)
	if st.flag != fRun {
		return nil, Val{}, false
	}
	ifc, ok := v.x.(*Iface)
	if !ok {
		st.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
		return nil, Val{}, false
	}
	if ifc.t == rtErrType {
		return rtErrFn, ifc.v, true
	}
	fn := st.wk.job.prog.method(ifc.t, in.meth)
	if fn == nil {
		st.end(fAbort, "method not found "+in.meth.Name()+" on "+ifc.t.String())
		return nil, Val{}, false
	}
	return fn, ifc.v, true
}

// ---- floats ----

func (st *State) concF(v Val) uint64 {
	v = st.res(v)
	if v.x == nil {
		return v.c
	}
	return st.conc(v, 64)
}

// ---- arithmetic ----

func (st *State) binop(in *Instr, a, b Val) (Val, bool) {
	switch in.k {
	case KInt:
		return st.intBin(in, a, b)
	case KBool:
		if a.x == nil && b.x == nil {
			switch in.tok {
			case token.EQL:
				return vBool(a.c == b.c), true
			case token.NEQ:
				return vBool(a.c != b.c), true
			case token.AND:
				return Val{c: a.c & b.c}, true
			case token.OR:
				return Val{c: a.c | b.c}, true
			}
		}
		t := mkBin(OEq, a.term(0), b.term(0))
		if in.tok == token.NEQ {
			t = mkNot(t)
		}
		return vTerm(t), true
	case KFloat, KFloat32:
		x := math.Float64frombits(st.concF(a))
		y := math.Float64frombits(st.concF(b))
		if st.flag != fRun {
			return Val{}, false
		}
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.EQL:
			return vBool(x == y), true
		case token.NEQ:
			return vBool(x != y), true
		case token.LSS:
			return vBool(x < y), true
		case token.LEQ:
			return vBool(x <= y), true
		case token.GTR:
			return vBool(x > y), true
		case token.GEQ:
			return vBool(x >= y), true
		}
		if in.k == KFloat32 {
			r = float64(float32(r))
		}
		return Val{c: math.Float64bits(r)}, true
	case KString:
		return st.strBin(in, a, b)
	}
	// general equality
	switch in.tok {
	case token.EQL, token.NEQ:
		a, b = st.res(a), st.res(b)
		if st.flag != fRun {
			return Val{}, false
		}
		t, ok := st.equal(a, b, in.typ)
		if !ok {
			return Val{}, false
		}
		if in.tok == token.NEQ {
			t = mkNot(t)
		}
		return vTerm(t), true
	}
	st.end(fAbort, "binop "+in.tok.String()+" on "+in.typ.String())
	return Val{}, false
}

func (st *State) intBin(in *Instr, a, b Val) (Val, bool) {
	w := in.w
	if a.x == nil && b.x == nil {
		x, y := a.c, b.c
		var r uint64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO, token.REM:
			if y == 0 {
				st.rtPanic("integer divide by zero")
				return Val{}, false
			}
			if in.sg {
				sa, sb := sx(x, w), sx(y, w)
				if sb == -1 {
					if in.tok == token.QUO {
						r = uint64(-sa)
					}
				} else if in.tok == token.QUO {
					r = uint64(sa / sb)
				} else {
					r = uint64(sa % sb)
				}
			} else if in.tok == token.QUO {
				r = x / y
			} else {
				r = x % y
			}
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.SHL, token.SHR:
			if in.commaok && sx(y, in.w2) < 0 {
				st.rtPanic("negative shift amount")
				return Val{}, false
			}
			if in.tok == token.SHL {
				if y < 64 {
					r = x << y
				}
			} else if in.sg {
				if y > 63 {
					y = 63
				}
				r = uint64(sx(x, w) >> y)
			} else if y < 64 {
				r = x >> y
			}
		case token.EQL:
			return vBool(x == y), true
		case token.NEQ:
			return vBool(x != y), true
		case token.LSS:
			if in.sg {
				return vBool(sx(x, w) < sx(y, w)), true
			}
			return vBool(x < y), true
		case token.LEQ:
			if in.sg {
				return vBool(sx(x, w) <= sx(y, w)), true
			}
			return vBool(x <= y), true
		case token.GTR:
			if in.sg {
				return vBool(sx(x, w) > sx(y, w)), true
			}
			return vBool(x > y), true
		case token.GEQ:
			if in.sg {
				return vBool(sx(x, w) >= sx(y, w)), true
			}
			return vBool(x >= y), true
		}
		return Val{c: r & mask(w)}, true
	}
	ta := a.term(w)
	if in.tok == token.SHL || in.tok == token.SHR {
		tb := b.term(in.w2)
		if in.commaok && tb.hi > mask(in.w2)>>1 {
			if st.branch(mkBin(OSlt, tb, mkConst(0, in.w2))) {
				st.rtPanic("negative shift amount")
				return Val{}, false
			}
			if st.flag != fRun {
				return Val{}, false
			}
		}
		var cnt *Term
		if in.w2 <= w {
			cnt = mkZext(tb, w)
		} else if tb.hi < uint64(w) {
			cnt = mkExtract(tb, 0, w)
		} else {
			cnt = mkIte(mkBin(OUlt, tb, mkConst(uint64(w), in.w2)), mkExtract(tb, 0, w), mkConst(uint64(w), w))
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLshr
			if in.sg {
				op = OAshr
			}
		}
		return vTerm(mkBin(op, ta, cnt)), true
	}
	tb := b.term(w)
	var t *Term
	switch in.tok {
	case token.ADD:
		t = mkBin(OAdd, ta, tb)
	case token.SUB:
		t = mkBin(OSub, ta, tb)
	case token.MUL:
		t = mkBin(OMul, ta, tb)
	case token.QUO, token.REM:
		if tb.lo == 0 || tb.op != OConst {
			z := mkBin(OEq, tb, mkConst(0, w))
			if z.op != OConst || z.val == 1 {
				if st.branch(z) {
					if st.flag == fRun {
						st.rtPanic("integer divide by zero")
					}
					return Val{}, false
				}
				if st.flag != fRun {
					return Val{}, false
				}
			}
		}
		op := OUdiv
		switch {
		case in.sg && in.tok == token.QUO:
			op = OSdiv
		case in.sg:
			op = OSrem
		case in.tok == token.REM:
			op = OUrem
		}
		t = mkBin(op, ta, tb)
	case token.AND:
		t = mkBin(OBand, ta, tb)
	case token.OR:
		t = mkBin(OBor, ta, tb)
	case token.XOR:
		t = mkBin(OBxor, ta, tb)
	case token.AND_NOT:
		t = mkBin(OBand, ta, mkBnot(tb))
	case token.EQL:
		t = mkBin(OEq, ta, tb)
	case token.NEQ:
		t = mkNot(mkBin(OEq, ta, tb))
	case token.LSS:
		t = mkBin(lt(in.sg), ta, tb)
	case token.GTR:
		t = mkBin(lt(in.sg), tb, ta)
	case token.LEQ:
		t = mkNot(mkBin(lt(in.sg), tb, ta))
	case token.GEQ:
		t = mkNot(mkBin(lt(in.sg), ta, tb))
	}
	return vTerm(t), true
}

func lt(s bool) Op {
	if s {
		return OSlt
	}
	return OUlt
}

// equal builds the equality of two resolved values of type t.
func (st *State) equal(a, b Val, t types.Type) (*Term, bool) {
	if isAgg(t) {
		lay := layoutOf(t)
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := TTrue
		for i, ck := range lay.cells {
			e, ok := st.eqCell(x.v[i], y.v[i], ck)
			if !ok {
				return nil, false
			}
			r = mkAnd(r, e)
		}
		return r, true
	}
	return st.eqCell(a, b, kindOf(t))
}

func (st *State) eqCell(a, b Val, ck CellKind) (*Term, bool) {
	switch ck.k {
	case KInt:
		if a.x == nil && b.x == nil {
			return mkBool((a.c^b.c)<<(64-uint(ck.w)) == 0), true
		}
		return mkBin(OEq, a.term(ck.w), b.term(ck.w)), true
	case KBool:
		return mkBin(OEq, a.term(0), b.term(0)), true
	case KFloat, KFloat32:
		return mkBool(math.Float64frombits(st.concF(a)) == math.Float64frombits(st.concF(b))), st.flag == fRun
	case KString:
		return st.strEq(a, b), true
	}
	a, b = st.res(a), st.res(b)
	if st.flag != fRun {
		return nil, false
	}
	switch ck.k {
	case KPtr, KMap, KChan:
		if sa, ok := a.x.(*SymPtr); ok {
			a = st.concPtr(sa)
		}
		if sb, ok := b.x.(*SymPtr); ok {
			b = st.concPtr(sb)
		}
		if st.flag != fRun {
			return nil, false
		}
		return mkBool(a.x == b.x && a.c == b.c), true
	case KSlice:
		// only nil comparison is legal
		return mkBool((a.x == nil) == (b.x == nil)), true
	case KFunc:
		return mkBool((a.x == nil) == (b.x == nil)), true
	case KIface:
		x, ok1 := a.x.(*Iface)
		y, ok2 := b.x.(*Iface)
		if !ok1 || !ok2 {
			return mkBool(ok1 == ok2), true
		}
		if x.t != y.t {
			return TFalse, true
		}
		if x.t == rtErrType {
			return st.strEq(x.v, y.v), true
		}
		u := x.t.Underlying()
		switch u.(type) {
		case *types.Slice, *types.Map, *types.Signature:
			st.rtPanic("comparing uncomparable type " + x.t.String())
			return nil, false
		}
		return st.equal(st.res(x.v), st.res(y.v), x.t)
	}
	st.end(fAbort, fmt.Sprintf("equality on kind %d at %s", ck.k, st.where()))
	return nil, false
}

// ---- strings ----

func strLen(v Val) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.x))
}

func strByte(v Val, i int) Val {
	switch s := v.x.(type) {
	case string:
		return Val{c: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func mkStr(b []Val) Val {
	conc := true
	for _, x := range b {
		if x.x != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.c)
		}
		return vStr(string(bs))
	}
	return Val{x: &SymStr{b: b}}
}

func strBytes(v Val) []Val {
	n := strLen(v)
	r := make([]Val, n)
	for i := range r {
		r[i] = strByte(v, i)
	}
	return r
}

func (st *State) strEq(a, b Val) *Term {
	a, b = st.res(a), st.res(b)
	if strLen(a) != strLen(b) {
		return TFalse
	}
	r := TTrue
	for i := 0; i < strLen(a); i++ {
		r = mkAnd(r, mkBin(OEq, strByte(a, i).term(8), strByte(b, i).term(8)))
		if r == TFalse {
			break
		}
	}
	return r
}

func (st *State) strLess(a, b Val, i int) *Term {
	if i >= strLen(b) {
		return TFalse
	}
	if i >= strLen(a) {
		return TTrue
	}
	x, y := strByte(a, i).term(8), strByte(b, i).term(8)
	return mkOr(mkBin(OUlt, x, y), mkAnd(mkBin(OEq, x, y), st.strLess(a, b, i+1)))
}

func (st *State) strBin(in *Instr, a, b Val) (Val, bool) {
	a, b = st.res(a), st.res(b)
	if st.flag != fRun {
		return Val{}, false
	}
	switch in.tok {
	case token.ADD:
		if x, ok := a.x.(string); ok {
			if y, ok := b.x.(string); ok {
				return vStr(x + y), true
			}
		}
		return mkStr(append(strBytes(a), strBytes(b)...)), true
	case token.EQL:
		return vTerm(st.strEq(a, b)), true
	case token.NEQ:
		return vTerm(mkNot(st.strEq(a, b))), true
	case token.LSS:
		return vTerm(st.strLess(a, b, 0)), true
	case token.GTR:
		return vTerm(st.strLess(b, a, 0)), true
	case token.LEQ:
		return vTerm(mkNot(st.strLess(b, a, 0))), true
	case token.GEQ:
		return vTerm(mkNot(st.strLess(a, b, 0))), true
	}
	panic("strBin")
}

// ---- memory ----

const maxIte = 160

func (st *State) nilDeref() { st.rtPanic("invalid memory address or nil pointer dereference") }

func (st *State) concPtr(p *SymPtr) Val {
	k := st.conc(Val{x: p.idx}, 64)
	return Val{x: p.obj, c: uint64(p.base) + k*uint64(p.stride)}
}

func (st *State) loadPtr(v Val, in *Instr) (Val, bool) {
	switch p := v.x.(type) {
	case *Obj:
		if in.k != KOther || in.lay.size() == 1 && !isAgg(in.lay.t) {
			return st.load(p, int(v.c)), true
		}
		n := in.lay.size()
		ag := &Agg{v: make([]Val, n)}
		for i := 0; i < n; i++ {
			ag.v[i] = st.load(p, int(v.c)+i)
		}
		return Val{x: ag}, true
	case *SymPtr:
		lo, hi := p.idx.lo, p.idx.hi
		if hi >= uint64(p.count) {
			hi = uint64(p.count) - 1
		}
		if (in.k == KInt || in.k == KBool) && hi-lo < maxIte {
			st.raceMute(1)
			t := st.iteLoad(p, int(lo), int(hi), in.w)
			st.raceMute(-1)
			return vTerm(t), true
		}
		c := st.concPtr(p)
		if st.flag != fRun {
			return Val{}, false
		}
		return st.loadPtr(c, in)
	case *Choice:
		r := st.res(v)
		if st.flag != fRun {
			return Val{}, false
		}
		return st.loadPtr(r, in)
	case nil:
		st.nilDeref()
		return Val{}, false
	}
	st.end(fAbort, fmt.Sprintf("load through %T at %s", v.x, st.where()))
	return Val{}, false
}

func (st *State) iteLoad(p *SymPtr, lo, hi int, w uint8) *Term {
	type grp struct {
		v  *Term
		ix []int
	}
	var gs []grp
	idx := map[*Term]int{}
	for i := lo; i <= hi; i++ {
		t := st.load(p.obj, p.base+i*p.stride).term(w)
		j, ok := idx[t]
		if !ok {
			j = len(gs)
			idx[t] = j
			gs = append(gs, grp{v: t})
		}
		gs[j].ix = append(gs[j].ix, i)
	}
	// most frequent value last
	best := 0
	for i := range gs {
		if len(gs[i].ix) > len(gs[best].ix) {
			best = i
		}
	}
	r := gs[best].v
	for j := len(gs) - 1; j >= 0; j-- {
		if j == best {
			continue
		}
		c := TFalse
		for _, i := range gs[j].ix {
			c = mkOr(c, mkBin(OEq, p.idx, mkConst(uint64(i), 64)))
		}
		r = mkIte(c, gs[j].v, r)
	}
	return r
}

func (st *State) storePtr(pv, v Val, in *Instr) bool {
	switch p := pv.x.(type) {
	case *Obj:
		if ag, ok := v.x.(*Agg); ok {
			for i, x := range ag.v {
				st.store(p, int(pv.c)+i, x)
			}
			return true
		}
		st.store(p, int(pv.c), v)
		return true
	case *SymPtr:
		lo, hi := p.idx.lo, p.idx.hi
		if hi >= uint64(p.count) {
			hi = uint64(p.count) - 1
		}
		if (in.k == KInt || in.k == KBool) && hi-lo < maxIte {
			nt := v.term(in.w)
			st.raceMute(1)
			defer st.raceMute(-1)
			for i := int(lo); i <= int(hi); i++ {
				old := st.load(p.obj, p.base+i*p.stride).term(in.w)
				c := mkBin(OEq, p.idx, mkConst(uint64(i), 64))
				if c == TFalse {
					continue
				}
				st.store(p.obj, p.base+i*p.stride, vTerm(mkIte(c, nt, old)))
			}
			return true
		}
		c := st.concPtr(p)
		if st.flag != fRun {
			return false
		}
		return st.storePtr(c, v, in)
	case *Choice:
		r := st.res(pv)
		if st.flag != fRun {
			return false
		}
		return st.storePtr(r, v, in)
	case nil:
		st.nilDeref()
		return false
	}
	st.end(fAbort, fmt.Sprintf("store through %T at %s", pv.x, st.where()))
	return false
}

// idx64 widens an index to a 64-bit term/value; for signed types sign extends.
func idx64(v Val, w uint8, sg bool) Val {
	if w == 64 || w == 0 {
		return v
	}
	if v.x == nil {
		if sg {
			return Val{c: uint64(sx(v.c, w))}
		}
		return v
	}
	t := v.x.(*Term)
	if sg {
		return vTerm(mkSext(t, 64))
	}
	return vTerm(mkZext(t, 64))
}

// inBounds checks 0<=i<n, raising a runtime panic on the failing side.
func (st *State) inBounds(i Val, n int) bool {
	if i.x == nil {
		if i.c < uint64(n) {
			return true
		}
		st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), n))
		return false
	}
	c := mkBin(OUlt, i.term(64), mkConst(uint64(n), 64))
	if st.branch(c) {
		return st.flag == fRun
	}
	if st.flag == fRun {
		st.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return false
}

func (st *State) indexAddr(in *Instr, a, i Val) (Val, bool) {
	i = idx64(i, in.w2, in.commaok)
	a = st.res(a)
	if st.flag != fRun {
		return Val{}, false
	}
	var obj *Obj
	var off, n int
	es := in.lay.size()
	if in.k == KSlice {
		s, ok := a.x.(*Slice)
		if ok {
			obj, off, n = s.obj, s.off, s.len
		}
	} else {
		if sp, ok := a.x.(*SymPtr); ok {
			a = st.concPtr(sp)
			if st.flag != fRun {
				return Val{}, false
			}
		}
		o, ok := a.x.(*Obj)
		if !ok {
			st.nilDeref()
			return Val{}, false
		}
		obj, off, n = o, int(a.c), in.imm
	}
	if !st.inBounds(i, n) {
		return Val{}, false
	}
	if i.x == nil {
		return Val{x: obj, c: uint64(off + int(i.c)*es)}, true
	}
	return Val{x: &SymPtr{obj: obj, base: off, idx: i.x.(*Term), stride: es, count: n}}, true
}

func (st *State) index(in *Instr, a, i Val) (Val, bool) {
	i = idx64(i, in.w2, in.commaok)
	a = st.res(a)
	if st.flag != fRun {
		return Val{}, false
	}
	if in.k == KString {
		return st.strIndex(a, i)
	}
	ag := a.x.(*Agg)
	if !st.inBounds(i, in.imm) {
		return Val{}, false
	}
	es := in.lay.size()
	if i.x != nil && !in.heap && in.lay.cells[0].k == KInt {
		w := in.lay.cells[0].w
		t := i.x.(*Term)
		r := ag.v[in.imm-1].term(w)
		for j := in.imm - 2; j >= 0; j-- {
			r = mkIte(mkBin(OEq, t, mkConst(uint64(j), 64)), ag.v[j].term(w), r)
		}
		return vTerm(r), true
	}
	k := int(st.conc(i, 64))
	if st.flag != fRun {
		return Val{}, false
	}
	if in.heap {
		return Val{x: &Agg{v: ag.v[k*es : (k+1)*es]}}, true
	}
	return ag.v[k], true
}

func (st *State) strIndex(a, i Val) (Val, bool) {
	n := strLen(a)
	if !st.inBounds(i, n) {
		return Val{}, false
	}
	if i.x == nil {
		return strByte(a, int(i.c)), true
	}
	t := i.x.(*Term)
	r := strByte(a, n-1).term(8)
	for j := n - 2; j >= 0; j-- {
		r = mkIte(mkBin(OEq, t, mkConst(uint64(j), 64)), strByte(a, j).term(8), r)
	}
	return vTerm(r), true
}

func (st *State) slice(in *Instr, fr *Frame) (Val, bool) {
	a := st.res(fr.get(in.a))
	if st.flag != fRun {
		return Val{}, false
	}
	if sp, ok := a.x.(*SymPtr); ok && in.k == KPtr {
		a = st.concPtr(sp)
	}
	gi := func(o Opd, def int, w uint8, sg bool) (int, bool) {
		if o == Opd(math.MinInt32) {
			return def, true
		}
		v := idx64(fr.get(o), w, sg)
		k := st.conc(v, 64)
		return int(int64(k)), st.flag == fRun
	}
	length, capa := 0, 0
	var obj *Obj
	off := 0
	switch in.k {
	case KSlice:
		if s, ok := a.x.(*Slice); ok {
			obj, off, length, capa = s.obj, s.off, s.len, s.cap
		}
	case KPtr:
		o, ok := a.x.(*Obj)
		if !ok {
			st.nilDeref()
			return Val{}, false
		}
		obj, off, length, capa = o, int(a.c), in.imm, in.imm
	case KString:
		length = strLen(a)
		capa = length
	}
	lo, ok := gi(in.b, 0, in.w, in.sg)
	if !ok {
		return Val{}, false
	}
	hi, ok := gi(in.c, length, in.w2, in.commaok)
	if !ok {
		return Val{}, false
	}
	mx, ok := gi(in.d, capa, 64, true)
	if !ok {
		return Val{}, false
	}
	if mx < 0 || mx > capa {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, capa))
		return Val{}, false
	}
	if hi < 0 || hi > mx {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
		return Val{}, false
	}
	if lo < 0 || lo > hi {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		return Val{}, false
	}
	if in.k == KString {
		if s, ok := a.x.(string); ok {
			return vStr(s[lo:hi]), true
		}
		if a.x == nil {
			return a, true
		}
		return mkStr(a.x.(*SymStr).b[lo:hi]), true
	}
	if obj == nil {
		return Val{}, true
	}
	return Val{x: &Slice{obj: obj, off: off + lo*in.lay.size(), len: hi - lo, cap: mx - lo}}, true
}

// ---- conversions ----

func (st *State) convert(in *Instr, v Val) (Val, bool) {
	switch in.k {
	case KInt:
		switch in.k2 {
		case KInt:
			if v.x == nil {
				c := v.c
				if in.commaok {
					c = uint64(sx(c, in.w2))
				}
				return Val{c: c & mask(in.w)}, true
			}
			t := v.x.(*Term)
			if in.commaok {
				return vTerm(mkSext(t, in.w)), true
			}
			return vTerm(mkZext(t, in.w)), true
		case KFloat, KFloat32:
			f := math.Float64frombits(st.concF(v))
			if st.flag != fRun {
				return Val{}, false
			}
			if in.sg {
				return Val{c: uint64(int64(f)) & mask(in.w)}, true
			}
			return Val{c: uint64(f) & mask(in.w)}, true
		case KPtr:
			return v, true
		}
	case KFloat, KFloat32:
		switch in.k2 {
		case KInt:
			c := st.conc(v, in.w2)
			if st.flag != fRun {
				return Val{}, false
			}
			var f float64
			if in.commaok {
				f = float64(sx(c, in.w2))
			} else {
				f = float64(c)
			}
			if in.k == KFloat32 {
				f = float64(float32(f))
			}
			return Val{c: math.Float64bits(f)}, true
		case KFloat, KFloat32:
			c := st.concF(v)
			if in.k == KFloat32 {
				c = math.Float64bits(float64(float32(math.Float64frombits(c))))
			}
			return Val{c: c}, st.flag == fRun
		}
	case KString:
		switch in.k2 {
		case KInt:
			c := st.conc(v, in.w2)
			if st.flag != fRun {
				return Val{}, false
			}
			return vStr(string(rune(sx(c, in.w2)))), true
		case KSlice:
			v = st.res(v)
			if st.flag != fRun {
				return Val{}, false
			}
			s, ok := v.x.(*Slice)
			if !ok {
				return Val{}, true
			}
			if s.obj.lay != nil && len(s.obj.lay.cells) > 0 && in.typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
				rs := []rune{}
				for i := 0; i < s.len; i++ {
					c := st.conc(st.load(s.obj, s.off+i), 32)
					rs = append(rs, rune(sx(c, 32)))
				}
				if st.flag != fRun {
					return Val{}, false
				}
				return vStr(string(rs)), true
			}
			return mkStr(st.sliceVals(s)), true
		case KString:
			return v, true
		}
	case KSlice:
		if in.k2 == KString {
			v = st.res(v)
			if st.flag != fRun {
				return Val{}, false
			}
			el := in.typ2.Underlying().(*types.Slice).Elem()
			if kindOf(el).w == 8 {
				return st.newSlice(strBytes(v), layoutOf(el)), true
			}
			bs := make([]byte, strLen(v))
			for i := range bs {
				bs[i] = byte(st.conc(strByte(v, i), 8))
			}
			if st.flag != fRun {
				return Val{}, false
			}
			var vs []Val
			for _, r := range string(bs) {
				vs = append(vs, Val{c: uint64(uint32(r))})
			}
			return st.newSlice(vs, layoutOf(el)), true
		}
		return v, true
	case KPtr:
		return v, true
	}
	if in.k == in.k2 {
		return v, true
	}
	st.end(fAbort, "convert "+in.typ.String()+" -> "+in.typ2.String())
	return Val{}, false
}

func (st *State) sliceVals(s *Slice) []Val {
	r := make([]Val, s.len)
	for i := range r {
		r[i] = st.load(s.obj, s.off+i)
	}
	return r
}

func (st *State) newSlice(vs []Val, lay *Layout) Val {
	o := st.alloc(len(vs), lay, "bytes")
	for i, x := range vs {
		st.store(o, i, x)
	}
	return Val{x: &Slice{obj: o, len: len(vs), cap: len(vs)}}
}

// ---- type assertions ----

func (st *State) typeAssert(in *Instr, v Val) (Val, bool) {
	v = st.res(v)
	if st.flag != fRun {
		return Val{}, false
	}
	ifc, ok := v.x.(*Iface)
	match := false
	if ok {
		if in.heap {
			match = st.wk.job.prog.implements(ifc.t, in.typ)
		} else {
			match = ifc.t == in.typ
		}
	}
	if match {
		r := ifc.v
		if in.heap {
			r = v
		}
		if in.commaok {
			return Val{x: &Tuple{v: []Val{r, vBool(true)}}}, true
		}
		return r, true
	}
	if in.commaok {
		return Val{x: &Tuple{v: []Val{zeroVal(in.typ), vBool(false)}}}, true
	}
	if !ok {
		st.rtPanic("interface conversion: interface is nil, not " + in.typ.String())
	} else {
		st.rtPanic("interface conversion: " + ifc.t.String() + " is not " + in.typ.String())
	}
	return Val{}, false
}

func (p *Prog) implements(t, it types.Type) bool {
	iface := it.Underlying().(*types.Interface)
	if t == rtErrType {
		return iface.NumMethods() == 0 || iface.NumMethods() == 1 && iface.Method(0).Name() == "Error"
	}
	p.imu.Lock()
	defer p.imu.Unlock()
	return types.Implements(t, iface)
}

// ---- maps ----

func (st *State) mapFind(o *Obj, k Val, kt types.Type) (int, bool) {
	c := st.cont(o)
	fast := false
	if k.x == nil {
		fast = kindOf(kt).k == KInt
	}
	sh := uint(0)
	if fast {
		sh = 64 - uint(kindOf(kt).w)
	}
	if fast {
		// an equal key which is concrete and no symbolic key before it
		for i := range c.ents {
			if e := &c.ents[i]; e.k.x == nil {
				if (e.k.c^k.c)<<sh == 0 && !e.dead {
					return i, true
				}
			} else if !e.dead {
				break
			}
		}
	}
	for i := range c.ents {
		if c.ents[i].dead {
			continue
		}
		if fast && c.ents[i].k.x == nil && (c.ents[i].k.c^k.c)<<sh != 0 {
			continue
		}
		e, ok := st.equal(st.res(c.ents[i].k), k, kt)
		if !ok {
			return -1, false
		}
		if st.branch(e) {
			return i, st.flag == fRun
		}
		if st.flag != fRun {
			return -1, false
		}
	}
	return -1, true
}

func (st *State) lookup(in *Instr, m, k Val) (Val, bool) {
	m, k = st.res(m), st.res(k)
	if st.flag != fRun {
		return Val{}, false
	}
	if in.k == KString {
		return st.strIndex(m, idx64(k, in.w2, in.heap))
	}
	found := -1
	var o *Obj
	if m.x != nil {
		o = m.x.(*Obj)
		if st.race != nil {
			st.raceAcc(o, 0, false)
		}
		i, ok := st.mapFind(o, k, in.typ)
		if !ok {
			return Val{}, false
		}
		found = i
	}
	var r Val
	if found >= 0 {
		r = st.cont(o).ents[found].v
	} else {
		r = zeroVal(in.typ2)
	}
	if in.commaok {
		return Val{x: &Tuple{v: []Val{r, vBool(found >= 0)}}}, true
	}
	return r, true
}

func (st *State) mapUpdate(in *Instr, m, k, v Val) bool {
	m, k = st.res(m), st.res(k)
	if st.flag != fRun {
		return false
	}
	o, ok := m.x.(*Obj)
	if !ok {
		st.doPanic(mkErrVal(st, "assignment to entry in nil map"), "assignment to entry in nil map")
		return false
	}
	if st.race != nil {
		st.raceAcc(o, 0, true)
	}
	i, ok := st.mapFind(o, k, in.typ)
	if !ok {
		return false
	}
	c := st.wcont(o)
	if i >= 0 {
		c.ents[i].v = v
	} else {
		c.ents = append(c.ents, MapEnt{k: k, v: v})
	}
	return true
}

func (st *State) next(in *Instr, itv Val) (Val, bool) {
	it := itv.x.(*Iter)
	pos := int(st.load(it.obj, 0).c)
	tt := in.typ.(*types.Tuple)
	if in.commaok { // string
		n := strLen(it.v)
		if pos >= n {
			return Val{x: &Tuple{v: []Val{vBool(false), {}, {}}}}, true
		}
		b := strByte(it.v, pos)
		if b.x != nil {
			if st.branch(mkBin(OUlt, b.term(8), mkConst(0x80, 8))) {
				if st.flag != fRun {
					return Val{}, false
				}
				st.store(it.obj, 0, Val{c: uint64(pos + 1)})
				return Val{x: &Tuple{v: []Val{vBool(true), {c: uint64(pos)}, vTerm(mkZext(b.term(8), 32))}}}, true
			}
		}
		// concrete multi-byte
		var bs []byte
		for j := pos; j < n && j < pos+4; j++ {
			bs = append(bs, byte(st.conc(strByte(it.v, j), 8)))
		}
		if st.flag != fRun {
			return Val{}, false
		}
		for _, r := range string(bs) {
			sz := len(string(r))
			if r == 0xFFFD {
				sz = 1
			}
			st.store(it.obj, 0, Val{c: uint64(pos + sz)})
			return Val{x: &Tuple{v: []Val{vBool(true), {c: uint64(pos)}, {c: uint64(uint32(r))}}}}, true
		}
	}
	var o *Obj
	if it.v.x != nil {
		o = it.v.x.(*Obj)
		if st.race != nil {
			st.raceAcc(o, 0, false)
		}
		ents := st.cont(o).ents
		for pos < len(ents) && ents[pos].dead {
			pos++
		}
		if pos < len(ents) {
			st.store(it.obj, 0, Val{c: uint64(pos + 1)})
			return Val{x: &Tuple{v: []Val{vBool(true), ents[pos].k, ents[pos].v}}}, true
		}
	}
	st.store(it.obj, 0, Val{c: uint64(pos)})
	return Val{x: &Tuple{v: []Val{vBool(false), zeroVal0(tt.At(1).Type()), zeroVal0(tt.At(2).Type())}}}, true
}

func zeroVal0(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Val{}
	}
	return zeroVal(t)
}

// ---- builtins ----

// growCap mirrors runtime.growslice for the element size given.
func growCap(oldCap, newLen int, esize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = double
		} else {
			for {
				newcap += (newcap + 3*threshold) >> 2
				if uint(newcap) >= uint(newLen) {
					break
				}
			}
		}
	}
	if newcap == 0 {
		newcap = newLen
	}
	if esize == 0 {
		return newLen
	}
	mem := newcap * esize
	mem = roundupsize(mem)
	return mem / esize
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if n <= s {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

var gcSizes = types.SizesFor("gc", "amd64")

func (st *State) builtin(in *Instr, a []Val, fr *Frame) (Val, bool) {
	for i := range a {
		a[i] = st.res(a[i])
	}
	if st.flag != fRun {
		return Val{}, false
	}
	switch in.name {
	case "len", "cap":
		switch s := a[0].x.(type) {
		case nil:
			if in.k == KOther || in.k == KPtr {
				break
			}
			return Val{}, true
		case string:
			return Val{c: uint64(len(s))}, true
		case *SymStr:
			return Val{c: uint64(len(s.b))}, true
		case *Slice:
			if in.name == "cap" {
				return Val{c: uint64(s.cap)}, true
			}
			return Val{c: uint64(s.len)}, true
		case *Obj:
			switch s.kind {
			case 'm':
				n := 0
				for _, e := range st.cont(s).ents {
					if !e.dead {
						n++
					}
				}
				return Val{c: uint64(n)}, true
			case 'c':
				ch := st.cont(s).ch
				if in.name == "cap" {
					return Val{c: uint64(ch.cap)}, true
				}
				return Val{c: uint64(len(ch.buf))}, true
			}
		}
		if pt, ok := in.typ2.Underlying().(*types.Pointer); ok {
			return Val{c: uint64(pt.Elem().Underlying().(*types.Array).Len())}, true
		}
		if at, ok := in.typ2.Underlying().(*types.Array); ok {
			return Val{c: uint64(at.Len())}, true
		}
	case "append":
		return st.doAppend(in, a)
	case "copy":
		d, ok := a[0].x.(*Slice)
		if !ok {
			return Val{}, true
		}
		if in.k2 == KString {
			n := strLen(a[1])
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				st.store(d.obj, d.off+i, strByte(a[1], i))
			}
			return Val{c: uint64(n)}, true
		}
		s, ok := a[1].x.(*Slice)
		if !ok {
			return Val{}, true
		}
		n := s.len
		if d.len < n {
			n = d.len
		}
		es := in.lay.size()
		st.copyCells(d.obj, d.off, s.obj, s.off, n*es)
		return Val{c: uint64(n)}, true
	case "delete":
		if a[0].x == nil {
			return Val{}, true
		}
		o := a[0].x.(*Obj)
		kt := in.typ2.Underlying().(*types.Map).Key()
		if st.race != nil {
			st.raceAcc(o, 0, true)
		}
		i, ok := st.mapFind(o, a[1], kt)
		if !ok {
			return Val{}, false
		}
		if i >= 0 {
			st.wcont(o).ents[i].dead = true
		}
		return Val{}, true
	case "close":
		if !st.chanClose(a[0]) {
			return Val{}, false
		}
		return Val{}, true
	case "panic":
		st.doPanic(a[0], st.panicString(a[0]))
		return Val{}, false
	case "recover":
		g := st.g()
		n := len(g.frames)
		if n >= 2 && g.frames[n-1].isDefer && g.frames[n-2].panicking != nil {
			// caller frame is the panicking one
			save := g.frames[n-1]
			g.frames = g.frames[:n-1]
			up := st.wframe(g)
			v := up.panicking.v
			up.panicking = nil
			up.recovered = true
			g.frames = append(g.frames, save)
			return v, true
		}
		return Val{}, true
	case "print", "println":
		return Val{}, true
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			if in.k != KInt {
				st.end(fAbort, "min/max kind")
				return Val{}, false
			}
			c := mkBin(lt(in.sg), r.term(in.w), b.term(in.w))
			if in.name == "max" {
				c = mkBin(lt(in.sg), b.term(in.w), r.term(in.w))
			}
			r = vTerm(mkIte(c, r.term(in.w), b.term(in.w)))
		}
		return r, true
	case "clear":
		if s, ok := a[0].x.(*Slice); ok {
			for i := 0; i < s.len*in.lay.size(); i++ {
				st.store(s.obj, s.off+i, Val{})
			}
			return Val{}, true
		}
		if o, ok := a[0].x.(*Obj); ok && o.kind == 'm' {
			st.wcont(o).ents = nil
		}
		return Val{}, true
	case "String": // unsafe.String(ptr, len)
		n := int(st.conc(a[1], 64))
		if st.flag != fRun {
			return Val{}, false
		}
		if n == 0 {
			return Val{}, true
		}
		o := a[0].x.(*Obj)
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = st.load(o, int(a[0].c)+i)
		}
		return mkStr(vs), true
	case "SliceData":
		if s, ok := a[0].x.(*Slice); ok {
			return Val{x: s.obj, c: uint64(s.off)}, true
		}
		return Val{}, true
	case "StringData":
		return st.strObj(a[0]), true
	case "ssa:wrapnilchk":
		if a[0].x == nil {
			st.nilDeref()
			return Val{}, false
		}
		return a[0], true
	case "ssa:deferstack":
		return Val{}, true
	}
	st.end(fAbort, "builtin "+in.name+" at "+st.where())
	return Val{}, false
}

func (st *State) strObj(s Val) Val {
	n := strLen(s)
	if n == 0 {
		return Val{}
	}
	o := st.alloc(n, layoutOf(types.Typ[types.Uint8]), "str")
	for i := 0; i < n; i++ {
		st.store(o, i, strByte(s, i))
	}
	return Val{x: o}
}

func (st *State) copyCells(d *Obj, doff int, s *Obj, soff int, n int) {
	if n == 0 || (d == s && doff == soff) {
		return
	}
	if d == s && doff > soff {
		for i := n - 1; i >= 0; i-- {
			st.store(d, doff+i, st.load(s, soff+i))
		}
		return
	}
	// page-level fast path for aligned zero pages
	for i := 0; i < n; i++ {
		if (soff+i)%pageSz == 0 && n-i >= pageSz && (doff+i)%pageSz == 0 {
			if st.cont(s).pages[(soff+i)/pageSz] == nil && st.cont(d).pages[(doff+i)/pageSz] == nil {
				i += pageSz - 1
				continue
			}
		}
		st.store(d, doff+i, st.load(s, soff+i))
	}
}

func (st *State) doAppend(in *Instr, a []Val) (Val, bool) {
	var src []Val
	var so *Slice
	n := 0
	if in.k2 == KString {
		src = strBytes(a[1])
		n = len(src)
	} else if s, ok := a[1].x.(*Slice); ok {
		so = s
		n = s.len
	}
	d, ok := a[0].x.(*Slice)
	if n == 0 {
		return a[0], true
	}
	es := in.lay.size()
	ol, oc := 0, 0
	if ok {
		ol, oc = d.len, d.cap
	}
	var r *Slice
	if ok && ol+n <= oc {
		r = &Slice{obj: d.obj, off: d.off, len: ol + n, cap: oc}
	} else {
		el := in.typ2.Underlying().(*types.Slice).Elem()
		nc := growCap(oc, ol+n, int(gcSizes.Sizeof(el)))
		if nc*es > st.wk.job.maxAlloc {
			st.end(fAbort, "huge append at "+st.where())
			return Val{}, false
		}
		o := st.alloc(nc*es, in.lay, "append")
		r = &Slice{obj: o, off: 0, len: ol + n, cap: nc}
		if ok {
			st.copyCells(o, 0, d.obj, d.off, ol*es)
		}
	}
	if so != nil {
		st.copyCells(r.obj, r.off+ol*es, so.obj, so.off, n*es)
	} else {
		for i, x := range src {
			st.store(r.obj, r.off+ol+i, x)
		}
	}
	return Val{x: r}, true
}

func (st *State) panicString(v Val) string {
	ifc, ok := v.x.(*Iface)
	if !ok {
		return "nil"
	}
	return st.show(ifc.v, ifc.t)
}

func (st *State) show(v Val, t types.Type) string {
	switch x := v.x.(type) {
	case string:
		return x
	case nil:
		if t != nil && kindOf(t).k == KInt {
			ck := kindOf(t)
			if ck.s {
				return fmt.Sprint(sx(v.c, ck.w))
			}
			return fmt.Sprint(v.c)
		}
		return fmt.Sprintf("%d", v.c)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			if y.x == nil {
				b[i] = byte(y.c)
			} else {
				b[i] = byte(st.model.eval(y.x.(*Term)))
			}
		}
		return string(b)
	case *Term:
		return fmt.Sprint(st.model.eval(x))
	case *Iface:
		return st.show(x.v, x.t)
	case *Obj:
		if x.n > 0 && x.kind == 0 {
			// errors.errorString and friends
			c := st.load(x, 0)
			switch c.x.(type) {
			case string, *SymStr:
				return st.show(c, nil)
			}
		}
		return x.name
	case *Agg:
		s := "{"
		for _, y := range x.v {
			s += st.show(y, nil) + " "
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v.x)
}

var _ = bits.Len64
