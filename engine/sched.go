package main

// Goroutines, channels, locks: synchronisation operations are the scheduling
// points; which enabled transition fires is a symbolic choice.

import (
	"fmt"
	"go/types"
)

// transition: one enabled synchronisation step.
type transition struct {
	g      int // goroutine that moves
	caseIx int // select case, -1 for plain ops, -2 for select default
	peer   int // partner for an unbuffered rendezvous, -1 otherwise
	peerIx int
	desc   string
	early  bool // a default though the other end of a case is at it
}

// pendingSync returns the sync instruction the goroutine is stopped at.
func (g *Goro) pendingSync() *Instr {
	if g.dead || len(g.frames) == 0 {
		return nil
	}
	fr := g.frames[len(g.frames)-1]
	in := &fr.fn.blocks[fr.blk].ins[fr.pc]
	switch in.op {
	case iSend, iRecv, iSelect:
		return in
	case iCall, iInvoke, iCallDyn:
		if in.op == iCall && in.fn != nil && syncFns[in.fn.name] != nil {
			return in
		}
		// dynamic calls to lock functions are handled when executed
	}
	return nil
}

// syncFns: lock-like calls: returns whether the call can proceed.
var syncFns = map[string]func(st *State, args []Val) bool{}

// syncOp is called when the current goroutine reaches a channel operation.
func (st *State) syncOp(g *Goro, fr *Frame, in *Instr) {
	// fast path: single goroutine and an operation that is enabled
	g.blocked = true
	st.schedule()
}

type chanEnd struct {
	send bool
	ch   *Obj
	v    Val
	ix   int
}

func (st *State) ends(g *Goro, in *Instr) ([]chanEnd, bool) {
	fr := g.frames[len(g.frames)-1]
	mk := func(v Val) *Obj {
		v = st.res(v)
		o, _ := v.x.(*Obj)
		return o
	}
	switch in.op {
	case iSend:
		return []chanEnd{{true, mk(fr.get(in.a)), fr.get(in.b), -1}}, false
	case iRecv:
		return []chanEnd{{false, mk(fr.get(in.a)), Val{}, -1}}, false
	case iSelect:
		var r []chanEnd
		for i, c := range in.sel {
			e := chanEnd{send: c.send, ch: mk(fr.get(c.ch)), ix: i}
			if c.send {
				e.v = fr.get(c.v)
			}
			r = append(r, e)
		}
		return r, !in.commaok
	}
	return nil, false
}

func (st *State) enabled() []transition {
	var ts, late, settle []transition
	for gi, g := range st.gs {
		if g.dead || len(g.frames) == 0 {
			continue
		}
		if !g.blocked {
			ts = append(ts, transition{g: gi, caseIx: -3, peer: -1, desc: fmt.Sprintf("g%d run", gi)})
			continue
		}
		in := g.pendingSync()
		if in == nil {
			// stopped at a lock-like intrinsic
			if st.lockReady(g) {
				ts = append(ts, transition{g: gi, caseIx: -3, peer: -1, desc: fmt.Sprintf("g%d lock", gi)})
			}
			continue
		}
		if in.op == iCall {
			fr := g.frames[len(g.frames)-1]
			if in.fn.name == settleFn {
				settle = append(settle, transition{g: gi, caseIx: -3, peer: -1, desc: fmt.Sprintf("g%d settled", gi)})
				continue
			}
			if syncFns[in.fn.name](st, fr.gets(in.args)) {
				ts = append(ts, transition{g: gi, caseIx: -3, peer: -1, desc: fmt.Sprintf("g%d %s", gi, in.fn.name)})
			}
			continue
		}
		es, hasDef := st.ends(g, in)
		any := false
		hard := false // the default isn't possible
		for _, e := range es {
			if e.ch == nil {
				continue
			}
			ch := st.cont(e.ch).ch
			dir := "recv"
			if e.send {
				dir = "send"
			}
			d := fmt.Sprintf("g%d %s %s", gi, dir, st.gpos(g))
			if e.send {
				if ch.closed || len(ch.buf) < ch.cap {
					ts = append(ts, transition{g: gi, caseIx: e.ix, peer: -1, desc: d})
					any, hard = true, true
					continue
				}
			} else if ch.timer > 0 {
				if ch.timer == 1 && ch.fires == 0 || ch.timer == 2 && ch.fires < st.wk.job.maxTicks {
					ts = append(ts, transition{g: gi, caseIx: e.ix, peer: -1, desc: d + " (timer)"})
				} else if ch.timer == 2 {
					late = append(late, transition{g: gi, caseIx: e.ix, peer: -1, desc: d + " (late tick)"})
				}
				continue
			} else if len(ch.buf) > 0 || ch.closed {
				ts = append(ts, transition{g: gi, caseIx: e.ix, peer: -1, desc: d})
				any, hard = true, true
				continue
			}
			if ch.cap == 0 {
				for pi, p := range st.gs {
					if pi == gi || p.dead || !p.blocked {
						continue
					}
					pin := p.pendingSync()
					if pin == nil || pin.op == iCall {
						continue
					}
					pes, _ := st.ends(p, pin)
					for _, pe := range pes {
						if pe.ch == e.ch && pe.send != e.send {
							any = true
							if p.settled {
								hard = true
							}
							// emit each pair once, from the sender's side
							if e.send {
								ts = append(ts, transition{g: gi, caseIx: e.ix, peer: pi, peerIx: pe.ix, desc: d})
							}
						}
					}
				}
			}
		}
		if hasDef && !any {
			ts = append(ts, transition{g: gi, caseIx: -2, peer: -1, desc: fmt.Sprintf("g%d default %s", gi, st.gpos(g))})
		} else if hasDef && !hard {
			// the other end may not be there yet
			ts = append(ts, transition{g: gi, caseIx: -2, peer: -1, early: true, desc: fmt.Sprintf("g%d default, early, %s", gi, st.gpos(g))})
		}
	}
	if len(ts) == 0 && len(settle) > 0 {
		for _, g := range st.gs {
			g.settled = g.blocked
		}
		return settle
	}
	if len(ts) == 0 {
		return late
	}
	return ts
}

// settleFn waits until no other goroutine can proceed but for further ticks.
const settleFn = vsymPkg + ".Settle"

// delayed picks the candidates under delay bounding: goroutines take turns in
// cyclic order from the current one; passing over the first d which could
// proceed costs d of the path's delays.
func (st *State) delayed(ts []transition) (cand []transition, cost []int) {
	n := len(st.gs)
	first := make([]int, n)
	for i := range first {
		first[i] = -1
	}
	turn := func(t transition) int {
		a := (t.g - st.cur + n) % n
		if t.peer >= 0 {
			if b := (t.peer - st.cur + n) % n; b < a {
				a = b
			}
		}
		return a
	}
	left := st.wk.job.maxDelay - st.pre
	c := -1
	for i := 0; i < n && c < left; i++ {
		some := false
		for _, t := range ts {
			if turn(t) != i {
				continue
			}
			if !some {
				some = true
				c++
				if c > left {
					return
				}
			}
			if t.early {
				if c < left {
					cand = append(cand, t)
					cost = append(cost, c+1)
				}
				continue
			}
			cand = append(cand, t)
			cost = append(cost, c)
		}
	}
	return
}

func (st *State) gpos(g *Goro) string {
	fr := g.frames[len(g.frames)-1]
	return st.wk.job.prog.pos(fr.fn.blocks[fr.blk].ins[fr.pc].pos)
}

func (st *State) lockReady(g *Goro) bool {
	fr := g.frames[len(g.frames)-1]
	in := &fr.fn.blocks[fr.blk].ins[fr.pc]
	var name string
	args := fr.gets(in.args)
	switch in.op {
	case iInvoke:
		v := st.res(fr.get(in.a))
		ifc, ok := v.x.(*Iface)
		if !ok {
			return true
		}
		fn := st.wk.job.prog.method(ifc.t, in.meth)
		if fn == nil {
			return true
		}
		name = fn.name
		args = append([]Val{ifc.v}, args...)
	case iRunDefers:
		return true
	default:
		return true
	}
	if f := syncFns[name]; f != nil {
		return f(st, args)
	}
	return true
}

// schedule picks the next transition. Returns false when nothing can run.
func (st *State) schedule() bool {
	if st.flag != fRun {
		return false
	}
	if st.mergeBase > 0 {
		st.end(fAbort, "scheduling inside a merged region")
		return false
	}
	if st.race != nil {
		st.raceOwn().mute++
	}
	ts := st.enabled()
	if st.race != nil {
		st.raceOwn().mute--
	}
	if st.flag != fRun {
		return false
	}
	if len(ts) == 0 {
		if st.gs[0].dead {
			st.end(fEnd, "done")
			return false
		}
		st.wk.violation(st, "deadlock: no goroutine can proceed: "+st.gstates(), nil)
		return false
	}
	// goroutines that are merely runnable (not at a sync point) run first, in order
	for _, t := range ts {
		if t.caseIx == -3 && !st.gs[t.g].blocked {
			st.cur = t.g
			return true
		}
	}
	k := 0
	if len(ts) > 1 {
		// preemption bounding: transitions of the current goroutine first
		var cand []transition
		var mine []transition
		for _, t := range ts {
			if (t.g == st.cur || t.peer == st.cur) && !t.early {
				mine = append(mine, t)
			}
		}
		var cost []int
		if st.wk.job.maxDelay >= 0 {
			cand, cost = st.delayed(ts)
		} else if len(mine) > 0 && st.pre >= st.wk.job.maxPreempt {
			cand = mine
		} else {
			for _, t := range ts {
				if !t.early || st.pre < st.wk.job.maxPreempt {
					cand = append(cand, t)
				}
			}
		}
		if len(cand) > 1 {
			v := st.nondetTerm("sched", 0, uint64(len(cand)-1), 16)
			nd := st.nd
			st.nd = nd.prev // branch may fork: the choice must be replayed by the fork
			k = int(st.conc(vTerm(v), 16))
			if st.flag != fRun {
				return false
			}
			st.nd = nd
		}
		t := cand[k]
		if cost != nil {
			st.pre += cost[k]
		} else if t.early || len(mine) > 0 && t.g != st.cur && t.peer != st.cur {
			st.pre++
		}
		st.fire(t)
		return st.flag == fRun
	}
	st.fire(ts[0])
	return st.flag == fRun
}

func (st *State) gstates() string {
	s := ""
	for i, g := range st.gs {
		if g.dead {
			continue
		}
		s += fmt.Sprintf("[g%d at %s] ", i, st.gpos(g))
	}
	return s
}

func (st *State) fire(t transition) {
	st.trace = &trEnt{s: t.desc, prev: st.trace}
	st.cur = t.g
	g := st.gs[t.g]
	g.blocked, g.settled = false, false
	fr := st.wframe(g)
	in := &fr.fn.blocks[fr.blk].ins[fr.pc]
	if t.caseIx == -3 {
		g.granted = true
		return // re-executes the lock-like call, which now succeeds
	}
	if t.caseIx == -2 {
		st.finishSelect(fr, in, -1, Val{}, false)
		return
	}
	es, _ := st.ends(g, in)
	e := es[0]
	if t.caseIx >= 0 {
		e = es[t.caseIx]
	}
	if t.peer >= 0 {
		// g is the sender
		p := st.gs[t.peer]
		p.blocked, p.settled = false, false
		st.raceMeet(t.g, t.peer)
		pfr := st.wframe(p)
		pin := &pfr.fn.blocks[pfr.blk].ins[pfr.pc]
		st.finishRecv(pfr, pin, t.peerIx, e.v, true)
		st.finishSend(fr, in, t.caseIx)
		return
	}
	c := st.wcont(e.ch).ch
	if c.timer == 0 {
		st.raceSync(t.g, rkey{e.ch.id, 0})
	}
	if e.send {
		if c.closed {
			st.doPanic(mkErrVal(st, "send on closed channel"), "send on closed channel")
			return
		}
		c.buf = append(c.buf, e.v)
		st.finishSend(fr, in, t.caseIx)
		return
	}
	if c.timer > 0 {
		c.fires++
		st.finishRecv(fr, in, t.caseIx, zeroVal(chanElem(in, t.caseIx)), true)
		return
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Val(nil), c.buf[1:]...)
		st.finishRecv(fr, in, t.caseIx, v, true)
		return
	}
	st.finishRecv(fr, in, t.caseIx, Val{}, false)
}

func chanElem(in *Instr, ix int) types.Type {
	if in.op == iRecv {
		return in.typ
	}
	// result tuple of select: index, recvOk, then one value per receive case
	tt := in.typ.(*types.Tuple)
	r := 2
	for i, c := range in.sel {
		if c.send {
			continue
		}
		if i == ix {
			return tt.At(r).Type()
		}
		r++
	}
	return tt.At(0).Type()
}

func (st *State) finishSend(fr *Frame, in *Instr, ix int) {
	if in.op == iSelect {
		st.finishSelect(fr, in, ix, Val{}, false)
		return
	}
	fr.pc++
}

func (st *State) finishRecv(fr *Frame, in *Instr, ix int, v Val, ok bool) {
	if in.op == iSelect {
		st.finishSelect(fr, in, ix, v, ok)
		return
	}
	if !ok {
		v = zeroVal(in.typ)
	}
	if in.commaok {
		v = Val{x: &Tuple{v: []Val{v, vBool(ok)}}}
	}
	fr.regs[in.dst] = v
	fr.pc++
}

func (st *State) finishSelect(fr *Frame, in *Instr, ix int, v Val, ok bool) {
	tp := zeroVal(in.typ).x.(*Tuple)
	tp.v[0] = Val{c: uint64(int64(ix))}
	tp.v[1] = vBool(ok)
	r := 2
	for i, c := range in.sel {
		if c.send {
			continue
		}
		if i == ix && ok {
			tp.v[r] = v
		}
		r++
	}
	fr.regs[in.dst] = Val{x: tp}
	fr.pc++
}

func (st *State) chanClose(v Val) bool {
	v = st.res(v)
	if st.flag != fRun {
		return false
	}
	o, ok := v.x.(*Obj)
	if !ok {
		st.doPanic(mkErrVal(st, "close of nil channel"), "close of nil channel")
		return false
	}
	c := st.wcont(o).ch
	if c.closed {
		st.doPanic(mkErrVal(st, "close of closed channel"), "close of closed channel")
		return false
	}
	c.closed = true
	st.raceSync(st.cur, rkey{o.id, 0})
	return true
}
