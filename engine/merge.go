package main

// State joining: local if-conversion and joining of the paths of a call.

import (
	"go/token"
)

// ---- if-conversion of small pure diamonds ----

const specMax = 24

type specStore struct {
	o *Obj
	i int
	w uint8
	v Val
}

// spec evaluates block b of fr speculatively into tmp registers; it refuses
// anything that could panic, fork or have an effect other than scalar stores.
func (st *State) spec(fr *Frame, bi int, over map[int32]Val, stores *[]specStore) bool {
	b := &fr.fn.blocks[bi]
	if len(b.ins) > specMax || len(b.phis) > 0 {
		return false
	}
	get := func(o Opd) Val {
		if o >= 0 {
			if v, ok := over[int32(o)]; ok {
				return v
			}
			return fr.regs[o]
		}
		return fr.fn.consts[^o]
	}
	load := func(o *Obj, i int) Val {
		for j := len(*stores) - 1; j >= 0; j-- {
			if s := (*stores)[j]; s.o == o && s.i == i {
				return s.v
			}
		}
		return st.load(o, i)
	}
	for k := range b.ins {
		in := &b.ins[k]
		switch in.op {
		case iJump:
			return true
		case iBin:
			if in.k != KInt && in.k != KBool {
				return false
			}
			if in.tok == token.QUO || in.tok == token.REM {
				return false
			}
			x, y := get(in.a), get(in.b)
			if !x.isScalar() || !y.isScalar() {
				return false
			}
			if (in.tok == token.SHL || in.tok == token.SHR) && in.commaok {
				if y.x != nil || sx(y.c, in.w2) < 0 {
					return false
				}
			}
			v, ok := st.binop(in, x, y)
			if !ok {
				return false
			}
			over[in.dst] = v
		case iUn:
			if in.k != KInt && in.k != KBool {
				return false
			}
			v := get(in.a)
			switch in.tok {
			case token.NOT:
				v = vTerm(mkNot(v.term(0)))
			case token.SUB:
				v = vTerm(mkBin(OSub, mkConst(0, in.w), v.term(in.w)))
			case token.XOR:
				v = vTerm(mkBnot(v.term(in.w)))
			default:
				return false
			}
			over[in.dst] = v
		case iMove:
			over[in.dst] = get(in.a)
		case iConvert:
			if in.k != KInt || in.k2 != KInt {
				return false
			}
			v, ok := st.convert(in, get(in.a))
			if !ok {
				return false
			}
			over[in.dst] = v
		case iField:
			ag, ok := get(in.a).x.(*Agg)
			if !ok || in.heap {
				return false
			}
			over[in.dst] = ag.v[in.imm]
		case iExtract:
			tp, ok := get(in.a).x.(*Tuple)
			if !ok {
				return false
			}
			over[in.dst] = tp.v[in.imm]
		case iFieldAddr:
			v := get(in.a)
			switch p := v.x.(type) {
			case *Obj:
				over[in.dst] = Val{x: p, c: v.c + uint64(in.imm)}
			case *SymPtr:
				q := *p
				q.base += in.imm
				over[in.dst] = Val{x: &q}
			default:
				return false
			}
		case iIndexAddr:
			a, ix := get(in.a), idx64(get(in.b), in.w2, in.commaok)
			var obj *Obj
			var off, n int
			if in.k == KSlice {
				s, ok := a.x.(*Slice)
				if !ok {
					return false
				}
				obj, off, n = s.obj, s.off, s.len
			} else {
				o, ok := a.x.(*Obj)
				if !ok {
					return false
				}
				obj, off, n = o, int(a.c), in.imm
			}
			es := in.lay.size()
			if ix.x == nil {
				if ix.c >= uint64(n) {
					return false
				}
				over[in.dst] = Val{x: obj, c: uint64(off + int(ix.c)*es)}
			} else {
				t, ok := ix.x.(*Term)
				if !ok || t.hi >= uint64(n) {
					return false
				}
				over[in.dst] = Val{x: &SymPtr{obj: obj, base: off, idx: t, stride: es, count: n}}
			}
		case iLoad:
			if in.k != KInt && in.k != KBool {
				if p, ok := get(in.a).x.(*Obj); ok && in.k != KOther {
					over[in.dst] = load(p, int(get(in.a).c))
					continue
				}
				return false
			}
			pv := get(in.a)
			switch p := pv.x.(type) {
			case *Obj:
				over[in.dst] = load(p, int(pv.c))
			case *SymPtr:
				if len(*stores) > 0 || p.idx.hi-p.idx.lo >= maxIte || p.idx.hi >= uint64(p.count) {
					return false
				}
				over[in.dst] = vTerm(st.iteLoad(p, int(p.idx.lo), int(p.idx.hi), in.w))
			default:
				return false
			}
		case iStore:
			if !st.wk.job.specStores || (in.k != KInt && in.k != KBool) {
				return false
			}
			pv, v := get(in.a), get(in.b)
			p, ok := pv.x.(*Obj)
			if !ok || !v.isScalar() {
				return false
			}
			*stores = append(*stores, specStore{p, int(pv.c), in.w, v})
		case iIf:
			return k == len(b.ins)-1
		default:
			return false
		}
	}
	return false
}

// tryIfConvert handles if/else diamonds, triangles and short-circuit chains
// whose branches are free of effects, by computing both sides.
func (st *State) tryIfConvert(fr *Frame, in *Instr, c *Term) bool {
	if !st.wk.job.ifconv {
		return false
	}
	if _, ok := st.known(c); ok {
		return false
	}
	fn := fr.fn
	// side: block evaluated speculatively or the join itself
	type side struct {
		from   int // predecessor of join
		over   map[int32]Val
		stores []specStore
	}
	jumpTarget := func(bi int) int {
		b := &fn.blocks[bi]
		if len(b.preds) != 1 || len(b.ins) == 0 {
			return -1
		}
		l := &b.ins[len(b.ins)-1]
		if l.op == iJump {
			return l.t1
		}
		return -1
	}
	t, e := in.t1, in.t2
	jt, je := jumpTarget(t), jumpTarget(e)
	join := -1
	var ts, es side
	switch {
	case jt >= 0 && jt == je:
		join = jt
		ts, es = side{from: t, over: map[int32]Val{}}, side{from: e, over: map[int32]Val{}}
	case jt >= 0 && jt == e:
		join = e
		ts, es = side{from: t, over: map[int32]Val{}}, side{from: fr.blk}
	case je >= 0 && je == t:
		join = t
		ts, es = side{from: fr.blk}, side{from: e, over: map[int32]Val{}}
	default:
		return st.shortCircuit(fr, in, c)
	}
	if ts.over != nil && !st.spec(fr, t, ts.over, &ts.stores) {
		return false
	}
	if es.over != nil && !st.spec(fr, e, es.over, &es.stores) {
		return false
	}
	jb := &fn.blocks[join]
	edge := func(from int) int {
		for i, p := range jb.preds {
			if p == from {
				return i
			}
		}
		return -1
	}
	et, ee := edge(ts.from), edge(es.from)
	if et < 0 || ee < 0 {
		return false
	}
	val := func(o Opd, s *side) Val {
		if o >= 0 && s.over != nil {
			if v, ok := s.over[int32(o)]; ok {
				return v
			}
		}
		return fr.get(o)
	}
	vals := make([]Val, len(jb.phis))
	for i := range jb.phis {
		ph := &jb.phis[i]
		a, b := val(ph.edges[et], &ts), val(ph.edges[ee], &es)
		v, ok := joinVal(c, a, b, kindOf(fn.regTypes[ph.dst]), isAgg(fn.regTypes[ph.dst]), false)
		if !ok {
			return false
		}
		vals[i] = v
	}
	apply := func(ss []specStore, g *Term) {
		for _, s := range ss {
			old := st.load(s.o, s.i)
			st.store(s.o, s.i, vTerm(mkIte(g, s.v.term(s.w), old.term(s.w))))
		}
	}
	apply(ts.stores, c)
	apply(es.stores, mkNot(c))
	fn.cover[join]++
	if ts.over != nil {
		fn.cover[t]++
	}
	if es.over != nil {
		fn.cover[e]++
	}
	for i := range jb.phis {
		fr.regs[jb.phis[i].dst] = vals[i]
	}
	fr.prev = ts.from
	fr.blk = join
	fr.pc = 0
	return true
}

// shortCircuit joins   if c goto X else M;  M: (pure) if d goto X else Y
// (and the dual) into one conditional.
func (st *State) shortCircuit(fr *Frame, in *Instr, c *Term) bool {
	fn := fr.fn
	try := func(m, other int, cval bool) bool {
		// control reaches m when c==cval; otherwise goes to other
		b := &fn.blocks[m]
		if len(b.preds) != 1 || len(b.ins) == 0 || len(b.phis) > 0 {
			return false
		}
		l := &b.ins[len(b.ins)-1]
		if l.op != iIf {
			return false
		}
		if l.t1 != other && l.t2 != other || l.t1 == l.t2 {
			return false
		}
		// values defined in m must not be used elsewhere: conservatively require that the
		// joined block has no phis and re-evaluate m's registers into the frame.
		ob := &fn.blocks[other]
		if len(ob.phis) > 0 {
			return false
		}
		over := map[int32]Val{}
		var stores []specStore
		if !st.spec(fr, m, over, &stores) || len(stores) > 0 {
			return false
		}
		var d Val
		if l.a >= 0 {
			if v, ok := over[int32(l.a)]; ok {
				d = v
			} else {
				d = fr.regs[l.a]
			}
		} else {
			d = fn.consts[^l.a]
		}
		if !d.isScalar() {
			return false
		}
		dt := d.term(0)
		rest := l.t1
		toRest := dt
		if l.t1 == other {
			rest = l.t2
			toRest = mkNot(dt)
		}
		g := c
		if !cval {
			g = mkNot(c)
		}
		cond := mkAnd(g, toRest)
		if cond.op == OConst && false {
			return false
		}
		b1 := st.branch(cond)
		if st.flag != fRun {
			return true
		}
		fn.cover[m]++
		if b1 {
			for r, v := range over {
				fr.regs[r] = v
			}
			fr.blk = m
			st.jump(fr, rest)
		} else {
			st.jump(fr, other)
		}
		return true
	}
	if try(in.t1, in.t2, true) {
		return true
	}
	return try(in.t2, in.t1, false)
}

// joinVal builds ite(c,a,b) for a cell/register of the given kind.
func joinVal(c *Term, a, b Val, ck CellKind, agg bool, choice bool) (Val, bool) {
	if a.x == b.x && a.c == b.c {
		return a, true
	}
	if agg {
		x, ok1 := a.x.(*Agg)
		y, ok2 := b.x.(*Agg)
		if ok1 && ok2 && len(x.v) == len(y.v) {
			// element kinds are unknown here; only identical elements join
			for i := range x.v {
				if x.v[i] != y.v[i] {
					if !choice {
						return Val{}, false
					}
					return Val{x: &Choice{c, a, b}}, true
				}
			}
			return a, true
		}
		if !choice {
			return Val{}, false
		}
		return Val{x: &Choice{c, a, b}}, true
	}
	switch ck.k {
	case KInt:
		return vTerm(mkIte(c, a.term(ck.w), b.term(ck.w))), true
	case KBool:
		return vTerm(mkIte(c, a.term(0), b.term(0))), true
	case KSlice:
		x, ok1 := a.x.(*Slice)
		y, ok2 := b.x.(*Slice)
		if ok1 && ok2 && *x == *y {
			return a, true
		}
	case KString:
		if sameStr(a, b) {
			return a, true
		}
	}
	if !choice {
		return Val{}, false
	}
	return Val{x: &Choice{c, a, b}}, true
}

func sameStr(a, b Val) bool {
	x, ok1 := a.x.(string)
	y, ok2 := b.x.(string)
	return ok1 && ok2 && x == y
}

// ---- joining the paths of a call ----

func (st *State) mergeOK(g *Goro) bool {
	return st.mergeBase == 0 && st.wk.job.merge && len(g.frames) > 0
}

type mergeOut struct {
	st    *State
	guard *Term
}

func (st *State) mergeCall(g *Goro, fn *Fn, args, bind []Val, dst int) {
	w := st.wk
	if !fn.resolved {
		w.job.prog.resolve(fn)
	}
	if !st.flush() {
		return
	}
	base := len(g.frames)
	basePC := len(st.pc)
	region := &idRegion{next: int64((st.nextID/idBlock + 2) * idBlock)}
	oldRegion := st.region
	st.region = region
	st.endID = 0
	st.newBlock()

	st.pushFrame(g, fn, args, bind, dst, false)
	st.mergeBase = base
	saved := w.stack
	savedM := w.inMerge
	w.inMerge = true
	sub := st.clone() // run on a copy so that st can be overwritten with the result
	w.stack = []*State{sub}
	var outs []*State
	var escaped []*State
	lost := false
	n := 0
	for len(w.stack) > 0 {
		s := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		s.wk = w
		s.run()
		n++
		w.job.addPath(s, true)
		if s.flag == fEnd && s.endWhy == "merge" {
			s.flag = fRun
			s.mergeBase = 0
			s.region = oldRegion
			fr := s.gs[s.cur].frames
			if len(fr) == base && fr[len(fr)-1].panicking == nil {
				outs = append(outs, s)
			} else {
				escaped = append(escaped, s)
			}
			continue
		}
		lost = true
		if s.flag == fViolation || w.job.stopped() {
			break
		}
	}
	w.stack = saved
	w.inMerge = savedM
	maxID := int(region.next)
	for _, s := range append(outs[:len(outs):len(outs)], escaped...) {
		s.nextID = maxID
		s.endID = 0
	}
	if w.job.stopped() {
		st.end(fAbort, "stopped")
		return
	}
	var groups []*State
	for _, s := range outs {
		done := false
		for i, q := range groups {
			if m := joinStates(q, s, basePC); m != nil {
				groups[i] = m
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, s)
		}
	}
	groups = append(groups, escaped...)
	w.job.noteMerge(n, len(groups))
	_ = lost
	if len(groups) == 0 {
		st.end(fInfeasible, "no path leaves the merged region")
		return
	}
	for _, s := range groups[1:] {
		w.push(s)
	}
	r := groups[0]
	*st = *r
	st.wk = w
}

// joinStates merges b into a (both end states of the same merged region).
func joinStates(a, b *State, basePC int) *State {
	if a.nd != b.nd || len(a.gs) != len(b.gs) || a.cur != b.cur {
		return nil
	}
	ga, gb := a.gs[a.cur], b.gs[b.cur]
	if len(ga.frames) != len(gb.frames) {
		return nil
	}
	guard := func(s *State) *Term {
		t := TTrue
		for _, p := range s.pc[basePC:] {
			t = mkAnd(t, p)
		}
		return t
	}
	gA, gB := guard(a), guard(b)
	// ite guard: a's condition (paths are disjoint)
	c := gA
	// frames
	type regUpd struct {
		f, r int
		v    Val
	}
	var ru []regUpd
	for i := range ga.frames {
		fa, fb := ga.frames[i], gb.frames[i]
		if fa == fb {
			continue
		}
		if fa.fn != fb.fn || fa.blk != fb.blk || fa.pc != fb.pc || len(fa.defers) != len(fb.defers) || fa.panicking != fb.panicking {
			return nil
		}
		for r := range fa.regs {
			x, y := fa.regs[r], fb.regs[r]
			if x.x == y.x && x.c == y.c {
				continue
			}
			v, ok := joinReg(c, x, y, fa.fn, r)
			if !ok {
				return nil
			}
			ru = append(ru, regUpd{i, r, v})
		}
	}
	// heap
	m := a.clone()
	if len(b.heap) > len(m.heap) {
		m.heap = append(m.heap, make([]*chunk, len(b.heap)-len(m.heap))...)
	}
	for ci := range b.heap {
		ca, cb := m.heap[ci], b.heap[ci]
		if ca == cb || cb == nil {
			continue
		}
		if ca == nil {
			m.heap[ci] = cb
			continue
		}
		for k := 0; k < chunkSz; k++ {
			x, y := ca.c[k], cb.c[k]
			if x == y || y == nil {
				continue
			}
			id := ci*chunkSz + k
			if x == nil {
				m.setCont(id, y)
				ca = m.heap[ci]
				continue
			}
			if x.ch != nil || y.ch != nil {
				return nil
			}
			nc := &Cont{owner: m.id, lay: x.lay}
			if x.ents != nil || y.ents != nil {
				if len(x.ents) != len(y.ents) {
					return nil
				}
				for i := range x.ents {
					if x.ents[i] != y.ents[i] {
						return nil
					}
				}
				nc.ents = x.ents
			}
			if len(x.pages) != len(y.pages) {
				return nil
			}
			nc.pages = append([]*Page(nil), x.pages...)
			for pi := range x.pages {
				p, q := x.pages[pi], y.pages[pi]
				if p == q {
					continue
				}
				np := &Page{owner: m.id}
				for j := 0; j < pageSz; j++ {
					var u, v Val
					if p != nil {
						u = p.v[j]
					}
					if q != nil {
						v = q.v[j]
					}
					if u.x == v.x && u.c == v.c {
						np.v[j] = u
						continue
					}
					ck := CellKind{KInt, 64, true}
					if x.lay != nil && len(x.lay.cells) > 0 {
						ck = x.lay.cells[(pi*pageSz+j)%len(x.lay.cells)]
					}
					r, ok := joinVal(c, u, v, ck, false, true)
					if !ok {
						return nil
					}
					np.v[j] = r
				}
				nc.pages[pi] = np
			}
			m.setCont(id, nc)
			ca = m.heap[ci]
		}
	}
	mg := m.gs[m.cur]
	for _, u := range ru {
		f := mg.frames[u.f]
		if f.owner != m.id {
			n := *f
			n.owner = m.id
			n.regs = append([]Val(nil), f.regs...)
			mg.frames[u.f] = &n
			f = &n
		}
		f.regs[u.r] = u.v
	}
	m.pc = append([]*Term(nil), a.pc[:basePC]...)
	m.addPC(mkOr(gA, gB))
	m.impl = nil
	for _, t := range a.impl {
		for _, u := range b.impl {
			if t == u {
				m.impl = append(m.impl, t)
				break
			}
		}
	}
	if b.draws > m.draws {
		m.draws = b.draws
	}
	if b.steps > m.steps {
		m.steps = b.steps
	}
	return m
}

func joinReg(c *Term, x, y Val, fn *Fn, r int) (Val, bool) {
	t := fn.regTypes[r]
	tx, ok1 := x.x.(*Tuple)
	ty, ok2 := y.x.(*Tuple)
	if ok1 && ok2 {
		return joinTuple(c, tx, ty, t)
	}
	if ok1 != ok2 {
		// a dead register: one side never wrote it
		return x, true
	}
	if isAgg(t) {
		if x.x == nil {
			return y, true
		}
		if y.x == nil {
			return x, true
		}
		xa, ya := x.x.(*Agg), y.x.(*Agg)
		lay := layoutOf(t)
		o := &Agg{v: make([]Val, len(xa.v))}
		for i := range xa.v {
			v, ok := joinVal(c, xa.v[i], ya.v[i], lay.cells[i], false, true)
			if !ok {
				return Val{}, false
			}
			o.v[i] = v
		}
		return Val{x: o}, true
	}
	return joinVal(c, x, y, kindOf(t), false, true)
}
