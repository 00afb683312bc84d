package main

// Symbolic values, copy-on-write heap, states.

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"
)

type Val struct {
	x any
	c uint64
}

type Kind uint8

const (
	KInt   Kind = iota // width in w
	KBool              //
	KFloat             // float64 bits in c
	KFloat32
	KString
	KPtr
	KSlice
	KIface
	KMap
	KChan
	KFunc
	KOther
)

type CellKind struct {
	k Kind
	w uint8
	s bool // signed
}

type Layout struct {
	t     types.Type
	cells []CellKind
}

func (l *Layout) size() int { return len(l.cells) }

// Obj is the identity and static description of a heap object.
type Obj struct {
	id   int
	n    int // number of cells
	lay  *Layout
	name string
	kind byte // 0 cells, 'm' map, 'c' chan
	ptrT types.Type
}

type SymPtr struct {
	obj    *Obj
	base   int
	idx    *Term // 64-bit
	stride int
	count  int
}

type Slice struct {
	obj      *Obj
	off      int // cell offset
	len, cap int // elements
}

type SymStr struct{ b []Val }

type Agg struct{ v []Val }
type Tuple struct{ v []Val }

type Iface struct {
	t types.Type
	v Val
}

type Func struct {
	fn   *Fn
	bind []Val
	bi   string
}

type Choice struct {
	cond *Term
	a, b Val
}

const pageSz = 32

type Page struct {
	owner uint64
	v     [pageSz]Val
}

type MapEnt struct {
	k, v Val
	dead bool
}

type Cont struct {
	owner uint64
	lay   *Layout
	pages []*Page
	ents  []MapEnt // map
	ch    *Chan
}

type Chan struct {
	cap    int
	buf    []Val
	closed bool
	timer  int // 1 one-shot timer, 2 ticker
	fires  int
}

const chunkSz = 64

type chunk struct {
	owner uint64
	c     [chunkSz]*Cont
}

type idRegion struct{ next int64 }

type ndEnt struct {
	name string
	t    *Term
	c    uint64
	w    uint8
	prev *ndEnt
	n    int
}

type State struct {
	id        uint64
	heap      []*chunk
	pc        []*Term
	impl      []*Term // facts implied by pc
	model     *Model
	gs        []*Goro
	cur       int
	nextID    int
	endID     int
	region    *idRegion
	nd        *ndEnt
	steps     int64
	draws     int // random values so far
	pre       int // preemptions used
	reach     []string
	wk        *Worker
	flag      int
	endWhy    string
	depth     int // fork depth
	mergeBase int // frame depth at which a merge region ends (0 = none)
	trace     *trEnt
	ctx       any
	spins     int
	stopKey   bool
	race      *raceSt
	pend      []pendAssert // assertions not decided yet
}

type trEnt struct {
	s    string
	prev *trEnt
}

var stateCtr uint64

func newStateID() uint64 { return atomic.AddUint64(&stateCtr, 1) }

func (st *State) alloc(n int, lay *Layout, name string) *Obj {
	id := st.nextID
	st.nextID++
	if st.region != nil && st.nextID >= st.endID {
		st.newBlock()
	}
	o := &Obj{id: id, n: n, lay: lay, name: name}
	np := (n + pageSz - 1) / pageSz
	st.setCont(id, &Cont{owner: st.id, lay: lay, pages: make([]*Page, np)})
	return o
}

const idBlock = 256

func (st *State) newBlock() {
	b := int(atomic.AddInt64(&st.region.next, idBlock)) - idBlock
	st.nextID = b
	st.endID = b + idBlock
}

func (st *State) allocSpecial(kind byte, c *Cont, name string, lay *Layout) *Obj {
	o := st.alloc(0, lay, name)
	o.kind = kind
	c.owner = st.id
	st.setCont(o.id, c)
	return o
}

func (st *State) setCont(id int, c *Cont) {
	ci := id / chunkSz
	for ci >= len(st.heap) {
		st.heap = append(st.heap, nil)
	}
	ch := st.heap[ci]
	if ch == nil {
		ch = &chunk{owner: st.id}
		st.heap[ci] = ch
	} else if ch.owner != st.id {
		n := &chunk{owner: st.id, c: ch.c}
		st.heap[ci] = n
		ch = n
	}
	ch.c[id%chunkSz] = c
}

func (st *State) cont(o *Obj) *Cont {
	return st.heap[o.id/chunkSz].c[o.id%chunkSz]
}

// wcont returns a writable content.
func (st *State) wcont(o *Obj) *Cont {
	c := st.cont(o)
	if c.owner == st.id {
		return c
	}
	n := &Cont{owner: st.id, lay: c.lay}
	if c.pages != nil {
		n.pages = make([]*Page, len(c.pages))
		copy(n.pages, c.pages)
	}
	if c.ents != nil {
		n.ents = append([]MapEnt(nil), c.ents...)
	}
	if c.ch != nil {
		cc := *c.ch
		cc.buf = append([]Val(nil), c.ch.buf...)
		n.ch = &cc
	}
	st.setCont(o.id, n)
	return n
}

func (st *State) load(o *Obj, i int) Val {
	if st.race != nil {
		st.raceAcc(o, i, false)
	}
	p := st.cont(o).pages[i/pageSz]
	if p == nil {
		return Val{}
	}
	return p.v[i%pageSz]
}

func (st *State) store(o *Obj, i int, v Val) {
	if st.race != nil {
		st.raceAcc(o, i, true)
	}
	c := st.wcont(o)
	p := c.pages[i/pageSz]
	if p == nil {
		if v.x == nil && v.c == 0 {
			return
		}
		p = &Page{owner: st.id}
		c.pages[i/pageSz] = p
	} else if p.owner != st.id {
		n := &Page{owner: st.id, v: p.v}
		c.pages[i/pageSz] = n
		p = n
	}
	p.v[i%pageSz] = v
}

// Goro: one interpreted goroutine.
type Goro struct {
	id      int
	frames  []*Frame
	dead    bool
	granted bool
	settled bool // blocked for sure; see sched.go
	blocked bool // waiting in an unbuffered rendezvous or similar; see sched.go
	wait    *waitInfo
	name    string
}

type deferred struct {
	fn   Val
	args []Val
	meth bool
}

type panicInfo struct {
	v      Val
	where  string
	msg    string
	goexit bool
}

type Frame struct {
	owner     uint64
	fn        *Fn
	regs      []Val
	blk       int
	pc        int
	prev      int
	dst       int // register in caller for the result, -1 none
	defers    []deferred
	panicking *panicInfo
	recovered bool
	isDefer   bool
	inDefers  bool // running RunDefers
	bind      []Val
	onRet     func(st *State, r Val) // engine callback (not forked state dependent)
	merge     *mergeReq
}

type mergeReq struct{ depth int }

type waitInfo struct {
	ready bool
	v     Val
	ok    bool
	idx   int
}

func (st *State) clone() *State {
	n := *st
	n.id = newStateID()
	st.id = newStateID() // both sides must copy from now on
	n.heap = append([]*chunk(nil), st.heap...)
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.impl = st.impl[:len(st.impl):len(st.impl)]
	st.impl = n.impl
	n.gs = make([]*Goro, len(st.gs))
	for i, g := range st.gs {
		ng := *g
		ng.frames = append([]*Frame(nil), g.frames...)
		if g.wait != nil {
			w := *g.wait
			ng.wait = &w
		}
		n.gs[i] = &ng
	}
	// the current instruction of st may still write to its top frame
	if g := n.gs[n.cur]; len(g.frames) > 0 {
		n.wframe(g)
	}
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.reach = n.reach
	if n.region != nil {
		n.newBlock()
	}
	n.depth++
	return &n
}

func (st *State) wframe(g *Goro) *Frame {
	f := g.frames[len(g.frames)-1]
	if f.owner == st.id {
		return f
	}
	n := *f
	n.owner = st.id
	n.regs = append([]Val(nil), f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	g.frames[len(g.frames)-1] = &n
	return &n
}

// ---- layouts ----

var (
	layMu  sync.Mutex
	layTab = map[types.Type]*Layout{}
)

func layoutOf(t types.Type) *Layout {
	layMu.Lock()
	defer layMu.Unlock()
	return layoutOf1(t)
}

func layoutOf1(t types.Type) *Layout {
	if l, ok := layTab[t]; ok {
		return l
	}
	l := &Layout{t: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.cells = append(l.cells, layoutOf1(u.Field(i).Type()).cells...)
		}
	case *types.Array:
		e := layoutOf1(u.Elem())
		if u.Len()*int64(len(e.cells)) > 1<<22 {
			panic("array too large")
		}
		for i := int64(0); i < u.Len(); i++ {
			l.cells = append(l.cells, e.cells...)
		}
	default:
		l.cells = []CellKind{kindOf(t)}
	}
	layTab[t] = l
	return l
}

func kindOf(t types.Type) CellKind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return CellKind{KBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			return CellKind{KInt, 64, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return CellKind{KInt, 64, false}
		case types.Int32, types.UntypedRune:
			return CellKind{KInt, 32, true}
		case types.Uint32:
			return CellKind{KInt, 32, false}
		case types.Int16:
			return CellKind{KInt, 16, true}
		case types.Uint16:
			return CellKind{KInt, 16, false}
		case types.Int8:
			return CellKind{KInt, 8, true}
		case types.Uint8:
			return CellKind{KInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return CellKind{KFloat, 64, true}
		case types.Float32:
			return CellKind{KFloat32, 32, true}
		case types.String, types.UntypedString:
			return CellKind{KString, 0, false}
		case types.UnsafePointer:
			return CellKind{KPtr, 0, false}
		}
		return CellKind{KOther, 0, false}
	case *types.Pointer:
		return CellKind{KPtr, 0, false}
	case *types.Slice:
		return CellKind{KSlice, 0, false}
	case *types.Interface:
		return CellKind{KIface, 0, false}
	case *types.Map:
		return CellKind{KMap, 0, false}
	case *types.Chan:
		return CellKind{KChan, 0, false}
	case *types.Signature:
		return CellKind{KFunc, 0, false}
	}
	return CellKind{KOther, 0, false}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// fieldOff gives the cell offset of field i.
func fieldOff(s *types.Struct, i int) int {
	o := 0
	for j := 0; j < i; j++ {
		o += layoutOf(s.Field(j).Type()).size()
	}
	return o
}

// ---- value helpers ----

func vInt(c uint64) Val { return Val{c: c} }
func vBool(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}
func vStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{x: s}
}

// vTerm wraps a term, making constants concrete.
func vTerm(t *Term) Val {
	if t.op == OConst {
		return Val{c: t.val}
	}
	return Val{x: t}
}

func (v Val) term(w uint8) *Term {
	if v.x == nil {
		return mkConst(v.c, w)
	}
	if t, ok := v.x.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("term width %d want %d", t.w, w))
		}
		return t
	}
	panic(fmt.Sprintf("term() of %T", v.x))
}

func (v Val) isScalar() bool {
	if v.x == nil {
		return true
	}
	_, ok := v.x.(*Term)
	return ok
}

func (v Val) isConc() bool { return v.x == nil }
