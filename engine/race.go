package main

// Data races: happens-before over the synchronisation operations of a path
// (vector clocks), checked at every access once there is more than one
// goroutine. Only for jobs with the option -race.

import (
	"fmt"
	"go/token"
	"strings"
)

type epoch struct {
	g   int
	clk uint32
	pos token.Pos
}

type rcell struct {
	w epoch
	r []epoch // last reads, one per goroutine, since the last write
}

type rshadow struct {
	owner uint64
	c     map[int]rcell
}

type rkey struct{ id, i int }

type raceSt struct {
	owner uint64
	mute  int
	vc    [][]uint32
	sync  map[rkey][]uint32
	sh    map[int]*rshadow
}

func joinVC(a, b []uint32) []uint32 {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]uint32, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (st *State) raceOwn() *raceSt {
	r := st.race
	if r == nil || r.owner == st.id {
		return r
	}
	n := &raceSt{owner: st.id, mute: r.mute, vc: append([][]uint32(nil), r.vc...), sync: map[rkey][]uint32{}, sh: map[int]*rshadow{}}
	for k, v := range r.sync {
		n.sync[k] = v
	}
	for k, v := range r.sh {
		n.sh[k] = v
	}
	st.race = n
	return n
}

// raceGo is called when cur starts goroutine ng.
func (st *State) raceGo(cur, ng int) {
	if !st.wk.job.races {
		return
	}
	if st.race == nil {
		st.race = &raceSt{owner: st.id, sync: map[rkey][]uint32{}, sh: map[int]*rshadow{}}
	}
	r := st.raceOwn()
	for len(r.vc) <= ng {
		r.vc = append(r.vc, make([]uint32, len(r.vc)+1))
	}
	v := joinVC(r.vc[ng], r.vc[cur])
	v[ng] = 1
	r.vc[ng] = v
	st.raceTick(cur)
}

func (st *State) raceTick(g int) {
	r := st.raceOwn()
	v := append([]uint32(nil), r.vc[g]...)
	v[g]++
	r.vc[g] = v
}

// raceSync: g acquires what was released at k and releases there.
func (st *State) raceSync(g int, k rkey) {
	if st.race == nil {
		return
	}
	r := st.raceOwn()
	r.vc[g] = joinVC(r.vc[g], r.sync[k])
	r.sync[k] = r.vc[g]
	st.raceTick(g)
}

// raceMeet: g and h meet at an unbuffered channel.
func (st *State) raceMeet(g, h int) {
	if st.race == nil {
		return
	}
	r := st.raceOwn()
	v := joinVC(r.vc[g], r.vc[h])
	r.vc[g], r.vc[h] = v, v
	st.raceTick(g)
	st.raceTick(h)
}

// raceAll: g comes after everything.
func (st *State) raceAll(g int) {
	if st.race == nil {
		return
	}
	r := st.raceOwn()
	for h := range r.vc {
		r.vc[g] = joinVC(r.vc[g], r.vc[h])
	}
	st.raceTick(g)
}

func isSyncFn(name string) bool {
	return strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.")
}

// raceCall runs the intrinsic f, which may be a synchronisation operation.
func (st *State) raceCall(fn *Fn, c *callCtx) {
	r := st.raceOwn()
	r.mute++
	g := c.g.id
	fn.intr(st, c)
	if st.race != nil {
		st.raceOwn().mute--
	}
	if st.flag != fRun || c.noret && !strings.HasSuffix(fn.name, "Once).Do") {
		return // not granted yet, or over
	}
	if fn.name == settleFn {
		st.raceAll(g)
		return
	}
	if isSyncFn(fn.name) && len(c.args) > 0 {
		if o, ok := c.args[0].x.(*Obj); ok {
			st.raceSync(g, rkey{o.id, int(c.args[0].c)})
		}
	}
}

func (st *State) racePos() token.Pos {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return token.NoPos
	}
	fr := g.frames[len(g.frames)-1]
	if fr.fn.compiled && fr.blk < len(fr.fn.blocks) && fr.pc < len(fr.fn.blocks[fr.blk].ins) {
		return fr.fn.blocks[fr.blk].ins[fr.pc].pos
	}
	return token.NoPos
}

func (st *State) raceAcc(o *Obj, i int, write bool) {
	if st.race.mute > 0 || st.flag != fRun {
		return
	}
	g := st.cur
	r := st.raceOwn()
	if g >= len(r.vc) {
		return
	}
	vc := r.vc[g]
	sh := r.sh[o.id]
	if sh == nil {
		sh = &rshadow{owner: st.id, c: map[int]rcell{}}
		r.sh[o.id] = sh
	}
	c := sh.c[i]
	e := epoch{g: g, clk: vc[g], pos: st.racePos()}
	hb := func(x epoch) bool {
		return x.clk == 0 || x.g == g || x.g < len(vc) && x.clk <= vc[x.g]
	}
	var bad *epoch
	if !hb(c.w) {
		bad = &c.w
	}
	if write {
		for k := range c.r {
			if !hb(c.r[k]) {
				bad = &c.r[k]
			}
		}
	}
	if bad != nil {
		p := st.wk.job.prog
		kind := "read"
		if write {
			kind = "write"
		}
		st.wk.violation(st, fmt.Sprintf(raceMsg+"%s of %s at %s (g%d), unordered with the access at %s (g%d)", kind, o.name, p.pos(e.pos), g, p.pos(bad.pos), bad.g), nil)
		return
	}
	if write {
		if c.w.g == g && c.w.clk == e.clk && len(c.r) == 0 {
			return
		}
		c = rcell{w: e}
	} else {
		for k := range c.r {
			if c.r[k].g == g {
				if c.r[k].clk == e.clk {
					return
				}
				c.r = append([]epoch(nil), c.r...)
				c.r[k] = e
				goto set
			}
		}
		c.r = append(c.r[:len(c.r):len(c.r)], e)
	}
set:
	if sh.owner != st.id {
		n := &rshadow{owner: st.id, c: make(map[int]rcell, len(sh.c))}
		for k, v := range sh.c {
			n.c[k] = v
		}
		r.sh[o.id] = n
		sh = n
	}
	sh.c[i] = c
}

func (st *State) raceMute(d int) {
	if st.race != nil {
		st.raceOwn().mute += d
	}
}

const raceMsg = "data race: "
