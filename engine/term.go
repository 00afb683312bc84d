package main

// Hash-consed bit-vector / boolean terms with strong local simplification.
// Width 0 is the boolean sort.

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // any -> bool
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OBand
	OBor
	OBxor
	OBnot
	OConcat
	OExtract // val = lo bit; width = w
	OZext
	OSext
	OIte
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvshl", "bvlshr", "bvashr",
	"bvand", "bvor", "bvxor", "bvnot", "concat", "extract", "zero_extend", "sign_extend", "ite"}

type Term struct {
	id      uint32
	op      Op
	w       uint8
	leaves  uint16 // number of const leaves if this is an ite tree over constants (1 for const), else 0
	a, b, c *Term
	val     uint64 // const value, extract low bit, var index
	lo, hi  uint64 // unsigned interval
	name    string
	sup     []uint32 // sorted indices of the variables occurring
	bloom   uint64
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

const nShards = 1024

type tshard struct {
	mu sync.Mutex
	m  map[tkey]*Term
	_  [40]byte
}

type varInfo struct {
	name   string
	w      uint8
	lo, hi uint64
	t      *Term
}

var (
	shards  [nShards]tshard
	termCtr uint32
	varMu   sync.Mutex
	varTab  []*varInfo
	varIdx  = map[string]*varInfo{}
	TTrue   *Term
	TFalse  *Term
)

func init() {
	for i := range shards {
		shards[i].m = make(map[tkey]*Term)
	}
	TFalse = mkConst(0, 0)
	TTrue = mkConst(1, 0)
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func intern(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	h := uint64(k.op)*0x9E3779B97F4A7C15 ^ uint64(k.a)*0xC2B2AE3D27D4EB4F ^ uint64(k.b)*0x165667B19E3779F9 ^ uint64(k.c)*0x27D4EB2F165667C5 ^ val*0x85EBCA77C2B2AE63
	h ^= h >> 29
	s := &shards[h%nShards]
	s.mu.Lock()
	if t, ok := s.m[k]; ok {
		s.mu.Unlock()
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val}
	t.id = atomic.AddUint32(&termCtr, 1)
	if t.id&1023 == 0 {
		termCount.Add(1024)
	}
	t.interval()
	t.support()
	s.m[k] = t
	s.mu.Unlock()
	return t
}

func mkConst(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < nSmall {
		// racing goroutines store the same interned term
		p := &smallConst[w][v]
		if t := p.Load(); t != nil {
			return t
		}
		t := intern(OConst, w, nil, nil, nil, v)
		p.Store(t)
		return t
	}
	return intern(OConst, w, nil, nil, nil, v)
}

const nSmall = 1024

var smallConst [65][nSmall]atomic.Pointer[Term]


func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// mkVar declares (or finds) a variable with range [lo,hi] (unsigned).
func mkVar(name string, w uint8, lo, hi uint64) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	key := fmt.Sprintf("%s/%d/%d/%d", name, w, lo, hi)
	if vi, ok := varIdx[key]; ok {
		return vi.t
	}
	vi := &varInfo{name: name, w: w, lo: lo, hi: hi}
	t := &Term{op: OVar, w: w, val: uint64(len(varTab)), lo: lo, hi: hi, name: name}
	t.id = atomic.AddUint32(&termCtr, 1)
	if t.id&1023 == 0 {
		termCount.Add(1024)
	}
	t.sup = []uint32{uint32(t.val)}
	t.bloom = 1 << (t.val % 64)
	vi.t = t
	varTab = append(varTab, vi)
	varIdx[key] = vi
	return t
}

func varOf(i uint32) *Term { varMu.Lock(); defer varMu.Unlock(); return varTab[i].t }

func nVars() int { varMu.Lock(); defer varMu.Unlock(); return len(varTab) }

func unionSup(a, b []uint32) []uint32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset checks avoid allocation
	i, j, extra := 0, 0, 0
	for j < len(b) {
		if i < len(a) && a[i] < b[j] {
			i++
		} else if i < len(a) && a[i] == b[j] {
			i++
			j++
		} else {
			extra++
			j++
		}
	}
	if extra == 0 {
		return a
	}
	if len(a) < len(b) && extra == len(b)-len(a) {
		return b
	}
	r := make([]uint32, 0, len(a)+extra)
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) support() {
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			t.sup = unionSup(t.sup, x.sup)
			t.bloom |= x.bloom
		}
	}
}

func supMeet(a, b []uint32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

func (t *Term) isConst() bool { return t.op == OConst }

func (t *Term) interval() {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
		t.leaves = 1
	case OAdd:
		lo, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
		hi, c2 := bits.Add64(t.a.hi, t.b.hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.lo, t.hi = lo, hi
		} else if t.b.op == OConst && t.b.val > m/2 {
			// adding a negative constant
			k := (m - t.b.val) + 1
			if t.a.lo >= k {
				t.lo, t.hi = t.a.lo-k, t.a.hi-k
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUdiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OUrem:
		if t.b.lo > 0 {
			t.hi = t.b.hi - 1
			if t.a.hi < t.hi {
				t.hi = t.a.hi
			}
		}
	case OSrem, OSdiv:
	case OShl:
		if t.b.op == OConst && t.b.val < 64 {
			k := t.b.val
			if t.a.hi <= m>>k {
				t.lo, t.hi = t.a.lo<<k, t.a.hi<<k
			}
		} else if t.b.hi < 64 && t.a.hi <= m>>t.b.hi {
			t.lo, t.hi = t.a.lo<<t.b.lo, t.a.hi<<t.b.hi
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
		} else {
			t.hi = t.a.hi
		}
	case OBand:
		t.hi = t.a.hi
		if t.b.hi < t.hi {
			t.hi = t.b.hi
		}
	case OBor, OBxor:
		x := t.a.hi | t.b.hi
		if x != 0 {
			t.hi = (uint64(1) << bits.Len64(x)) - 1
			if bits.Len64(x) == 64 {
				t.hi = m
			}
		} else {
			t.hi = 0
		}
		if t.op == OBor {
			t.lo = t.a.lo
			if t.b.lo > t.lo {
				t.lo = t.b.lo
			}
		}
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi <= mask(t.a.w)>>1 {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OExtract:
		if t.val == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if t.val > 0 && t.a.hi>>t.val <= m {
			t.lo, t.hi = t.a.lo>>t.val, t.a.hi>>t.val
		}
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OIte:
		t.lo, t.hi = t.b.lo, t.b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
		if t.b.leaves > 0 && t.c.leaves > 0 && int(t.b.leaves)+int(t.c.leaves) < 1<<12 {
			t.leaves = t.b.leaves + t.c.leaves
		}
	}
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func foldBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, w) < sx(b, w))
	case OSle:
		return b2u(sx(a, w) <= sx(b, w))
	case OAnd:
		return a & b
	case OOr:
		return a | b
	}
	panic("foldBin " + opName[op])
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

const leafPush = 24

func resW(op Op, w uint8) uint8 {
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle, OAnd, OOr:
		return 0
	}
	return w
}

// mkBin builds a binary term. Operand widths must agree (shift amounts too).
func mkBin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("mkBin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	if op == OAnd {
		return mkAnd(a, b)
	}
	if op == OOr {
		return mkOr(a, b)
	}
	if a.op == OConst && b.op == OConst {
		return mkConst(foldBin(op, a.val, b.val, w), resW(op, w))
	}
	m := mask(w)
	switch op {
	case OEq:
		if a == b {
			return TTrue
		}
		if a.hi < b.lo || b.hi < a.lo {
			return TFalse
		}
		if w == 0 {
			if a.op == OConst {
				a, b = b, a
			}
			if b.op == OConst {
				if b.val == 1 {
					return a
				}
				return mkNot(a)
			}
			if a.op == ONot && b.op == ONot {
				return mkBin(OEq, a.a, b.a)
			}
			if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
				return TFalse
			}
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				if b.val > mask(a.a.w) {
					return TFalse
				}
				return mkBin(OEq, a.a, mkConst(b.val, a.a.w))
			case OSext:
				if uint64(sx(b.val&mask(a.a.w), a.a.w))&m != b.val {
					return TFalse
				}
				return mkBin(OEq, a.a, mkConst(b.val, a.a.w))
			case OAdd:
				if a.b.op == OConst {
					return mkBin(OEq, a.a, mkConst(b.val-a.b.val, w))
				}
			case OBxor:
				if a.b.op == OConst {
					return mkBin(OEq, a.a, mkConst(b.val^a.b.val, w))
				}
			case OBnot:
				return mkBin(OEq, a.a, mkConst(^b.val, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUlt:
		if a == b || b.hi == 0 || a.lo >= b.hi {
			return TFalse
		}
		if a.hi < b.lo {
			return TTrue
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return mkBin(op, a.a, b.a)
		}
		if b.op == OConst && b.val == 1 {
			return mkBin(OEq, a, mkConst(0, w))
		}
	case OUle:
		return mkNot(mkBin(OUlt, b, a))
	case OSlt:
		half := m >> 1
		if a == b {
			return TFalse
		}
		if a.hi <= half && b.hi <= half {
			return mkBin(OUlt, a, b)
		}
		if a.lo > half && b.lo > half {
			return mkBin(OUlt, a, b)
		}
		if a.hi <= half && b.lo > half {
			return TFalse
		}
		if a.lo > half && b.hi <= half {
			return TTrue
		}
	case OSle:
		return mkNot(mkBin(OSlt, b, a))
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return mkBin(OAdd, a.a, mkConst(a.b.val+b.val, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if b.op == OConst {
			return mkBin(OAdd, a, mkConst(-b.val, w))
		}
		if a == b {
			return mkConst(0, w)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return mkBin(OShl, a, mkConst(uint64(bits.TrailingZeros64(b.val)), w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUdiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return mkBin(OLshr, a, mkConst(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OUrem:
		if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return mkBin(OBand, a, mkConst(b.val-1, w))
		}
		if b.lo > a.hi {
			return a
		}
	case OSdiv:
		if a.hi <= m>>1 && b.hi <= m>>1 {
			return mkBin(OUdiv, a, b)
		}
	case OSrem:
		if a.hi <= m>>1 && b.hi <= m>>1 {
			return mkBin(OUrem, a, b)
		}
	case OShl:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return mkConst(0, w)
			}
			if a.op == OShl && a.b.op == OConst && a.b.val+b.val < 64 {
				return mkBin(OShl, a.a, mkConst(a.b.val+b.val, w))
			}
		}
		if a.op == OConst && a.val == 0 {
			return a
		}
	case OLshr:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) || a.hi>>b.val == 0 {
				return mkConst(0, w)
			}
			if a.op == OShl && a.b == b && a.a.hi <= m>>b.val {
				return a.a
			}
			// (x<<k | y)>>k with small y
			if a.op == OBor && a.a.op == OShl && a.a.b == b && a.b.hi>>b.val == 0 && a.a.a.hi <= m>>b.val {
				return a.a.a
			}
		}
		if a.op == OConst && a.val == 0 {
			return a
		}
	case OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a.hi <= m>>1 {
			return mkBin(OLshr, a, b)
		}
	case OBand:
		if a == b {
			return a
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
			if a.op == OBand && a.b.op == OConst {
				return mkBin(OBand, a.a, mkConst(a.b.val&b.val, w))
			}
			if a.op == OShl && a.b.op == OConst && b.val < (uint64(1)<<a.b.val) {
				return mkConst(0, w)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBor:
		if a == b {
			return a
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		}
	case OBxor:
		if a == b {
			return mkConst(0, w)
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OBxor && a.b.op == OConst {
				return mkBin(OBxor, a.a, mkConst(a.b.val^b.val, w))
			}
			if b.val == m {
				return mkBnot(a)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	}
	// push through ite trees of constants
	if a.op == OIte && a.leaves > 0 && b.op == OConst && a.leaves <= leafPush {
		return mkIte(a.a, mkBin(op, a.b, b), mkBin(op, a.c, b))
	}
	if b.op == OIte && b.leaves > 0 && a.op == OConst && b.leaves <= leafPush {
		return mkIte(b.a, mkBin(op, a, b.b), mkBin(op, a, b.c))
	}
	if op == OEq && b.op == OConst && a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return mkIte(a.a, mkBin(op, a.b, b), mkBin(op, a.c, b))
	}
	return intern(op, resW(op, w), a, b, nil, 0)
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return mkBool(a.val == 0)
	case ONot:
		return a.a
	}
	return intern(ONot, 0, a, nil, nil, 0)
}

func mkAnd(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return TFalse
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return TFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return TFalse
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OAnd, 0, a, b, nil, 0)
}

func mkOr(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return TTrue
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return TTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return TTrue
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(OOr, 0, a, b, nil, 0)
}

func mkBnot(a *Term) *Term {
	if a.op == OConst {
		return mkConst(^a.val, a.w)
	}
	if a.op == OBnot {
		return a.a
	}
	if a.op == OIte && a.leaves > 0 && a.leaves <= leafPush {
		return mkIte(a.a, mkBnot(a.b), mkBnot(a.c))
	}
	return intern(OBnot, a.w, a, nil, nil, 0)
}

func mkIte(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("mkIte width")
	}
	if c.op == ONot {
		return mkIte(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.val == 1 {
				return c
			}
			return mkNot(c)
		}
		if a.op == OConst {
			if a.val == 1 {
				return mkOr(c, b)
			}
			return mkAnd(mkNot(c), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return mkOr(mkNot(c), a)
			}
			return mkAnd(c, a)
		}
	}
	if a.op == OIte {
		if a.a == c {
			return mkIte(c, a.b, b)
		}
		if a.b == b { // ite(c, ite(d,b,y), b)
			return mkIte(mkAnd(c, mkNot(a.a)), a.c, b)
		}
		if a.c == b {
			return mkIte(mkAnd(c, a.a), a.b, b)
		}
	}
	if b.op == OIte {
		if b.a == c {
			return mkIte(c, a, b.c)
		}
		if b.b == a {
			return mkIte(mkOr(c, b.a), a, b.c)
		}
		if b.c == a {
			return mkIte(mkOr(c, mkNot(b.a)), a, b.b)
		}
	}
	return intern(OIte, a.w, c, a, b, 0)
}

func mkExtract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OConst {
		return mkConst(a.val>>lo, w)
	}
	switch a.op {
	case OExtract:
		return mkExtract(a.a, lo+uint8(a.val), w)
	case OZext:
		if lo+w <= a.a.w {
			return mkExtract(a.a, lo, w)
		}
		if lo >= a.a.w {
			return mkConst(0, w)
		}
		if lo == 0 {
			return mkZext(a.a, w)
		}
	case OSext:
		if lo+w <= a.a.w {
			return mkExtract(a.a, lo, w)
		}
	case OConcat:
		if lo+w <= a.b.w {
			return mkExtract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return mkExtract(a.a, lo-a.b.w, w)
		}
	case OIte:
		if a.leaves > 0 && a.leaves <= leafPush {
			return mkIte(a.a, mkExtract(a.b, lo, w), mkExtract(a.c, lo, w))
		}
	}
	if lo == 0 && w < a.w {
		switch a.op {
		case OAdd, OBand, OBor, OBxor:
			if a.b.op == OConst || a.hi > mask(w) {
				return mkBin(a.op, mkExtract(a.a, 0, w), mkExtract(a.b, 0, w))
			}
		case OBnot:
			return mkBnot(mkExtract(a.a, 0, w))
		case OShl:
			if a.b.op == OConst {
				if a.b.val >= uint64(w) {
					return mkConst(0, w)
				}
				return mkBin(OShl, mkExtract(a.a, 0, w), mkConst(a.b.val, w))
			}
		}
	}
	return intern(OExtract, w, a, nil, nil, uint64(lo))
}

func mkZext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return mkExtract(a, 0, w)
	}
	if a.op == OConst {
		return mkConst(a.val, w)
	}
	if a.op == OZext {
		return mkZext(a.a, w)
	}
	if a.op == OIte && a.leaves > 0 && a.leaves <= leafPush {
		return mkIte(a.a, mkZext(a.b, w), mkZext(a.c, w))
	}
	return intern(OZext, w, a, nil, nil, 0)
}

func mkSext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return mkExtract(a, 0, w)
	}
	if a.op == OConst {
		return mkConst(uint64(sx(a.val, a.w)), w)
	}
	if a.hi <= mask(a.w)>>1 {
		return mkZext(a, w)
	}
	if a.op == OIte && a.leaves > 0 && a.leaves <= leafPush {
		return mkIte(a.a, mkSext(a.b, w), mkSext(a.c, w))
	}
	return intern(OSext, w, a, nil, nil, 0)
}

// Model: assignment of variables by index; missing = lo.
type Model struct {
	vals []uint64
	memo map[uint32]uint64
}

func newModel() *Model { return &Model{memo: map[uint32]uint64{}} }

func (m *Model) varVal(t *Term) uint64 {
	if int(t.val) < len(m.vals) {
		v := m.vals[t.val]
		if v < t.lo || v > t.hi {
			return t.lo
		}
		return v
	}
	return t.lo
}

func (m *Model) set(t *Term, v uint64) {
	if int(t.val) >= len(m.vals) {
		varMu.Lock()
		for int(t.val) >= len(m.vals) {
			m.vals = append(m.vals, varTab[len(m.vals)].lo)
		}
		varMu.Unlock()
	}
	m.vals[t.val] = v
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.varVal(t)
	case ONot:
		return 1 - m.eval(t.a)
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OAnd:
		r = m.eval(t.a)
		if r == 1 {
			r = m.eval(t.b)
		}
	case OOr:
		r = m.eval(t.a)
		if r == 0 {
			r = m.eval(t.b)
		}
	case OIte:
		if m.eval(t.a) == 1 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
	case OBnot:
		r = ^m.eval(t.a) & mask(t.w)
	case OConcat:
		r = m.eval(t.a)<<t.b.w | m.eval(t.b)
	case OExtract:
		r = (m.eval(t.a) >> t.val) & mask(t.w)
	case OZext:
		r = m.eval(t.a)
	case OSext:
		r = uint64(sx(m.eval(t.a), t.a.w)) & mask(t.w)
	default:
		r = foldBin(t.op, m.eval(t.a), m.eval(t.b), t.a.w)
	}
	m.memo[t.id] = r
	return r
}

// String for debugging
func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		fmt.Fprintf(sb, "%d", t.val)
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "t%d", t.id)
		return
	}
	sb.WriteString("(" + opName[t.op])
	if t.op == OExtract {
		fmt.Fprintf(sb, "[%d+%d]", t.val, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}

// forgetTerms drops composite terms from the intern table. Only between jobs,
// when no state is alive.
func forgetTerms() {
	n := 0
	for i := range shards {
		n += len(shards[i].m)
	}
	if n < 4_000_000 {
		return
	}
	for i := range shards {
		m := make(map[tkey]*Term)
		for k, t := range shards[i].m {
			if t.op == OConst || t.op == OVar {
				m[k] = t
			}
		}
		shards[i].m = m
	}
	ttCache.Clear()
	qcMu.Lock()
	qcache = map[string]qent{}
	qcMu.Unlock()
	termCount.Store(0)
}

// termCount counts terms interned since the last forgetTerms.
var termCount atomic.Int64

const maxTerms = 60_000_000
