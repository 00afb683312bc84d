package main

// Constant propagation for solver queries: variables which the path condition
// fixes to one value are replaced by it.

// pinsOf returns the variables of sup which single-variable conjuncts fix.
func pinsOf(slice []*Term, sup []uint32) map[uint32]*Term {
	var pins map[uint32]*Term
	set := func(vi uint32, c *Term) {
		if pins == nil {
			pins = map[uint32]*Term{}
		}
		pins[vi] = c
	}
	doms := map[uint32][]uint64{}
	for _, p := range slice {
		if len(p.sup) != 1 {
			continue
		}
		vi := p.sup[0]
		if p.op == OEq && p.a.op == OVar && p.b.op == OConst {
			set(vi, p.b)
			continue
		}
		if p.op == OEq && p.b.op == OVar && p.a.op == OConst {
			set(vi, p.a)
			continue
		}
		tt := ttOf(p)
		if tt.bad {
			continue
		}
		if d := doms[vi]; d == nil {
			doms[vi] = append([]uint64(nil), tt.bits...)
		} else {
			for i := range d {
				d[i] &= tt.bits[i]
			}
		}
	}
	for vi, d := range doms {
		if pins[vi] != nil {
			continue
		}
		cnt, at := 0, 0
		for k := 0; k < len(d)*64 && cnt < 2; k++ {
			if d[k>>6]>>(k&63)&1 == 1 {
				cnt++
				at = k
			}
		}
		if cnt == 1 {
			x := varOf(vi)
			set(vi, mkConst(x.lo+uint64(at), x.w))
		}
	}
	return pins
}

func substPins(t *Term, pins map[uint32]*Term, memo map[uint32]*Term) *Term {
	hit := false
	for _, vi := range t.sup {
		if pins[vi] != nil {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.op == OVar {
		return pins[uint32(t.val)]
	}
	if r := memo[t.id]; r != nil {
		return r
	}
	var a, b, c *Term
	if t.a != nil {
		a = substPins(t.a, pins, memo)
	}
	if t.b != nil {
		b = substPins(t.b, pins, memo)
	}
	if t.c != nil {
		c = substPins(t.c, pins, memo)
	}
	var r *Term
	switch t.op {
	case ONot:
		r = mkNot(a)
	case OAnd:
		r = mkAnd(a, b)
	case OOr:
		r = mkOr(a, b)
	case OBnot:
		r = mkBnot(a)
	case OIte:
		r = mkIte(a, b, c)
	case OExtract:
		r = mkExtract(a, uint8(t.val), t.w)
	case OZext:
		r = mkZext(a, t.w)
	case OSext:
		r = mkSext(a, t.w)
	default:
		r = mkBin(t.op, a, b)
	}
	memo[t.id] = r
	return r
}
