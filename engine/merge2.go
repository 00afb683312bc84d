package main

import "go/types"

func joinTuple(c *Term, x, y *Tuple, t types.Type) (Val, bool) {
	tt, ok := t.(*types.Tuple)
	if !ok || len(x.v) != len(y.v) {
		return Val{}, false
	}
	o := &Tuple{v: make([]Val, len(x.v))}
	for i := range x.v {
		et := tt.At(i).Type()
		a, b := x.v[i], y.v[i]
		if a.x == b.x && a.c == b.c {
			o.v[i] = a
			continue
		}
		if isAgg(et) {
			xa, ya := a.x.(*Agg), b.x.(*Agg)
			lay := layoutOf(et)
			g := &Agg{v: make([]Val, len(xa.v))}
			for j := range xa.v {
				v, ok := joinVal(c, xa.v[j], ya.v[j], lay.cells[j], false, true)
				if !ok {
					return Val{}, false
				}
				g.v[j] = v
			}
			o.v[i] = Val{x: g}
			continue
		}
		v, ok := joinVal(c, a, b, kindOf(et), false, true)
		if !ok {
			return Val{}, false
		}
		o.v[i] = v
	}
	return Val{x: o}, true
}
