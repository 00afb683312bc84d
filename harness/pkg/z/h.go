package z

import "github.com/go-air/gini/internal/vsym"

func init() {
	vsym.Register("z.VHLit", VHLit)
}

// VHLit: literal encoding laws for every variable and literal.
func VHLit() {
	v := Var(vsym.Uint32("v"))
	vsym.Assume(v >= 1)
	vsym.Assume(v <= 0x7fffffff)
	p, n := v.Pos(), v.Neg()
	vsym.Assert(p != n, "pos differs from neg")
	vsym.Assert(p.Var() == v, "pos var")
	vsym.Assert(n.Var() == v, "neg var")
	vsym.Assert(p.Not() == n, "not pos")
	vsym.Assert(n.Not() == p, "not neg")
	vsym.Assert(p.IsPos(), "pos is pos")
	vsym.Assert(!n.IsPos(), "neg is not pos")
	vsym.Reach("end")
}
