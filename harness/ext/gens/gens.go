package gens

// What generated problems mean: the assignments satisfying the clauses are the
// intended objects.

import (
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("gens.Php", Php)
	vsym.Register("gens.Partition", Partition)
	vsym.Register("gens.Triples", Triples)
	vsym.Register("gens.Cycle", Cycle)
	vsym.Register("gens.Rand3", Rand3)
	vsym.Register("gens.Color", Color)
	vsym.Register("gens.Graph", Graph)
	vsym.Register("gens.Cube", Cube)
}

// rec records clauses.
type rec struct {
	f    [][]z.Lit
	c    []z.Lit
	maxv int
}

func (r *rec) Add(m z.Lit) {
	if m == z.LitNull {
		r.f = append(r.f, r.c)
		r.c = nil
		return
	}
	if int(m.Var()) > r.maxv {
		r.maxv = int(m.Var())
	}
	r.c = append(r.c, m)
}

func (r *rec) done(nv int) {
	vsym.Assert(len(r.c) == 0, "every clause is complete")
	vsym.Assert(r.maxv <= nv, "the variables are those of the problem")
}

// sat: whether the clauses hold under a. Literals are concrete.
func (r *rec) sat(a []bool) bool {
	all := true
	for _, c := range r.f {
		k := false
		for _, m := range c {
			v := a[m.Var()]
			if !m.IsPos() {
				v = vsym.Not(v)
			}
			k = vsym.Or(k, v)
		}
		all = vsym.And(all, k)
	}
	return all
}

func anyAssignment(nv int) []bool {
	a := make([]bool, nv+1)
	for v := 1; v <= nv; v++ {
		a[v] = vsym.Bool("a")
	}
	return a
}

func size(name string, lo, hi int) int { return lo + vsym.Choose(name, hi-lo+1) }

// Php: p pigeons each in some hole, none together.
func Php() {
	p, h := size("p", 0, vsym.P("p", 4)), size("h", 0, vsym.P("h", 4))
	r := &rec{}
	gen.Php(r, p, h)
	r.done(p * h)
	a := anyAssignment(p * h)
	at := func(i, j int) bool {
		m := gen.PartVar(i, j, p)
		vsym.Assert(m.IsPos() && int(m.Var()) >= 1 && int(m.Var()) <= p*h, "PartVar gives variables of the problem")
		return a[m.Var()]
	}
	ok := true
	for i := 0; i < p; i++ {
		k := false
		for j := 0; j < h; j++ {
			k = vsym.Or(k, at(i, j))
			for o := 0; o < i; o++ {
				ok = vsym.And(ok, vsym.Not(vsym.And(at(i, j), at(o, j))))
			}
		}
		ok = vsym.And(ok, k)
	}
	vsym.Assert(vsym.Iff(r.sat(a), ok), "the models are the placements of pigeons in holes")
	if p > h {
		vsym.Assert(vsym.Not(r.sat(a)), "too many pigeons don't fit")
	}
	distinct(p, h)
	vsym.Reach("end")
}

// distinct: PartVar names different variables.
func distinct(n, k int) {
	used := make([]bool, n*k+1)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			v := gen.PartVar(i, j, n).Var()
			vsym.Assert(!used[v], "different facts have different variables")
			used[v] = true
		}
	}
}

// Partition: every element in exactly one part.
func Partition() {
	n, k := size("n", 0, vsym.P("n", 4)), size("k", 0, vsym.P("k", 3))
	r := &rec{}
	gen.Partition(r, n, k)
	r.done(n * k)
	a := anyAssignment(n * k)
	ok := true
	for i := 0; i < n; i++ {
		c := 0
		for j := 0; j < k; j++ {
			c += vsym.B2i(a[gen.PartVar(i, j, n).Var()])
		}
		ok = vsym.And(ok, c == 1)
	}
	vsym.Assert(vsym.Iff(r.sat(a), ok), "the models are the partitions")
	distinct(n, k)
	vsym.Reach("end")
}

// Triples: no triple i*i+j*j=k*k inside a part of [1..n].
func Triples() {
	n := size("n", vsym.P("lo", 0), vsym.P("n", 12))
	k := vsym.P("k", 0)
	r := &rec{}
	var a []bool
	two := false
	in := func(e, p int) bool { return a[e] == (p == 0) }
	ok := true
	if k == 0 {
		k = 2
		two = true
		gen.Py2Triples(r, n)
		vsym.Assert(len(r.c) == 0, "every clause is complete")
		if r.maxv > n {
			a = anyAssignment(r.maxv)
		} else {
			a = anyAssignment(n)
		}
	} else {
		gen.PyTriples(r, n, k)
		r.done(n * k)
		a = anyAssignment(n * k)
		in = func(e, p int) bool { return a[gen.PartVar(e-1, p, n).Var()] }
		for e := 1; e <= n; e++ {
			c := 0
			for p := 0; p < k; p++ {
				c += vsym.B2i(in(e, p))
			}
			ok = vsym.And(ok, c == 1)
		}
	}
	for z := 1; z <= n; z++ {
		for y := 1; y < z; y++ {
			for x := 1; x < y; x++ {
				if x*x+y*y != z*z {
					continue
				}
				vsym.Reach("triple")
				for p := 0; p < k; p++ {
					ok = vsym.And(ok, vsym.Not(vsym.And(in(x, p), vsym.And(in(y, p), in(z, p)))))
				}
			}
		}
	}
	vsym.Assert(vsym.Or(vsym.Not(r.sat(a)), ok), "the models are partitions without triples in a part")
	if two {
		vsym.Assert(len(r.f)%2 == 0, "each triple forbids both parts")
		for i := 0; i+1 < len(r.f); i += 2 {
			c, d := r.f[i], r.f[i+1]
			vsym.Assert(len(c) == 3 && len(d) == 3, "a triple has three elements")
			x, y, z := int(c[0].Var()), int(c[1].Var()), int(c[2].Var())
			vsym.Assert(x*x+y*y == z*z || x*x+z*z == y*y || y*y+z*z == x*x, "only triples are forbidden")
			for j, m := range c {
				vsym.Assert(c[0].IsPos() == m.IsPos() && d[j] == m.Not(), "each triple forbids both parts")
			}
		}
		// the first n triples instead of those over 1 to n
		vsym.Known("py2-range", r.maxv > n)
	}
	r.done(len(a) - 1)
	vsym.Assert(vsym.Or(r.sat(a), vsym.Not(ok)), "every partition without triples in a part is a model")
	if two {
		vsym.Assert(r.maxv <= n, "the elements are 1 to n")
	}
	vsym.Reach("end")
}

// Cycle: all equivalent (1 implied by 2 implied by 3 ... implied by 1).
func Cycle() {
	n := size("n", 0, vsym.P("n", 6))
	r := &rec{}
	gen.BinCycle(r, n)
	r.done(n)
	a := anyAssignment(n)
	ok := true
	for v := 2; v <= n; v++ {
		ok = vsym.And(ok, a[v] == a[1])
	}
	vsym.Assert(vsym.Iff(r.sat(a), ok), "the models of a cycle are the constant assignments")
	vsym.Assert(len(r.f) == n, "a cycle has as many clauses as variables")
	vsym.Reach("end")
}

// Rand3: clauses of three different variables.
func Rand3() {
	n, m := vsym.P("n", 3), vsym.P("m", 1)
	r := &rec{}
	if vsym.P("hard", 0) == 1 {
		gen.HardRand3Cnf(r, n)
		m = 4 * n
	} else {
		gen.Rand3Cnf(r, n, m)
	}
	vsym.Assert(len(r.c) == 0, "every clause is complete")
	vsym.Assert(len(r.f) == m, "there are as many clauses as asked for")
	for _, c := range r.f {
		vsym.Assert(len(c) == 3, "clauses have three literals")
		for i, x := range c {
			vsym.Assert(vsym.And(x.Var() >= 1, int(x.Var()) <= n), "the variables are 1 to n")
			for _, y := range c[:i] {
				vsym.Assert(x.Var() != y.Var(), "the variables of a clause differ")
			}
		}
	}
	vsym.Reach("end")
}

// Graph: a simple graph with n nodes and m edges.
func Graph() {
	n := vsym.P("n", 4)
	m := vsym.P("m", 3)
	g := gen.RandGraph(n, m)
	if m > n*(n-1)/2 {
		vsym.Assert(g == nil, "there is no graph with so many edges")
		return
	}
	vsym.Assert(len(g) == n, "the graph has n nodes")
	t := 0
	for a, es := range g {
		t += len(es)
		for i, b := range es {
			vsym.Assert(b >= 0 && b < n, "edges lead to nodes")
			vsym.Assert(b != a, "no node has an edge to itself")
			for _, c := range es[:i] {
				vsym.Assert(b != c, "edges are different")
			}
			back := false
			for _, c := range g[b] {
				back = back || c == a
			}
			vsym.Assert(back, "edges are symmetric")
		}
	}
	vsym.Assert(t == 2*m, "the graph has m edges")
	vsym.Reach("end")
}

// Color: the models colour some simple graph with n nodes and m edges. Which
// graph is left to chance, so it is read off the clauses.
func Color() {
	n, m, k := vsym.P("n", 3), vsym.P("m", 2), vsym.P("k", 2)
	r := &rec{}
	gen.RandColor(r, n, m, k)
	r.done(n * k)
	// one variable for each node and color: read off the first n clauses
	// which have only positive literals.
	var nodes [][]z.Lit
	used := make([]bool, n*k+1)
	for _, c := range r.f {
		if len(c) == 0 || !c[0].IsPos() {
			continue
		}
		for _, l := range c {
			vsym.Assert(l.IsPos(), "a node has some color")
			vsym.Assert(!used[l.Var()], "nodes and colors have their own variables")
			used[l.Var()] = true
		}
		vsym.Assert(len(c) == k, "nodes may have any color")
		nodes = append(nodes, c)
	}
	if k > 0 {
		vsym.Assert(len(nodes) == n, "every node has a color")
	}
	// the graph: nodes whose equal colors exclude each other
	where := make([][2]int, n*k+1)
	for i, c := range nodes {
		for j, l := range c {
			where[l.Var()] = [2]int{i, j}
		}
	}
	adj := make([][]bool, n)
	for i := range adj {
		adj[i] = make([]bool, n)
	}
	edges := 0
	for _, c := range r.f {
		if len(c) == 0 || c[0].IsPos() {
			continue
		}
		vsym.Assert(len(c) == 2 && !c[1].IsPos(), "an edge forbids two nodes to have the same color")
		x, y := where[c[0].Var()], where[c[1].Var()]
		vsym.Assert(x[1] == y[1], "an edge forbids the same color")
		vsym.Assert(x[0] != y[0], "an edge has two nodes")
		if !adj[x[0]][y[0]] {
			adj[x[0]][y[0]] = true
			adj[y[0]][x[0]] = true
			edges++
		}
	}
	if k > 0 {
		vsym.Assert(edges == m, "the graph has m edges")
	}
	// and the models are its colorings
	a := anyAssignment(n * k)
	ok := true
	for x := 0; x < n && x < len(nodes); x++ {
		s := false
		for c := 0; c < k; c++ {
			s = vsym.Or(s, a[nodes[x][c].Var()])
			for y := 0; y < x; y++ {
				if adj[x][y] {
					ok = vsym.And(ok, vsym.Not(vsym.And(a[nodes[x][c].Var()], a[nodes[y][c].Var()])))
				}
			}
		}
		ok = vsym.And(ok, s)
	}
	if k > 0 {
		vsym.Assert(vsym.Iff(r.sat(a), ok), "the models are the colorings")
	}
	vsym.Reach("end")
}

// Cube: between one and max literals over different variables.
func Cube() {
	max, nv := vsym.P("max", 2), vsym.P("nv", 3)
	g := gen.NewRandCuber(max, z.Var(nv))
	var keep []z.Lit
	for i := 0; i < vsym.P("rounds", 2); i++ {
		c := g.RandCube(keep)
		vsym.Assert(len(c) >= 1 && len(c) <= max, "cubes have between one and max literals")
		for i, x := range c {
			vsym.Assert(vsym.And(x.Var() >= 1, int(x.Var()) <= nv), "the variables are 1 to n")
			for _, y := range c[:i] {
				vsym.Assert(x.Var() != y.Var(), "the variables of a cube differ")
			}
		}
		keep = c
	}
	vsym.Reach("end")
}
