package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func englobes(ps []r3.Vector) {
	m := constructEnglobingTetra(append([]r3.Vector(nil), ps...))
	v := m.Vertices
	vs.Assert(len(v) == 4, "there are four vertices")
	if len(v) != 4 {
		return
	}
	vs.Merge(2)
	flat := det(v[0], v[1], v[2], v[3]) == 0
	vs.Assert(!flat, "the tetrahedron is not degenerate")
	for _, p := range ps {
		vs.Assert(contains(v, p), "the tetrahedron contains every point")
	}
	vs.Cover("done")
}

func along(name string, c, u r3.Vector, m int) r3.Vector {
	s := vs.Grid(name, -m, m, 0)
	return r3.Vector{X: c.X + s*u.X, Y: c.Y + s*u.Y, Z: c.Z + s*u.Z}
}

var directions = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}

// One point at any integer position up to 1e8 on six lines through the origin.
//verif:check T03
func Verif_T03_single() {
	u := directions[vs.Concretize(vs.Int("line", 0, 5))]
	englobes([]r3.Vector{along("s", r3.Vector{}, u, 1e8)})
}

// A concrete point, one of two (thorough: four) near the origin, and one or two at any integer position up to 300
// on six lines through another concrete point (the second on a parallel line, as far behind it).
//verif:check T03
func Verif_T03_near() {
	p := []r3.Vector{at(3, -4, 5), at(-100, 20, 0), {}, at(40, 40, 40)}[vs.Concretize(vs.Int("point", 0, 1+2*vs.Tier()))]
	u := directions[vs.Concretize(vs.Int("line", 0, 5))]
	q := along("s", at(1, 0, -2), u, 300)
	ps := []r3.Vector{p, q}
	if vs.Concretize(vs.Int("n", 2, 3)) == 3 {
		ps = append(ps, r3.Vector{X: 7 - q.X, Y: q.Y + 11, Z: 5 - q.Z})
	}
	englobes(ps)
}

// Two points anywhere within 1000 (in each coordinate) of any of the eight points (+-1e9,+-1e9,+-1e9)
// less 1000, in the same octant or different ones.
//verif:check T03
func Verif_T03_far() {
	corner := func(name string) r3.Vector {
		k := vs.Concretize(vs.Int(name, 0, 7))
		s := [2]float64{-1e9 + 1000, 1e9 - 1000}
		return at(s[k&1], s[k>>1&1], s[k>>2&1])
	}
	box := func(name string, c r3.Vector) r3.Vector {
		p := anyPoint(name, 1000)
		return r3.Vector{X: c.X + p.X, Y: c.Y + p.Y, Z: c.Z + p.Z}
	}
	a, b := corner("a"), corner("b")
	englobes([]r3.Vector{box("p", a), box("q", b)})
}

// Two or three points on one of six lines through a concrete point, s*2^e and -s*2^e from it (|s| <= 1000, e one of -40, -12,
// 0 and 5), given before or after the concrete one.
//verif:check T03
func Verif_T03_scales() {
	p := []r3.Vector{at(0.375, -4.5, 1e3), at(-7e5, 3, 0.0078125)}[vs.Concretize(vs.Int("point", 0, 1))]
	u := directions[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -1000, 1000, []int{-40, -12, 0, 5}[vs.Concretize(vs.Int("e", 0, 3))])
	q := r3.Vector{X: p.X + s*u.X, Y: p.Y + s*u.Y, Z: p.Z + s*u.Z}
	switch vs.Concretize(vs.Int("order", 0, 2)) {
	case 0:
		englobes([]r3.Vector{p, q})
	case 1:
		englobes([]r3.Vector{q, p})
	default:
		englobes([]r3.Vector{q, p, {X: p.X - s*u.X, Y: p.Y - s*u.Y, Z: p.Z - s*u.Z}})
	}
}
