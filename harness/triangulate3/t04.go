package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Every non-degenerate tetrahedron and every point with integer coordinates up to 1000: the answer is
// that of the signs of the five volumes.
//verif:check T04
func Verif_T04_containment() {
	m := 1000
	v := []r3.Vector{anyPoint("a", m), anyPoint("b", m), anyPoint("c", m), anyPoint("d", m)}
	p := anyPoint("p", m)
	flat := det(v[0], v[1], v[2], v[3]) == 0
	vs.Assume(!flat)
	vs.Merge(2)
	got := VectorInTetrahedron(v[0], v[1], v[2], v[3], p)
	vs.Assert(got == contains(v, p), "containment is that of the closed tetrahedron")
	vs.Cover("done")
}

// Two (thorough: four) concrete tetrahedra with their vertices in every order, and every point with integer
// coordinates up to 1000.
//verif:check T04
func Verif_T04_points() {
	ts := [][]r3.Vector{
		{at(0, 0, 0), at(4, 0, 0), at(0, 4, 0), at(0, 0, 4)},
		{at(-3, 1, 2), at(5, 1, -4), at(0, 9, 1), at(2, 2, 12)},
		{at(900, 0, 0), at(-900, 1, 0), at(0, -1, 800), at(1, 0, -777)},
		{at(-7, -7, -7), at(9, -7, -7), at(-7, -5, -7), at(-8, -6, 20)},
	}
	k := vs.Concretize(vs.Int("tetrahedron", 0, 1+2*vs.Tier()))
	o := vs.Concretize(vs.Int("order", 0, 23))
	rest := append([]r3.Vector(nil), ts[k]...)
	var v []r3.Vector
	for n := 4; n > 0; n-- {
		v = append(v, rest[o%n])
		rest = append(append([]r3.Vector(nil), rest[:o%n]...), rest[o%n+1:]...)
		o /= n
	}
	p := anyPoint("p", 1000)
	vs.Merge(2)
	got := VectorInTetrahedron(v[0], v[1], v[2], v[3], p)
	vs.Assert(got == contains(v, p), "containment is that of the closed tetrahedron")
	vs.Cover("done")
}

// Every non-degenerate tetrahedron and every point with coordinates k*2^e, |k| <= 1000, e one of -20, -50, -100, 20 and 100.
//verif:check T04
func Verif_T04_scales() {
	m := 1000
	ex := []int{-20, -50, -100, 20, 100}[vs.Concretize(vs.Int("e", 0, 4))]
	v := []r3.Vector{pointAt("a", m, ex), pointAt("b", m, ex), pointAt("c", m, ex), pointAt("d", m, ex)}
	p := pointAt("p", m, ex)
	flat := det(v[0], v[1], v[2], v[3]) == 0
	vs.Assume(!flat)
	vs.Merge(2)
	got := VectorInTetrahedron(v[0], v[1], v[2], v[3], p)
	vs.Assert(got == contains(v, p), "containment is that of the closed tetrahedron")
	vs.Cover("done")
}
