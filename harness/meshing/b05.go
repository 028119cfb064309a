package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func wellFormed(ps []r3.Vector) {
	n := len(ps)
	var l []int
	given := append([]r3.Vector(nil), ps...)
	vs.MapOrder(vs.Concretize(vs.Int("order", 0, 1+vs.Tier())))
	vs.Output(func() { l = bowyerWatson(given...) })
	vs.Merge(2)
	vs.Assert(len(l)%3 == 0, "faces are triples")
	in, distinct := true, true
	for i := 0; i+2 < len(l); i += 3 {
		for _, v := range l[i : i+3] {
			in = in && v >= 0 && v < n
		}
		distinct = distinct && l[i] != l[i+1] && l[i+1] != l[i+2] && l[i] != l[i+2]
	}
	vs.Assert(in, "faces have input points")
	vs.Assert(distinct, "the points of a face are distinct")
	vs.Cover("done")
	if len(l) > 0 {
		vs.Cover("faces")
	}
}

// Zero to two (thorough: four) points of one of three lines, at any integer positions up to 3, coincident ones
// included; the internal tables in two (thorough: three) traversal orders.
//verif:check B05
func Verif_B05_degenerate() {
	n := upTo("n", 0, 2, 4)
	u := []r3.Vector{at(1, 0, 0), at(0, 0, 1), at(1, 1, 1)}[vs.Concretize(vs.Int("line", 0, 2))]
	ps := make([]r3.Vector, n)
	for i := range ps {
		s := vs.Grid("s"+digit(i), -3, 3, 0)
		ps[i] = r3.Vector{X: 1 + s*u.X, Y: s*u.Y - 1, Z: s * u.Z}
	}
	wellFormed(ps)
}

// The corners of a cube, a planar square with its centre, or a concrete tetrahedron, and another
// point at any integer position up to 6 on one of three lines; traversal orders as above.
//verif:check B05
func Verif_B05_cocircular() {
	ts := [][]r3.Vector{
		{at(0, 0, 0), at(2, 0, 0), at(0, 2, 0), at(2, 2, 0), at(0, 0, 2), at(2, 0, 2), at(0, 2, 2), at(2, 2, 2)},
		{at(0, 0, 0), at(2, 0, 0), at(0, 2, 0), at(2, 2, 0), at(1, 1, 0)},
		{at(0, 0, 0), at(4, 0, 0), at(0, 4, 0), at(0, 0, 4)},
	}
	k := vs.Concretize(vs.Int("template", 0, 2))
	u := []r3.Vector{at(1, 0, 0), at(0, 1, 1), at(1, 1, 1)}[vs.Concretize(vs.Int("line", 0, 2))]
	s := vs.Grid("s", -6, 6, 0)
	wellFormed(append(append([]r3.Vector(nil), ts[k]...), r3.Vector{X: s * u.X, Y: s * u.Y, Z: s * u.Z}))
}

// Three concrete points and one (thorough: or the same one twice) anywhere on the integer grid [-2,2]^3; traversal orders as above.
//verif:check B05
func Verif_B05_any() {
	p := anyPoint("p", 2)
	ps := []r3.Vector{at(0, 0, 0), at(2, 0, 0), at(0, 2, 1), p}
	if vs.Concretize(vs.Int("twice", 0, vs.Tier())) == 1 {
		ps = append(ps, p)
	}
	wellFormed(ps)
}
