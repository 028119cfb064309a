package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// A triangulation of concrete points around the origin, whose three points nearest to the
// origin form the first triangle, and one more point anywhere on the integer grid [-40,40]^2
// at least 4 away (in one coordinate) from the origin, first or last in the list.
//verif:check D02
func Verif_D02_one() {
	k := vs.Concretize(vs.Int("template", 0, len(templates)-1))
	p := anyPoint("p", -40, 40)
	vs.Assume(outside(p, 4))
	ps := append([]r3.Vector(nil), templates[k]...)
	if vs.Concretize(vs.Int("first", 0, 1)) == 1 {
		ps = append([]r3.Vector{p}, ps...)
	} else {
		ps = append(ps, p)
	}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}

// Two points in a frame.
//verif:check D02 tier=thorough
func Verif_D02_two() {
	p := anyPoint("p", -14, 14)
	q := anyPoint("q", -14, 14)
	vs.Assume(outside(p, 4))
	vs.Assume(outside(q, 4))
	ps := []r3.Vector{pt(0, 0), pt(2, 0), pt(0, 2), p, pt(16, 1), pt(-16, -16), pt(-3, 16), q}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
