package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Three concrete points, collinear or not, and one anywhere on the integer grid [-4,4]^2, not
// all collinear; the additional point may belong to the first triangle.
//verif:check D02 tier=thorough
func Verif_D02_any() {
	k := vs.Concretize(vs.Int("template", 0, len(seeds)-1))
	p := anyPoint("p", -4, 4)
	ps := append([]r3.Vector{p}, seeds[k]...)
	vs.Assume(notCollinear(ps))
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}

var seeds = [][]r3.Vector{
	{pt(0, 0), pt(4, 0), pt(0, 4)},
	{pt(-3, 0), pt(0, 0), pt(4, 0)},
}
