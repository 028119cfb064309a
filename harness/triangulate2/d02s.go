package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Two points, or three collinear ones, on the X axis and one at any integer x in [-20,20]
// and a height of 1, 2, 4 or 8 above or below the axis, which may belong to the first
// triangle; the list in three orders.
//verif:check D02
func Verif_D02_seed() {
	p := r3.Vector{X: vs.Grid("x", -20, 20, 0)}
	p.Y = []float64{1, 2, 4, 8, -1, -2, -4, -8}[vs.Concretize(vs.Int("y", 0, 7))]
	ps := []r3.Vector{pt(0, 0), pt(4, 0)}
	if vs.Concretize(vs.Int("collinear", 0, 1)) == 1 {
		ps = append(ps, pt(-4, 0))
	}
	switch vs.Concretize(vs.Int("order", 0, 2)) {
	case 0:
		ps = append(ps, p)
	case 1:
		ps = append([]r3.Vector{p}, ps...)
	default:
		ps = append(append([]r3.Vector{ps[0]}, p), ps[1:]...)
	}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
