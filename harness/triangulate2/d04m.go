package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: 15 points of one of three lines at concrete positions and one of the line at any integer position up to 9, copies
// included, are reported; with a concrete point beside the line they are triangulated.
//verif:check D04 steps=5000000
func Verif_D04_many() {
	k := vs.Concretize(vs.Int("line", 0, 2))
	dir := []r3.Vector{pt(1, 0), pt(0, 1), pt(2, 3)}[k]
	at := []r3.Vector{pt(0, 0), pt(5, -1), pt(1, 1)}[k]
	var ps []r3.Vector
	for _, q := range scatter(15, 10, 5) {
		ps = append(ps, r3.Vector{X: at.X + q.X*dir.X, Y: at.Y + q.X*dir.Y})
	}
	s := vs.Grid("s", -9, 9, 0)
	ps = append(ps, r3.Vector{X: at.X + s*dir.X, Y: at.Y + s*dir.Y})
	if vs.Concretize(vs.Int("beside", 0, 1)) == 1 {
		ps = append(ps, pt(at.X-3*dir.Y, at.Y+4*dir.X))
		vs.Assert(run(ps), "a triangulation is found")
	} else {
		vs.Assert(!run(ps), "collinear points are reported")
	}
	vs.Cover("done")
}
