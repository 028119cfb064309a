package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Up to five (thorough: six) points of one line through the origin or beside it, at any
// integer positions from -3 to 3 along the line, coincident ones included.
//verif:check D04
func Verif_D04_line() {
	n := upTo("n", 1, 4, 6)
	k := vs.Concretize(vs.Int("line", 0, 2+vs.Tier()))
	dir := []r3.Vector{pt(1, 0), pt(0, 1), pt(-2, 3), pt(1, 2)}[k]
	at := []r3.Vector{pt(0, 0), pt(5, -1), pt(1, 1), pt(0, 0)}[k]
	ps := make([]r3.Vector, n)
	for i := range ps {
		s := vs.Grid("s"+string(rune('0'+i)), -3, 3, 0)
		ps[i] = r3.Vector{X: at.X + s*dir.X, Y: at.Y + s*dir.Y}
	}
	vs.Assert(!run(ps), "collinear points are reported")
	vs.Cover("done")
}

// A concrete point beside the X axis, the origin, and one point (thorough: two) of the X axis
// at any integer position from -6 to 6, coincident ones included but not all.
//verif:check D04
func Verif_D04_apex() {
	n := upTo("n", 1, 1, 2)
	ps := []r3.Vector{pt(1, []float64{4, -2}[vs.Concretize(vs.Int("apex", 0, 1))]), {}}
	differ := false
	for i := 0; i < n; i++ {
		ps = append(ps, r3.Vector{X: vs.Grid("s"+string(rune('0'+i)), -6, 6, 0)})
		d := ps[2+i].X != 0
		differ = differ || d
	}
	vs.Assume(differ)
	vs.Assert(run(ps), "a triangulation is found")
	vs.Cover("done")
}

// The empty list, one point, two points anywhere on the integer grid [-20,20]^2, and two
// concrete points with a third at any integer x from -20 to 20 on three horizontal lines.
//verif:check D04
func Verif_D04_small() {
	n := vs.Concretize(vs.Int("n", 0, 4))
	var ps []r3.Vector
	if n >= 3 {
		ps = append(ps, pt(1, 2), []r3.Vector{pt(1, 2), pt(5, 2)}[n-3])
		ps = append(ps, r3.Vector{X: vs.Grid("x", -20, 20, 0), Y: []float64{2, 3, 0}[vs.Concretize(vs.Int("y", 0, 2))]})
	} else {
		for i := 0; i < n; i++ {
			ps = append(ps, anyPoint("p"+string(rune('0'+i)), -20, 20))
		}
	}
	ok := run(ps)
	if n < 3 {
		vs.Assert(ok == (n == 0), "one or two points are reported, no points have no triangles")
		return
	}
	vs.Merge(2)
	vs.Assert(ok == notCollinear(ps), "an error is reported exactly for collinear points")
	vs.Cover("done")
}

// A point list around the origin, with one point anywhere on the integer grid [-9,9]^2 that
// is at least 4 away (in one coordinate) from the origin, given twice.
//verif:check D04
func Verif_D04_twice() {
	p := anyPoint("p", -9, 9)
	vs.Assume(outside(p, 4))
	ps := []r3.Vector{p, pt(0, 0), pt(2, 0), pt(0, 2), pt(10, 10), pt(-10, -10), p}
	vs.Assert(run(ps), "a triangulation is found")
	vs.Cover("done")
}
