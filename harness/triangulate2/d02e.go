package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// A cluster of three points in a frame of four and a further point, inside the frame or one
// of its corners, and one point next to it: displaced by multiples of 2^-20 up to 6 in
// either coordinate, listed before or after it.
//verif:check D02
func Verif_D02_close() {
	b := []r3.Vector{pt(8, 5), pt(16, 1), pt(-3, -7)}[vs.Concretize(vs.Int("beside", 0, 2))]
	dx, dy := vs.Grid("dx", -6, 6, -20), vs.Grid("dy", -6, 6, -20)
	here := dx == 0
	here2 := dy == 0
	vs.Assume(!(here && here2))
	p := r3.Vector{X: b.X + dx, Y: b.Y + dy}
	ps := []r3.Vector{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 1), pt(1, 16), pt(-16, -2), pt(-1, -16)}
	if b.X != 16 {
		ps = append(ps, b)
	}
	if vs.Concretize(vs.Int("first", 0, 1)) == 1 {
		ps = append([]r3.Vector{p}, ps...)
	} else {
		ps = append(ps, p)
	}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
