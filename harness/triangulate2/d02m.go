package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// A triangulation as above at another place and scale: concrete points and one more point anywhere on the integer grid
// [-15,15]^2 at least 4 away from the origin, all multiplied by 2^e, e one of -16, 0 and 14, and moved by up to 3000*2^e.
//verif:check D02
func Verif_D02_moved() {
	k := vs.Concretize(vs.Int("template", 0, 1))
	m := vs.Concretize(vs.Int("place", 0, 2))
	f := math.Ldexp(1, []int{-16, 14, 0}[m])
	o := []r3.Vector{pt(1000, -3000), pt(0, 0), pt(-3, 2048)}[m]
	p := anyPoint("p", -15, 15)
	vs.Assume(outside(p, 4))
	ps := append([]r3.Vector{p}, frames[k]...)
	for i := range ps {
		ps[i] = r3.Vector{X: f * (ps[i].X + o.X), Y: f * (ps[i].Y + o.Y)}
	}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
