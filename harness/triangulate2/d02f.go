package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Concrete points around the origin whose frame of four outer points fixes the first
// triangle, and one more point anywhere on the integer grid [-15,15]^2 at least 4 away (in
// one coordinate) from the origin. The frames are chosen so that some positions make a flip
// move an edge of the hull from one triangle to another.
//verif:check D02
func Verif_D02_frame() {
	k := vs.Concretize(vs.Int("template", 0, len(frames)-1))
	p := anyPoint("p", -15, 15)
	vs.Assume(outside(p, 4))
	ps := append([]r3.Vector{p}, frames[k]...)
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
