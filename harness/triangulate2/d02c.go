package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// A cluster of three points, alone or in a frame of four, one more point anywhere on the integer
// grid [-9,9]^2 at least 4 away (in one coordinate) from the origin, and copies of one of the
// cluster's points or of all points but the frame (thorough: any of them), before or after the originals.
//verif:check D02
func Verif_D02_copies() {
	k := vs.Concretize(vs.Int("template", 0, len(templates)-1))
	p := anyPoint("p", -9, 9)
	vs.Assume(outside(p, 4))
	mask := vs.Concretize(vs.Int("copied", 1, 15))
	if vs.Tier() == 0 {
		vs.Assume(mask == 1 || mask == 2 || mask == 4 || mask == 15)
	}
	ps := append(append([]r3.Vector(nil), templates[k]...), p)
	var cs []r3.Vector
	for j := 0; j < 4; j++ {
		if mask>>uint(j)&1 == 1 {
			if j == 3 {
				cs = append(cs, p)
			} else {
				cs = append(cs, ps[j])
			}
		}
	}
	if vs.Concretize(vs.Int("first", 0, 1)) == 1 {
		ps = append(cs, ps...)
	} else {
		ps = append(ps, cs...)
	}
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
