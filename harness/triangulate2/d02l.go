package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: a cluster of three points that form the first triangle, 20 (thorough: also 40 and 80) concrete points of the integer grid
// [-60,60]^2 around it, copies of points among them, and one on one of two (thorough: three) lines across them at any integer position
// up to 70, last in the list.
//verif:check D02 steps=50000000
func Verif_D02_many() {
	n := []int{20, 40, 80}[vs.Concretize(vs.Int("n", 0, 2*vs.Tier()))]
	s := vs.Grid("s", -70, 70, 0)
	p := []r3.Vector{{X: s, Y: 13}, {X: -12, Y: s}, {X: 61, Y: s}}[vs.Concretize(vs.Int("line", 0, 1+vs.Tier()))]
	ps := []r3.Vector{}
	for _, q := range scatter(2*n, 60, n+1) {
		if outside(q, 6) && len(ps) < n {
			ps = append(ps, q)
		}
	}
	// the corners keep the cluster nearest to the centre
	ps = append(ps, pt(60, 60), pt(-60, 60), pt(60, -60), pt(-60, -60), ps[4], ps[1], pt(0, 0), pt(2, 0), pt(0, 2))
	ps = append(ps, p)
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	delaunay(ps, t)
	vs.Cover("done")
}
