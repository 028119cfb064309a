package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// Long lists: 33 (thorough: also 100) concrete points and one with any finite 64-bit coordinates, in one of four places.
//verif:check B01 ieee steps=5000000
func Verif_B01_many() {
	n := []int{33, 100}[vs.Concretize(vs.Int("n", 0, vs.Tier()))]
	ps := scatter(n, 1000, 3)
	v := r3.Vector{X: vs.Float64("p.x"), Y: vs.Float64("p.y"), Z: vs.Float64("p.z")}
	for _, c := range []float64{v.X, v.Y, v.Z} {
		ok := c >= -math.MaxFloat64
		ok2 := c <= math.MaxFloat64
		vs.Assume(ok && ok2)
	}
	ps[vs.Concretize(vs.Int("at", 0, 3))*(n-1)/3] = v
	vs.Merge(2)
	h := helper{}
	h.findExtremas(append([]r3.Vector(nil), ps...)...)
	los, his := []float64{h.min.X, h.min.Y, h.min.Z}, []float64{h.max.X, h.max.Y, h.max.Z}
	for k := range los {
		inside, touchLo, touchHi := true, false, false
		for _, p := range ps {
			c := []float64{p.X, p.Y, p.Z}[k]
			e1, e2, e3, e4 := los[k] <= c, c <= his[k], los[k] == c, c == his[k]
			inside = inside && e1 && e2
			touchLo, touchHi = touchLo || e3, touchHi || e4
		}
		vs.Assert(inside, "no coordinate is beyond the extremes")
		vs.Assert(touchLo && touchHi, "the extremes are coordinates of points")
	}
	vs.Cover("done")
}

// Long lists: 24 concrete points of the integer grid [-50,50]^3 and one on one of six lines at any integer position up to
// 1000, in one of three places: the enclosing tetrahedron contains every point.
//verif:check B01 steps=5000000
func Verif_B01_cloud() {
	ps := scatter(24, 50, 4)
	u := linesM[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -1000, 1000, 0)
	ps[vs.Concretize(vs.Int("at", 0, 2))*23/2] = r3.Vector{X: 1 + s*u.X, Y: s * u.Y, Z: s*u.Z - 2}
	encloses(ps)
}
