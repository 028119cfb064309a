package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: 33 (thorough: also 100) concrete points and one with any finite 64-bit coordinates, in one of four places.
//verif:check T01 ieee steps=5000000
func Verif_T01_many() {
	n := []int{33, 100}[vs.Concretize(vs.Int("n", 0, vs.Tier()))]
	ps := scatter(n, 1000, 3)
	ps[vs.Concretize(vs.Int("at", 0, 3))*(n-1)/3] = finite("p")
	given := append([]r3.Vector(nil), ps...)
	vs.Merge(2)
	lo, hi := computeBoundingBoxForVectors(given)
	a, b := computeExtremitiesForAxeX(given)
	los, his := []float64{lo.X, lo.Y, lo.Z}, []float64{hi.X, hi.Y, hi.Z}
	for k := range los {
		inside, touchLo, touchHi := true, false, false
		for _, p := range ps {
			c := []float64{p.X, p.Y, p.Z}[k]
			e1, e2, e3, e4 := los[k] <= c, c <= his[k], los[k] == c, c == his[k]
			inside = inside && e1 && e2
			touchLo, touchHi = touchLo || e3, touchHi || e4
		}
		vs.Assert(inside, "no point lies outside the box")
		vs.Assert(touchLo && touchHi, "every side of the box touches a point")
	}
	vs.Assert(member(a, ps) && member(b, ps), "the extreme points are points of the list")
	e1, e2 := a.X == lo.X, b.X == hi.X
	vs.Assert(e1 && e2, "no point lies beyond the extreme ones")
	vs.Cover("done")
}
