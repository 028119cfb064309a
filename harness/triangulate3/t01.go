package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// One to four (thorough: six) points with any finite 64-bit coordinates: every coordinate of the
// lower corner is the smallest one of the points and every coordinate of the upper corner the largest.
//verif:check T01 ieee
func Verif_T01_box() {
	n := upTo("n", 1, 4, 6)
	ps := make([]r3.Vector, n)
	for i := range ps {
		ps[i] = finite("p" + digit(i))
	}
	vs.Merge(2)
	lo, hi := computeBoundingBoxForVectors(ps)
	los, his := []float64{lo.X, lo.Y, lo.Z}, []float64{hi.X, hi.Y, hi.Z}
	for k := range los {
		below, above, touchLo, touchHi := true, true, false, false
		for _, p := range ps {
			c := []float64{p.X, p.Y, p.Z}[k]
			e1, e2, e3, e4 := los[k] <= c, c <= his[k], los[k] == c, c == his[k]
			below, above = below && e1, above && e2
			touchLo, touchHi = touchLo || e3, touchHi || e4
		}
		vs.Assert(below, "no point lies below the box")
		vs.Assert(above, "no point lies above the box")
		vs.Assert(touchLo && touchHi, "every side of the box touches a point")
	}
	vs.Cover("done")
}

// One to four (thorough: five) points with any finite 64-bit coordinates: the extreme points along X
// are points of the list, and no X is smaller or larger than theirs.
//verif:check T01 ieee
func Verif_T01_extremes() {
	n := upTo("n", 1, 4, 5)
	ps := make([]r3.Vector, n)
	for i := range ps {
		ps[i] = finite("p" + digit(i))
	}
	vs.Merge(2)
	lo, hi := computeExtremitiesForAxeX(ps)
	vs.Assert(member(lo, ps) && member(hi, ps), "the extreme points are points of the list")
	ok := true
	for _, p := range ps {
		e1, e2 := lo.X <= p.X, p.X <= hi.X
		ok = ok && e1 && e2
	}
	vs.Assert(ok, "no point lies beyond the extreme ones")
	vs.Cover("done")
}
