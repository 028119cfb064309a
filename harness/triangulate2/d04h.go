package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// The place of a point on the advancing hull: every pair of finite 64-bit floats as the
// point's offset from the centre, except zero, for tables of 2, 7 and 40 entries.
//verif:check D04 ieee
func Verif_D04_hash() {
	dx, dy := vs.Float64("dx"), vs.Float64("dy")
	fin := dx-dx == 0
	fin2 := dy-dy == 0
	nz := dx != 0
	nz2 := dy != 0
	vs.Assume(fin && fin2)
	vs.Assume(nz || nz2)
	n := []int{2, 7, 40}[vs.Concretize(vs.Int("size", 0, 2))]
	tri := &triangulator{hash: make([]*node, n)}
	k := tri.hashKey(r3.Vector{X: dx, Y: dy})
	vs.Assert(k >= 0 && k < n, "the key is an index of the table")
	vs.Cover("done")
	if math.Abs(dx) > 1e300 {
		vs.Cover("huge")
	}
}
