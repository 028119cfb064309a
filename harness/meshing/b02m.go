package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: 24 (thorough: 60) concrete points of the integer grid [-20,20]^3 and a query on one of six lines through
// them at any multiple of 1/4 up to 40, or one of the points there and a concrete query.
//verif:check B02 steps=5000000
func Verif_B02_many() {
	n := upTo("n", 24, 24, 24) + 36*vs.Tier()
	ps := scatter(n, 20, 9)
	u := linesM[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -160, 160, -2)
	q := r3.Vector{X: 1 + s*u.X, Y: s * u.Y, Z: s*u.Z - 2}
	at := vs.Concretize(vs.Int("at", 0, 3))
	if at < 3 {
		ps[at*(n-1)/2], q = q, r3.Vector{X: 3, Y: -2, Z: 1}
	}
	var r r3.Vector
	vs.Output(func() { r = getNearestPoint(append([]r3.Vector(nil), ps...), q) })
	vs.Merge(2)
	vs.Assert(member(r, ps), "the result is a point of the list")
	d := dist2(r, q)
	ok := true
	for _, p := range ps {
		e := dist2(p, q) >= d
		ok = ok && e
	}
	vs.Assert(ok, "no point of the list is closer")
	vs.Cover("done")
}
