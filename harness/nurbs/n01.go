package nurbs

import (
	vs "geGoMetry/verifsym"
)

// Degrees up to 4 (thorough: 8), up to 7 (thorough: 15) control points more than the degree, every non-decreasing integer knot vector with
// entries up to 100 whose valid range is bounded by non-empty spans, and every parameter of the range on the
// grid of 2^-10.
//verif:check N01 steps=200000
func Verif_N01_span() {
	p := upTo("p", 1, 4, 8)
	n := vs.Concretize(vs.Int("n", p, p+6+8*vs.Tier()))
	U := knots(n, p, 100)
	vs.Assume(U[p] < U[p+1] && U[n] < U[n+1])
	u := vs.Grid("u", -100*1024, 100*1024, -10)
	vs.Assume(u >= float64(U[p]) && u <= float64(U[n+1]))
	var i int
	i = findSpan(n, p, u, U)
	vs.Assert(i >= p && i <= n, "the span is in the valid range")
	if i < 0 || i+1 >= len(U) {
		return
	}
	end := u == float64(U[n+1])
	l, r := float64(U[i]) <= u, u < float64(U[i+1])
	vs.Merge(2)
	vs.Assert(end || l && r, "the parameter lies in the span")
	vs.Assert(!end || i == n, "the upper end lies in the last span")
	vs.Cover("done")
	if end {
		vs.Cover("upper end")
	}
}
