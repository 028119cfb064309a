package nurbs

import (
	vs "geGoMetry/verifsym"
)

// Degrees 1 to 3 (thorough: 5), up to 3 (thorough: 5) control points more than the degree, integer knots up to 2^40 and any 64-bit
// float parameter of the range.
//verif:check N01 ieee steps=200000
func Verif_N01_float() {
	p := upTo("p", 1, 3, 5)
	n := vs.Concretize(vs.Int("n", p, p+3+2*vs.Tier()))
	m := 100
	if vs.Concretize(vs.Int("wide", 0, 1)) == 1 {
		m = 1 << 40
	}
	U := knots(n, p, m)
	vs.Assume(U[p] < U[p+1] && U[n] < U[n+1])
	u := vs.Float64("u")
	l, r := u >= float64(U[p]), u <= float64(U[n+1])
	vs.Assume(l && r)
	i := findSpan(n, p, u, U)
	vs.Assert(i >= p && i <= n, "the span is in the valid range")
	if i < p || i > n {
		return
	}
	end := u == float64(U[n+1])
	l, r = float64(U[i]) <= u, u < float64(U[i+1])
	vs.Merge(2)
	vs.Assert(end || l && r, "the parameter lies in the span")
	vs.Assert(!end || i == n, "the upper end lies in the last span")
	vs.Cover("done")
}

// Long knot vectors: degree 3, 60 control points with concrete simple, double and triple knots, and
// every parameter of the range on the grid of 2^-10.
//verif:check N01 steps=2000000
func Verif_N01_long() {
	U, n := longKnots(3, 60)
	u := vs.Grid("u", U[3]*1024, U[n+1]*1024, -10)
	i := findSpan(n, 3, u, U)
	vs.Assert(i >= 3 && i <= n, "the span is in the valid range")
	if i < 3 || i > n {
		return
	}
	end := u == float64(U[n+1])
	l, r := float64(U[i]) <= u, u < float64(U[i+1])
	vs.Merge(2)
	vs.Assert(end || l && r, "the parameter lies in the span")
	vs.Assert(!end || i == n, "the upper end lies in the last span")
	vs.Cover("done")
}
