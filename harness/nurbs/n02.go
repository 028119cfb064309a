package nurbs

import (
	vs "geGoMetry/verifsym"
)

func basis(p, g int, split bool) {
	U := spanKnots(p, g, split)
	var u float64
	if split {
		u = vs.Grid("u", U[p]*1024, U[p+1]*1024, -10)
	} else {
		u = float64(U[p]) + vs.Grid("u", 0, g*1024, -10)
		vs.Assume(u <= float64(U[p+1]))
	}
	basisOn(p, U, u)
}

func basisOn(p int, U []int, u float64) {
	N := basisFuns(2+p, u, p, padded(U))
	vs.Assert(len(N) == p+1, "one value per basis function of the span")
	if len(N) != p+1 {
		return
	}
	sum := 0.0
	nonneg, equal := true, true
	vs.Merge(2)
	for j := 0; j <= p; j++ {
		sum += N[j]
		nonneg = nonneg && N[j] >= -1e-7
		equal = equal && tolerable(N[j]-coxDeBoor(j, p, p, u, U))
	}
	vs.Assert(nonneg, "no basis function is negative")
	vs.Assert(tolerable(sum-1), "the basis functions sum to one")
	vs.Assert(equal, "the basis functions are those of the recursion")
	vs.Cover("done")
}

// Degree 1: every vector of knots with gaps up to 1000 and every parameter of its span on the grid of 2^-10.
//verif:check N02
func Verif_N02_linear() {
	basis(1, 1000, false)
}

// Degree 2: the same with gaps up to 6 (thorough: 8).
//verif:check N02
func Verif_N02_quadratic() {
	basis(2, 6+2*vs.Tier(), false)
}

// Degree 3: the same with gaps up to 2 (thorough: 3), split into cases.
//verif:check N02
func Verif_N02_cubic() {
	basis(3, 2+vs.Tier(), true)
}

// Degree 4: the same with gaps up to 1 (thorough: 2), split into cases.
//verif:check N02
func Verif_N02_quartic() {
	basis(4, 1+vs.Tier(), true)
}

// Degrees 5 to 7 (thorough: 10): four concrete knot vectors - equidistant, clamped, with double knots, with growing gaps - and every
// parameter of the span on the grid of 2^-10.
//verif:check N02
func Verif_N02_high() {
	p := 4 + upTo("degree", 1, 3, 6)
	U := highKnots(p)
	basisOn(p, U, vs.Grid("u", U[p]*1024, U[p+1]*1024, -10))
}
