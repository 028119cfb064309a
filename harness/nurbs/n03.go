package nurbs

import (
	vs "geGoMetry/verifsym"
)

// derivative is the k-th derivative at u of the basis function of degree p that starts at knot i, by the recursion,
// for a u in the non-empty span s.
func derivative(k, i, p, s int, u float64, U []int) float64 {
	if k == 0 {
		return coxDeBoor(i, p, s, u, U)
	}
	v := 0.0
	if d := U[i+p] - U[i]; d != 0 {
		v += float64(p) / float64(d) * derivative(k-1, i, p-1, s, u, U)
	}
	if d := U[i+p+1] - U[i+1]; d != 0 {
		v -= float64(p) / float64(d) * derivative(k-1, i+1, p-1, s, u, U)
	}
	return v
}

func derivatives(p, g int, split bool) {
	U := spanKnots(p, g, split)
	u := U[p] + vs.Int("u", 0, g)
	vs.Assume(u <= U[p+1])
	derivativesOn(p, U, u)
}

func derivativesOn(p int, U []int, u int) {
	n := vs.Concretize(vs.Int("order", 0, p))
	D := dersBasisFuns(2+p, u, p, n, padded(U))
	vs.Assert(len(D) >= n+1, "one row per derivative")
	if len(D) < n+1 {
		return
	}
	vs.Merge(2)
	wide, zeroth, kth, sums := true, true, true, true
	for k := 0; k <= n; k++ {
		if len(D[k]) < p+1 {
			wide = false
			continue
		}
		sum := 0.0
		for j := 0; j <= p; j++ {
			sum += D[k][j]
			ok := tolerable(D[k][j] - derivative(k, j, p, p, float64(u), U))
			if k == 0 {
				zeroth = zeroth && ok
			} else {
				kth = kth && ok
			}
		}
		if k > 0 {
			sums = sums && tolerable(sum)
		}
	}
	vs.Assert(wide, "one value per basis function of the span")
	vs.Assert(zeroth, "the zeroth row is the basis functions")
	vs.Assert(kth, "the other rows are the derivatives of the recursion")
	vs.Assert(sums, "every row of derivatives sums to zero")
	vs.Cover("done")
}

// Degree 1: every vector of knots with gaps up to 1000 and every integer parameter of its span.
//verif:check N03
func Verif_N03_linear() {
	derivatives(1, 1000, false)
}

// Degree 2: the same with gaps up to 6 (thorough: 8).
//verif:check N03
func Verif_N03_quadratic() {
	derivatives(2, 6+2*vs.Tier(), false)
}

// Degree 3: the same with gaps up to 2 (thorough: 3), split into cases.
//verif:check N03
func Verif_N03_cubic() {
	derivatives(3, 2+vs.Tier(), true)
}

// Degree 4: the same with gaps up to 1 (thorough: 2), split into cases.
//verif:check N03
func Verif_N03_quartic() {
	derivatives(4, 1+vs.Tier(), true)
}

// Degrees 5 to 7 (thorough: 8): four concrete knot vectors - equidistant, clamped, with double knots, with growing gaps - scaled by
// 1 or 3, and every integer parameter of the span.
//verif:check N03 steps=5000000
func Verif_N03_high() {
	p := 4 + upTo("degree", 1, 3, 4)
	U := highKnots(p)
	f := []int{1, 3}[vs.Concretize(vs.Int("scale", 0, 1))]
	for i := range U {
		U[i] *= f
	}
	derivativesOn(p, U, vs.Int("u", U[p], U[p+1]))
}
