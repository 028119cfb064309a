package nurbs

import (
	vs "geGoMetry/verifsym"
)

func upTo(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

func digit(i int) string { return string(rune('0' + i)) }

// coxDeBoor is the value at u of the basis function of degree p that starts at knot i, by the definition, for a u in
// the non-empty span s.
func coxDeBoor(i, p, s int, u float64, U []int) float64 {
	if p == 0 {
		if i == s {
			return 1
		}
		return 0
	}
	v := 0.0
	if d := U[i+p] - U[i]; d != 0 {
		v += (u - float64(U[i])) / float64(d) * coxDeBoor(i, p-1, s, u, U)
	}
	if d := U[i+p+1] - U[i+1]; d != 0 {
		v += (float64(U[i+p+1]) - u) / float64(d) * coxDeBoor(i+1, p-1, s, u, U)
	}
	return v
}

// spanKnots is a knot vector of 2p+2 integers, the gaps of which are at most g, and its middle span (p), which is not
// empty. Where split is set, the gaps are split into cases.
func spanKnots(p, g int, split bool) []int {
	U := make([]int, 2*p+2)
	for k := 1; k < len(U); k++ {
		lo := 0
		if k == p+1 {
			lo = 1
		}
		d := vs.Int("gap"+digit(k), lo, g)
		if split {
			d = vs.Concretize(d)
		}
		U[k] = U[k-1] + d
	}
	return U
}

func tolerable(d float64) bool { return d <= 1e-7 && d >= -1e-7 }

// padded has two knots before the ones that matter.
func padded(U []int) []int {
	knots := make([]int, 0, 2+len(U))
	knots = append(knots, U[0]-3, U[0]-2)
	return append(knots, U...)
}

// longKnots is a knot vector for n+1 = m control points with simple, double and triple knots.
func longKnots(p, m int) ([]int, int) {
	n := m - 1
	U := make([]int, n+p+2)
	U[0] = -40
	for k := 1; k < len(U); k++ {
		gap := []int{1, 0, 0, 2, 1, 0, 5, 1, 1}[k%9]
		if (k == p+1 || k == n+1) && gap == 0 {
			gap = 1
		}
		U[k] = U[k-1] + gap
	}
	return U, n
}

// highKnots is one of a few concrete knot vectors of 2p+2 integers the middle span of which is not empty: equidistant, clamped,
// with double knots, or with growing gaps.
func highKnots(p int) []int {
	U := make([]int, 2*p+2)
	kind := vs.Concretize(vs.Int("knots", 0, 3))
	for k := 1; k < len(U); k++ {
		gap := 1
		switch kind {
		case 1:
			gap = 0
		case 2:
			gap = k % 2
		case 3:
			gap = k%4 + k/4
		}
		if k == p+1 && gap == 0 {
			gap = 2
		}
		U[k] = U[k-1] + gap
	}
	return U
}

// knots is a non-decreasing knot vector of n+p+2 symbolic integers from -m to m.
func knots(n, p, m int) []int {
	U := make([]int, n+p+2)
	for i := range U {
		U[i] = vs.Int("U"+string(rune('a'+i)), -m, m)
		if i > 0 {
			vs.Assume(U[i] >= U[i-1])
		}
	}
	return U
}
