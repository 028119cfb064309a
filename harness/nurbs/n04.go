package nurbs

import (
	vs "geGoMetry/verifsym"

	"github.com/ungerik/go3d/float64/vec3"
)

// polygon is a control polygon of n points whose coordinates are symbolic.
func polygon(n, m int) []vec3.T {
	P := make([]vec3.T, n)
	for i := range P {
		for c := 0; c < 3; c++ {
			P[i][c] = vs.Grid("P"+digit(i)+digit(c), -m*16, m*16, -4)
		}
	}
	return P
}

// curveKnots is a knot vector of n+p+2 integers whose gaps are at most g and whose spans p and n are not empty.
func curveKnots(n, p, g int) []int {
	U := make([]int, n+p+2)
	U[0] = -1
	for k := 1; k < len(U); k++ {
		lo := 0
		if k == p+1 || k == n+1 {
			lo = 1
		}
		U[k] = U[k-1] + vs.Concretize(vs.Int("gap"+digit(k), lo, g))
	}
	return U
}

func curve(p, extra, g int) {
	n := p + vs.Concretize(vs.Int("extra", 0, extra))
	U := curveKnots(n, p, g)
	s := vs.Concretize(vs.Int("span", p, n))
	vs.Assume(U[s] < U[s+1])
	u := vs.Grid("u", U[s]*1024, U[s+1]*1024, -10)
	vs.Assume(s == n || u < float64(U[s+1]))
	P := polygon(n+1, 100)
	C := curvePoint(n, p, U, P, u)
	vs.Merge(2)
	same := true
	for c := 0; c < 3; c++ {
		sum := 0.0
		for j := s - p; j <= s; j++ {
			sum += P[j][c] * coxDeBoor(j, p, s, u, U)
		}
		same = same && tolerable(C[c]-sum)
	}
	vs.Assert(same, "the point is the combination of the control points")
	vs.Cover("done")
	if s > p {
		vs.Cover("later span")
	}
}

// Degree 1, up to 4 control points with coordinates on the grid of 1/16 up to 100, every vector of knots with gaps up
// to 2 and every parameter of its range on the grid of 2^-10.
//verif:check N04
func Verif_N04_linear() {
	curve(1, 2+vs.Tier(), 2)
}

// Degree 2, up to 5 control points, gaps up to 1 (thorough: 2).
//verif:check N04
func Verif_N04_quadratic() {
	curve(2, 2, 1+vs.Tier())
}

// Degree 3, up to 6 control points, gaps up to 1.
//verif:check N04
func Verif_N04_cubic() {
	curve(3, 2, 1)
}

// clamped is a knot vector of n+p+2 integers with p+1 equal ones at both ends.
func clamped(n, p, g int) []int {
	U := make([]int, n+p+2)
	for k := 1; k < len(U); k++ {
		U[k] = U[k-1]
		if k > p && k <= n+1 {
			lo := 0
			if k == p+1 || k == n+1 {
				lo = 1
			}
			U[k] += vs.Concretize(vs.Int("gap"+digit(k), lo, g))
		}
	}
	return U
}

// Degrees up to 3, up to two more control points than the degree needs, clamped knot vectors with gaps up to 2.
//verif:check N04
func Verif_N04_ends() {
	p := vs.Concretize(vs.Int("degree", 1, 3))
	n := p + vs.Concretize(vs.Int("extra", 0, 2))
	U := clamped(n, p, 2)
	P := polygon(n+1, 100)
	first := curvePoint(n, p, U, P, float64(U[p]))
	last := curvePoint(n, p, U, P, float64(U[n+1]))
	vs.Merge(2)
	f, l := true, true
	for c := 0; c < 3; c++ {
		f = f && tolerable(first[c]-P[0][c])
		l = l && tolerable(last[c]-P[n][c])
	}
	vs.Assert(f, "the curve starts at the first control point")
	vs.Assert(l, "the curve ends at the last control point")
	vs.Cover("done")
}

// Degrees 1 and 2, up to 3 control points, gaps up to 2; the coordinates of the points run from 0 to 8.
//verif:check N04
func Verif_N04_box() {
	p := vs.Concretize(vs.Int("degree", 1, 2))
	n := p + vs.Concretize(vs.Int("extra", 0, 1))
	U := curveKnots(n, p, 2-p/2)
	s := vs.Concretize(vs.Int("span", p, n))
	vs.Assume(U[s] < U[s+1])
	u := vs.Grid("u", U[s]*1024, U[s+1]*1024, -10)
	vs.Assume(s == n || u < float64(U[s+1]))
	P := make([]vec3.T, n+1)
	equal := vs.Bool("equal")
	x0 := vs.Grid("x", 0, 8*16, -4)
	for i := range P {
		// points of other spans lie far away
		x := 1000.0
		if i >= s-p && i <= s {
			if equal {
				x = x0
			} else {
				x = vs.Grid("x"+digit(i), 0, 8*16, -4)
			}
		}
		P[i] = vec3.T{x, 8 - x, 3}
	}
	C := curvePoint(n, p, U, P, u)
	vs.Merge(2)
	if equal {
		vs.Assert(tolerable(C[0]-x0) && tolerable(C[1]-(8-x0)) && tolerable(C[2]-3), "equal control points give that point")
		return
	}
	vs.Assert(C[0] >= -1e-7 && C[0] <= 8+1e-7, "the point lies in the bounding box of its control points: x")
	vs.Assert(C[1] >= -1e-7 && C[1] <= 8+1e-7, "the point lies in the bounding box of its control points: y")
	vs.Assert(tolerable(C[2]-3), "the point lies in the bounding box of its control points: z")
	vs.Cover("done")
}

// Long curves: degrees 2 and 3, 30 control points on a concrete space curve but for one, which has coordinates on the grid of 1/16
// up to 100, concrete simple, double and triple knots, and every parameter of the range on the grid of 2^-10.
//verif:check N04 steps=5000000
func Verif_N04_long() {
	p := vs.Concretize(vs.Int("p", 2, 3))
	U, n := longKnots(p, 30)
	u := vs.Grid("u", U[p]*1024, U[n+1]*1024, -10)
	P := make([]vec3.T, n+1)
	for i := range P {
		P[i] = vec3.T{float64(i), float64(i * i % 17), float64(7 - i%5)}
	}
	at := vs.Concretize(vs.Int("at", 0, 3)) * n / 3
	P[at] = polygon(1, 100)[0]
	C := curvePoint(n, p, U, P, u)
	s := p
	for s < n && u >= float64(U[s+1]) {
		s++
	}
	vs.Merge(2)
	same := true
	for c := 0; c < 3; c++ {
		sum := 0.0
		for j := s - p; j <= s; j++ {
			sum += P[j][c] * coxDeBoor(j, p, s, u, U)
		}
		same = same && tolerable(C[c]-sum)
	}
	vs.Assert(same, "the point is the combination of the control points")
	vs.Cover("done")
}
