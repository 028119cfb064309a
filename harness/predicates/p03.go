package predicates

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

func filtered(a, b, c, d, e r3.Vector) float64 {
	return inSphere(a.X, a.Y, a.Z, b.X, b.Y, b.Z, c.X, c.Y, c.Z, d.X, d.Y, d.Z, e.X, e.Y, e.Z)
}

// permanent is the sum of the magnitudes of the products in the determinant.
func vpermanent(a, b, c, d, e r3.Vector) float64 {
	p := [4]r3.Vector{r3.Sub(a, e), r3.Sub(b, e), r3.Sub(c, e), r3.Sub(d, e)}
	s := 0.
	for i := 0; i < 4; i++ {
		var q [3]r3.Vector
		n := 0
		for j := 0; j < 4; j++ {
			if j != i {
				q[n] = p[j]
				n++
			}
		}
		m := math.Abs(q[0].Z)*(math.Abs(q[1].X*q[2].Y)+math.Abs(q[2].X*q[1].Y)) +
			math.Abs(q[1].Z)*(math.Abs(q[0].X*q[2].Y)+math.Abs(q[2].X*q[0].Y)) +
			math.Abs(q[2].Z)*(math.Abs(q[0].X*q[1].Y)+math.Abs(q[1].X*q[0].Y))
		s += m * (p[i].X*p[i].X + p[i].Y*p[i].Y + p[i].Z*p[i].Z)
	}
	return s
}

// Six concrete tetrahedra (regular, general, flat, tiny, large and lopsided ones) and every fifth point on the grid k*2^-2, |k| <= 2^8.
//verif:check P03 big=5
func Verif_P03_filter() {
	ts := [][4]r3.Vector{
		{{1, 4, 8}, {-8, 1, 4}, {4, -8, 1}, {-4, -4, -7}},
		{{63, -60, 41}, {-64, 37, 55}, {59, 61, -62}, {-53, -64, -47}},
		{{64, 0, 1}, {-64, 1, 0}, {0, 64, 0}, {1, -64, 0}},
		{{0, 0, 0}, {0.25, 0, 0}, {0, 0.25, 0}, {0, 0, 0.25}},
		{{64, 64, 64}, {64, -64, -64}, {-64, 64, -64}, {-63.75, -64, 64}},
		{{-64, 0.25, 3}, {-63.75, 0.5, 3}, {-63.5, 1, 3.25}, {64, 0, 0}},
	}
	t := ts[vs.Concretize(vs.Int("t", 0, len(ts)-1))]
	a, b, c, d := t[0], t[1], t[2], t[3]
	e := vgrid("e", -1<<8, 1<<8, -2)
	got := filtered(a, b, c, d, e)
	det := InSphereFast(a, b, c, d, e)
	bound := (16 + 224*1.1102230246251565e-16) * 1.1102230246251565e-16 * vpermanent(a, b, c, d, e)
	const slack = 1e-6 // the determinant is a multiple of 2^-10
	vs.Assert(got == det || got == 0, "determinant-or-zero")
	if got == 0 {
		vs.Assert(det <= bound+slack && -det <= bound+slack, "zero-only-within-the-bound")
		vs.Cover("zero")
	} else {
		vs.Assert(det >= bound-slack || -det >= bound-slack, "answer-only-beyond-the-bound")
		vs.Cover("answer")
	}
}

// Nearly degenerate configurations around the filter's threshold: two points p, q almost in line with the fifth in the
// xy plane (their cross product is the difference of two products near 2^46 or 2^47), two points on the z axis through
// it at every height up to 12, for every assignment of these roles to the four points, mirrored or not, and three
// positions of the whole.
//verif:check P03
func Verif_P03_threshold() {
	pq := [][4]float64{{14930352, 9227465, 9227465, 5702887}, {24157817, 14930352, 14930352, 9227465}, {9227465, 14930352, 24157817, 39088169}}
	f := pq[vs.Concretize(vs.Int("scale", 0, 2))]
	s := 1.
	if vs.Bool("mirror") {
		s = -1
	}
	p, q := r3.Vector{X: s * f[0], Y: f[1]}, r3.Vector{X: s * f[2], Y: f[3]}
	r, u := r3.Vector{Z: vs.Grid("zr", -12, 12, 0)}, r3.Vector{Z: vs.Grid("zs", -12, 12, 0)}
	perms := [][4]int{{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 2, 3, 1}, {2, 0, 1, 3}, {2, 0, 3, 1}, {2, 3, 0, 1}}
	pe := perms[vs.Concretize(vs.Int("roles", 0, 5))]
	v := [4]r3.Vector{p, q, r, u}
	o := []r3.Vector{{}, {X: 1 << 20, Y: -1 << 19, Z: 5}, {X: -3, Y: 7, Z: -1 << 10}}[vs.Concretize(vs.Int("origin", 0, 2))]
	a, b, c, d := r3.Add(v[pe[0]], o), r3.Add(v[pe[1]], o), r3.Add(v[pe[2]], o), r3.Add(v[pe[3]], o)
	got := filtered(a, b, c, d, o)
	det := -det5([5]r3.Vector{v[pe[0]], v[pe[1]], v[pe[2]], v[pe[3]], {}})
	bound := (16 + 224*1.1102230246251565e-16) * 1.1102230246251565e-16 * vpermanent(a, b, c, d, o)
	vs.Assert(got == det || got == 0, "determinant-or-zero")
	if got == 0 {
		vs.Assert(det <= bound*(1+1e-9)+1e-9 && -det <= bound*(1+1e-9)+1e-9, "zero-only-within-the-bound")
		vs.Cover("zero")
	} else {
		vs.Assert(det >= bound*(1-1e-9)-1e-9 || -det >= bound*(1-1e-9)-1e-9, "answer-only-beyond-the-bound")
		vs.Cover("answer")
	}
}
