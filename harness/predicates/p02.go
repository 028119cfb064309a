package predicates

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// All five points with coordinates k*2^-2, |k| <= 2^8, for which every operation is exact.
//verif:check P02
func Verif_P02_determinant() {
	const R = 1 << 8
	a, b, c, d, e := vgrid("a", -R, R, -2), vgrid("b", -R, R, -2), vgrid("c", -R, R, -2), vgrid("d", -R, R, -2), vgrid("e", -R, R, -2)
	got := InSphereFast(a, b, c, d, e)
	ref := -det5([5]r3.Vector{a, b, c, d, e})
	vs.Assert(got == ref, "insphere-is-the-determinant")
	vs.Assert((got > 0) == (ref > 0), "sign-positive")
	vs.Assert((got < 0) == (ref < 0), "sign-negative")
	vs.Assert(InSphereFast(b, a, c, d, e) == -got, "antisymmetric")
	vs.Cover("end")
}

// Tetrahedra inscribed in a sphere of a known centre (4 choices of vertices, both orientations, 3 centres) and every
// integer point up to 2^7: the value is minus six times the signed volume times the power of the point, so its sign tells inside, on and outside, relative to the orientation.
//verif:check P02
func Verif_P02_sphere() {
	// integer points with |p|^2 = 81 around the centre
	pts := []r3.Vector{{1, 4, 8}, {-8, 1, 4}, {4, -8, 1}, {-4, -4, -7}, {9, 0, 0}, {0, -9, 0}, {6, 6, 3}, {-3, 6, -6}}
	ctr := []r3.Vector{{0, 0, 0}, {32, -7, 64}, {-0.5, 100, 3}}[vs.Concretize(vs.Int("ctr", 0, 2))]
	i := vs.Concretize(vs.Int("i", 0, 3))
	q := [4]r3.Vector{r3.Add(pts[i], ctr), r3.Add(pts[i+1], ctr), r3.Add(pts[(i+2)%8], ctr), r3.Add(pts[i+4], ctr)}
	if vs.Bool("swap") {
		q[0], q[1] = q[1], q[0]
	}
	e := vgrid("e", -1<<7, 1<<7, 0)
	got := InSphereFast(q[0], q[1], q[2], q[3], e)
	o := det4(q[0], q[1], q[2], q[3])
	vs.Assume(o != 0)
	f := r3.Sub(e, ctr)
	in := 81 - (f.X*f.X + f.Y*f.Y + f.Z*f.Z)
	// the predicate's sign convention: with orient3d > 0 a point inside gives a negative value
	vs.Assert(got == -o*in, "power-of-the-point-times-the-volume")
	vs.Cover("end")
}

// All five points with coordinates k*2^e, |k| <= 2^8, e one of -100, -40, -11, 30 and 90, moved by a
// vector up to 2^30 times as long or not.
//verif:check P02
func Verif_P02_scales() {
	const R = 1 << 8
	ex := []int{-40, -100, 30, 90, -11}[vs.Concretize(vs.Int("e", 0, 4))]
	p := [5]r3.Vector{vgrid("a", -R, R, ex), vgrid("b", -R, R, ex), vgrid("c", -R, R, ex), vgrid("d", -R, R, ex), vgrid("e", -R, R, ex)}
	ref := -det5(p)
	if vs.Bool("moved") {
		o := r3.Vector{X: math.Ldexp(-1, ex+38), Y: math.Ldexp(3, ex+36), Z: math.Ldexp(-5, ex+35)}
		for i := range p {
			p[i] = r3.Add(p[i], o)
		}
	}
	got := InSphereFast(p[0], p[1], p[2], p[3], p[4])
	vs.Assert(got == ref, "insphere-is-the-determinant")
	vs.Assert((got > 0) == (ref > 0), "sign-positive")
	vs.Assert((got < 0) == (ref < 0), "sign-negative")
	vs.Cover("end")
}
