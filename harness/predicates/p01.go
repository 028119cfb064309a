package predicates

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// All points with coordinates k*2^-3, |k| <= 2^15, for which every operation of the predicate is exact.
//verif:check P01
func Verif_P01_determinant() {
	const R = 1 << 15
	a, b, c, d := vgrid("a", -R, R, -3), vgrid("b", -R, R, -3), vgrid("c", -R, R, -3), vgrid("d", -R, R, -3)
	det := orient3dfast(a, b, c, d)
	// the determinant expanded by minors of the 4x4 matrix with rows (x,y,z,1), not by the code's translation to d
	ref := det4(a, b, c, d)
	vs.Assert(det == ref, "orient3d-is-the-determinant")
	vs.Assert((det > 0) == (ref > 0), "positive-side")
	vs.Assert((det < 0) == (ref < 0), "negative-side")
	vs.Assert(orient3dfast(b, a, c, d) == -det, "antisymmetric-ab")
	vs.Assert(orient3dfast(a, c, b, d) == -det, "antisymmetric-bc")
	vs.Assert(orient3dfast(a, b, d, c) == -det, "antisymmetric-cd")
	vs.Cover("end")
}

// The same at other scales: coordinates k*2^e, |k| <= 2^15, with e = -1, -20, -60, -110, 40 or 100 on all axes or different
// ones on each, and all four points moved by a vector up to 2^25 times the largest coordinate.
//verif:check P01
func Verif_P01_scales() {
	const R = 1 << 15
	exs := [][3]int{{-1, -1, -1}, {-20, -20, -20}, {-60, -60, -60}, {-110, -110, -110}, {40, 40, 40}, {100, 100, 100}, {-30, 20, 5}, {10, -50, -50}, {0, 0, -80}}
	ex := exs[vs.Concretize(vs.Int("e", 0, len(exs)-1))]
	a, b, c, d := vgrid3("a", -R, R, ex), vgrid3("b", -R, R, ex), vgrid3("c", -R, R, ex), vgrid3("d", -R, R, ex)
	ref := det4(a, b, c, d)
	var o r3.Vector
	if vs.Bool("moved") {
		o = r3.Vector{X: math.Ldexp(-1, ex[0]+40), Y: math.Ldexp(3, ex[1]+38), Z: math.Ldexp(-5, ex[2]+37)}
	}
	det := orient3dfast(r3.Add(a, o), r3.Add(b, o), r3.Add(c, o), r3.Add(d, o))
	vs.Assert(det == ref, "orient3d-is-the-determinant")
	vs.Assert((det > 0) == (ref > 0), "positive-side")
	vs.Assert((det < 0) == (ref < 0), "negative-side")
	vs.Cover("end")
}
