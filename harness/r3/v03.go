package r3

import vs "geGoMetry/verifsym"

func vbetween(x, a, b float64) bool {
	return x >= a && x <= b || x <= a && x >= b
}

// End points with coordinates k*2^-3, |k| <= 2^20, parameters k*2^-12 in [0,1] (exact arithmetic).
//verif:check V03
func Verif_V03_affine() {
	const R = 1 << 20
	a, b := vgrid("a", -R, R, -3), vgrid("b", -R, R, -3)
	t := vs.Grid("t", 0, 1<<12, -12)
	a0, b0 := a, b
	p := Interpolate(&a, &b, t)
	vs.Assert(a == a0 && b == b0, "operands-unchanged")
	vs.Assert(p.X-a.X == t*(b.X-a.X) && p.Y-a.Y == t*(b.Y-a.Y) && p.Z-a.Z == t*(b.Z-a.Z), "affine-combination")
	vs.Assert(vbetween(p.X, a.X, b.X), "in-the-box-x")
	vs.Assert(vbetween(p.Y, a.Y, b.Y), "in-the-box-y")
	vs.Assert(vbetween(p.Z, a.Z, b.Z), "in-the-box-z")
	q := a.GetInterpolationVector(b, t)
	r := a.GetInterpolationVector(b, 1-t)
	vs.Assert(q.X-b.X == t*(a.X-b.X) && q.Y-b.Y == t*(a.Y-b.Y) && q.Z-b.Z == t*(a.Z-b.Z), "affine-combination-from-the-second")
	vs.Assert(r == p, "functions-agree")
	vs.Assert(Interpolate(&a, &b, 0) == a && Interpolate(&a, &b, 1) == b, "end-points")
	vs.Assert(a.GetInterpolationVector(b, 1) == a && a.GetInterpolationVector(b, 0) == b, "end-points-second")
	vs.Cover("end")
}

// Parameters of any size and points of any scale: end points with coordinates k*2^e, |k| <= 2^12, e one of -60, -20, 0
// and 60, parameters k*2^-10, |k| <= 2^14, and k*2^-25, |k| <= 2^14 (exact arithmetic).
//verif:check V03
func Verif_V03_scales() {
	const R = 1 << 12
	ex := []int{-60, -20, 0, 60}[vs.Concretize(vs.Int("e", 0, 3))]
	a, b := vgrid("a", -R, R, ex), vgrid("b", -R, R, ex)
	t := vs.Grid("t", -1<<14, 1<<14, []int{-10, -25}[vs.Concretize(vs.Int("te", 0, 1))])
	p := Interpolate(&a, &b, t)
	vs.Assert(p.X-a.X == t*(b.X-a.X) && p.Y-a.Y == t*(b.Y-a.Y) && p.Z-a.Z == t*(b.Z-a.Z), "affine-combination")
	q := a.GetInterpolationVector(b, t)
	vs.Assert(q.X-b.X == t*(a.X-b.X) && q.Y-b.Y == t*(a.Y-b.Y) && q.Z-b.Z == t*(a.Z-b.Z), "affine-combination-from-the-second")
	vs.Assert(a.GetInterpolationVector(b, 1-t) == p, "functions-agree")
	vs.Cover("end")
}
