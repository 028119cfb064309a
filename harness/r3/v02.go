package r3

import (
	"math"

	vs "geGoMetry/verifsym"
)

// All vectors with coordinates k*2^e, |k| <= 2^25, e one of -40, -24, 0, 30.
//verif:check V02 relerr
func Verif_V02_normalize() {
	const R = 1 << 25
	ex := []int{-40, -24, 0, 30}[vs.Concretize(vs.Int("e", 0, 3))]
	v := vgrid("v", -R, R, ex)
	v0 := v
	u := Normalize(v)
	vs.Assert(v == v0, "operand-unchanged")
	w := v
	p := w.Normalize()
	vs.Assert(p == &w, "returns-its-receiver")
	if v == (Vector{}) {
		vs.Assert(u == Vector{}, "zero")
		vs.Assert(w == Vector{}, "zero-in-place")
		vs.Cover("zero")
		return
	}
	l := u.X*u.X + u.Y*u.Y + u.Z*u.Z
	vs.Assert(l >= 1-1e-12 && l <= 1+1e-12, "unit-length")
	k := w.X*w.X + w.Y*w.Y + w.Z*w.Z
	vs.Assert(k >= 1-1e-12 && k <= 1+1e-12, "unit-length-in-place")
	vs.Assert(u.IsUnit(), "is-unit")
	vs.Assert(w.IsUnit(), "is-unit-in-place")
	vs.Assert(v.X*u.X >= 0 && v.Y*u.Y >= 0 && v.Z*u.Z >= 0, "same-octant")
	vs.Cover("nonzero")
}

// The direction of the normalised vector and the agreement of the two forms: all vectors with integer coordinates up to 2^12.
//verif:check V02 relerr
func Verif_V02_direction() {
	const R = 1 << 12
	v := vgrid("v", -R, R, 0)
	vs.Assume(v.X != 0 || v.Y != 0 || v.Z != 0)
	u := Normalize(v)
	w := v
	w.Normalize()
	m := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z)
	vs.Assert(vabs(u.X*v.Y-u.Y*v.X) <= 1e-12*m, "parallel-xy")
	vs.Assert(vabs(u.Y*v.Z-u.Z*v.Y) <= 1e-12*m, "parallel-yz")
	vs.Assert(vabs(u.Z*v.X-u.X*v.Z) <= 1e-12*m, "parallel-zx")
	vs.Assert(vabs(u.X-w.X) <= 1e-12 && vabs(u.Y-w.Y) <= 1e-12 && vabs(u.Z-w.Z) <= 1e-12, "forms-agree")
	vs.Cover("end")
}

// All vectors with coordinates k*2^-24, |k| <= 2^25.
//verif:check V02 relerr
func Verif_V02_isunit() {
	v := vgrid("v", -1<<25, 1<<25, -24)
	l := v.X*v.X + v.Y*v.Y + v.Z*v.Z
	u := v.IsUnit()
	if l < (1-1e-6)*(1-1e-6) || l > (1+1e-6)*(1+1e-6) {
		vs.Assert(!u, "rejects-other-lengths")
		vs.Cover("not-unit")
	}
	if l == 1 {
		vs.Assert(u, "accepts-length-one")
		vs.Cover("unit")
	}
}
