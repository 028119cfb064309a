package r3

import vs "geGoMetry/verifsym"

// All vectors with coordinates k*2^-4, |k| <= 2^20 (exact arithmetic), factors k*2^-4, |k| <= 2^20.
//verif:check V01
func Verif_V01_algebra() {
	const R = 1 << 20
	a, b := vgrid("a", -R, R, -4), vgrid("b", -R, R, -4)
	f := vs.Grid("f", -R, R, -4)
	a0, b0 := a, b
	add, sub, sc := Add(a, b), Sub(a, b), a.Scaled(f)
	vs.Assert(add.X == a.X+b.X && add.Y == a.Y+b.Y && add.Z == a.Z+b.Z, "sum")
	vs.Assert(sub.X == a.X-b.X && sub.Y == a.Y-b.Y && sub.Z == a.Z-b.Z, "difference")
	vs.Assert(sc.X == a.X*f && sc.Y == a.Y*f && sc.Z == a.Z*f, "scaling")
	vs.Assert(Dot(a, b) == a.X*b.X+a.Y*b.Y+a.Z*b.Z, "dot")
	vs.Assert(Dot(a, b) == Dot(b, a), "dot-symmetric")
	vs.Assert(a.Norm2() == Dot(a, a) && a.SquaredMagnitude() == Dot(a, a), "squared-norm")
	vs.Assert(SquaredDistance(a, b) == sub.X*sub.X+sub.Y*sub.Y+sub.Z*sub.Z, "squared-distance")
	vs.Assert(SquaredDistance(b, a) == SquaredDistance(a, b), "distance-symmetric")
	ab := Abs(a)
	vs.Assert(ab.X == vabs(a.X) && ab.Y == vabs(a.Y) && ab.Z == vabs(a.Z), "absolute-value")
	vs.Assert(a == a0 && b == b0, "operands-unchanged")
	w := a
	w.Add(b)
	vs.Assert(w == add && b == b0, "updating-sum")
	w = a
	w.Sub(b)
	vs.Assert(w == sub && b == b0, "updating-difference")
	w = a
	p := w.Scale(f)
	vs.Assert(w == sc && p == &w, "updating-scaling")
	w = a
	w.Abs()
	vs.Assert(w == ab, "updating-absolute-value")
	vs.Cover("end")
}

// All vectors with coordinates k*2^-3, |k| <= 2^11 (all products exact).
//verif:check V01
func Verif_V01_cross() {
	const R = 1 << 11
	a, b := vgrid("a", -R, R, -3), vgrid("b", -R, R, -3)
	a0, b0 := a, b
	c, d := Cross(a, b), Cross(b, a)
	vs.Assert(c.X == a.Y*b.Z-a.Z*b.Y && c.Y == a.Z*b.X-a.X*b.Z && c.Z == a.X*b.Y-a.Y*b.X, "definition")
	vs.Assert(c.X == -d.X && c.Y == -d.Y && c.Z == -d.Z, "antisymmetric")
	vs.Assert(Dot(c, a) == 0 && Dot(c, b) == 0, "orthogonal")
	vs.Assert(Dot(c, c) == Dot(a, a)*Dot(b, b)-Dot(a, b)*Dot(a, b), "lagrange")
	vs.Assert(a == a0 && b == b0, "operands-unchanged")
	vs.Cover("end")
}

// All vectors with coordinates k*2^-3, |k| <= 2^20, and their offsets.
//verif:check V01 relerr
func Verif_V01_norm() {
	const R = 1 << 20
	// every pair: the second point is given by its offset from the first
	a, o := vgrid("a", -R, R, -3), vgrid("o", -R, R, -3)
	b := Vector{a.X + o.X, a.Y + o.Y, a.Z + o.Z}
	n, m, d, e := a.Norm(), a.Magnitude(), Distance(a, b), Distance(b, a)
	n2, d2 := a.X*a.X+a.Y*a.Y+a.Z*a.Z, o.X*o.X+o.Y*o.Y+o.Z*o.Z
	vs.Assert(n >= 0 && vabs(n*n-n2) <= 1e-12*n2, "norm")
	vs.Assert(m >= 0 && vabs(m*m-n2) <= 1e-12*n2, "magnitude")
	vs.Assert(d >= 0 && vabs(d*d-d2) <= 1e-12*d2, "distance")
	vs.Assert(e >= 0 && vabs(e*e-d2) <= 1e-12*d2, "distance-reversed")
	vs.Assert((n == 0) == (a == Vector{}), "zero-norm")
	vs.Assert((d == 0) == (o == Vector{}), "zero-distance")
	vs.Cover("end")
}

// The same identities at other scales: coordinates k*2^e, |k| <= 2^11, e one of -13, -40, -80, -120, 30 and 100, each
// vector with its own scale for the products; the factors of a scaling k*2^-30 and k*2^20.
//verif:check V01
func Verif_V01_scales() {
	const R = 1 << 11
	exs := []int{-13, -40, -80, -120, 30, 100}
	e := exs[vs.Concretize(vs.Int("e", 0, len(exs)-1))]
	g := exs[vs.Concretize(vs.Int("g", 0, len(exs)-1))]
	a, b, o := vgrid("a", -R, R, e), vgrid("b", -R, R, g), vgrid("o", -R, R, e)
	c, d := Cross(a, b), Cross(b, a)
	vs.Assert(c.X == a.Y*b.Z-a.Z*b.Y && c.Y == a.Z*b.X-a.X*b.Z && c.Z == a.X*b.Y-a.Y*b.X, "definition")
	vs.Assert(c.X == -d.X && c.Y == -d.Y && c.Z == -d.Z, "antisymmetric")
	vs.Assert(Dot(c, a) == 0 && Dot(c, b) == 0, "orthogonal")
	vs.Assert(Dot(a, b) == a.X*b.X+a.Y*b.Y+a.Z*b.Z && Dot(b, a) == Dot(a, b), "dot")
	f := vs.Grid("f", -R, R, []int{-30, 20}[vs.Concretize(vs.Int("fe", 0, 1))])
	add, sub, sc := Add(a, o), Sub(a, o), a.Scaled(f)
	vs.Assert(add.X == a.X+o.X && add.Y == a.Y+o.Y && add.Z == a.Z+o.Z, "sum")
	vs.Assert(sub.X == a.X-o.X && sub.Y == a.Y-o.Y && sub.Z == a.Z-o.Z, "difference")
	vs.Assert(sc.X == a.X*f && sc.Y == a.Y*f && sc.Z == a.Z*f, "scaling")
	n2 := a.X*a.X + a.Y*a.Y + a.Z*a.Z
	vs.Assert(a.Norm2() == n2 && a.SquaredMagnitude() == n2, "squared-norm")
	vs.Assert(SquaredDistance(a, o) == sub.X*sub.X+sub.Y*sub.Y+sub.Z*sub.Z, "squared-distance")
	ab := Abs(a)
	vs.Assert(ab.X == vabs(a.X) && ab.Y == vabs(a.Y) && ab.Z == vabs(a.Z), "absolute-value")
	w := a
	w.Add(o)
	vs.Assert(w == add, "updating-sum")
	w = a
	w.Sub(o)
	vs.Assert(w == sub, "updating-difference")
	w = a
	w.Scale(f)
	vs.Assert(w == sc, "updating-scaling")
	w = a
	w.Abs()
	vs.Assert(w == ab, "updating-absolute-value")
	vs.Cover("end")
}

// Norms and distances at other scales: coordinates k*2^e, |k| <= 2^20, e one of -25, -50, -120, 30 and 120.
//verif:check V01 relerr
func Verif_V01_normscales() {
	const R = 1 << 20
	ex := []int{-25, -50, -120, 30, 120}[vs.Concretize(vs.Int("e", 0, 4))]
	a, o := vgrid("a", -R, R, ex), vgrid("o", -R, R, ex)
	b := Vector{a.X + o.X, a.Y + o.Y, a.Z + o.Z}
	n, m, d, e := a.Norm(), a.Magnitude(), Distance(a, b), Distance(b, a)
	n2, d2 := a.X*a.X+a.Y*a.Y+a.Z*a.Z, o.X*o.X+o.Y*o.Y+o.Z*o.Z
	vs.Assert(n >= 0 && vabs(n*n-n2) <= 1e-12*n2, "norm")
	vs.Assert(m >= 0 && vabs(m*m-n2) <= 1e-12*n2, "magnitude")
	vs.Assert(d >= 0 && vabs(d*d-d2) <= 1e-12*d2, "distance")
	vs.Assert(e >= 0 && vabs(e*e-d2) <= 1e-12*d2, "distance-reversed")
	vs.Assert((n == 0) == (a == Vector{}), "zero-norm")
	vs.Assert((d == 0) == (o == Vector{}), "zero-distance")
	vs.Cover("end")
}
