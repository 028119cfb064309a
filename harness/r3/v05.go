package r3

import vs "geGoMetry/verifsym"

// Planes n.x + d = 0 with integer normals up to 2^8 and distances k*2^-2 up to 2^10, points k*2^-3, |k| <= 2^12.
//verif:check V05 relerr
func Verif_V05_distance() {
	n := vgrid("n", -1<<8, 1<<8, 0)
	vs.Assume(n.X != 0 || n.Y != 0 || n.Z != 0)
	pl := Plane{Normal: n, Distance: vs.Grid("d", -1<<12, 1<<12, -2)}
	v := vgrid("v", -1<<12, 1<<12, -3)
	d := v.CalculateDistanceToPlane(pl)
	num := n.X*v.X + n.Y*v.Y + n.Z*v.Z + pl.Distance
	n2 := n.X*n.X + n.Y*n.Y + n.Z*n.Z
	// Euclidean distance: d*d*|n|^2 = num^2
	vs.Assert(vabs(d*d*n2-num*num) <= 1e-12*num*num, "magnitude")
	vs.Assert((d == 0) == (num == 0), "zero-on-the-plane")
	vs.Assert((d > 0) == (num > 0), "positive-side")
	vs.Assert((d < 0) == (num < 0), "negative-side")
	vs.Cover("end")
}

// The same at other scales: normals k*2^e, |k| <= 2^8, e one of -60, -20, 30; points k*2^f, |k| <= 2^12, f one of -45, 20,
// with the distance on the grid of the products.
//verif:check V05 relerr
func Verif_V05_scales() {
	e := []int{-60, -20, 30}[vs.Concretize(vs.Int("e", 0, 2))]
	f := []int{-45, 20}[vs.Concretize(vs.Int("f", 0, 1))]
	n := vgrid("n", -1<<8, 1<<8, e)
	vs.Assume(n.X != 0 || n.Y != 0 || n.Z != 0)
	pl := Plane{Normal: n, Distance: vs.Grid("d", -1<<20, 1<<20, e+f)}
	v := vgrid("v", -1<<12, 1<<12, f)
	d := v.CalculateDistanceToPlane(pl)
	num := n.X*v.X + n.Y*v.Y + n.Z*v.Z + pl.Distance
	n2 := n.X*n.X + n.Y*n.Y + n.Z*n.Z
	vs.Assert(vabs(d*d*n2-num*num) <= 1e-12*num*num, "magnitude")
	vs.Assert((d == 0) == (num == 0), "zero-on-the-plane")
	vs.Assert((d > 0) == (num > 0), "positive-side")
	vs.Assert((d < 0) == (num < 0), "negative-side")
	vs.Cover("end")
}
