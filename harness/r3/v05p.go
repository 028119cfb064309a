package r3

import vs "geGoMetry/verifsym"

// Planes through a point given by a normal: integer coordinates, normals up to 2^8, points up to 2^10.
//verif:check V05 relerr
func Verif_V05_plane() {
	n := vgrid("n", -1<<8, 1<<8, 0)
	vs.Assume(n.X != 0 || n.Y != 0 || n.Z != 0)
	o, v := vgrid("o", -1<<10, 1<<10, 0), vgrid("v", -1<<10, 1<<10, 0)
	p := newPlane(n, o)
	vs.Assert(o.CalculateDistanceToPlane(p) == 0, "origin-on-the-plane")
	d := v.CalculateDistanceToPlane(p)
	s := n.X*(v.X-o.X) + n.Y*(v.Y-o.Y) + n.Z*(v.Z-o.Z)
	vs.Assert((d > 0) == (s > 0) && (d < 0) == (s < 0), "side-of-the-normal")
	vs.Cover("end")
}

// The same with normals k*2^e, |k| <= 2^8, e one of -60, -20, 30, and points k*2^f, |k| <= 2^10, f one of -45, 20.
//verif:check V05 relerr
func Verif_V05_planescales() {
	e := []int{-60, -20, 30}[vs.Concretize(vs.Int("e", 0, 2))]
	f := []int{-45, 20}[vs.Concretize(vs.Int("f", 0, 1))]
	n := vgrid("n", -1<<8, 1<<8, e)
	vs.Assume(n.X != 0 || n.Y != 0 || n.Z != 0)
	o, v := vgrid("o", -1<<10, 1<<10, f), vgrid("v", -1<<10, 1<<10, f)
	p := newPlane(n, o)
	vs.Assert(o.CalculateDistanceToPlane(p) == 0, "origin-on-the-plane")
	d := v.CalculateDistanceToPlane(p)
	s := n.X*(v.X-o.X) + n.Y*(v.Y-o.Y) + n.Z*(v.Z-o.Z)
	vs.Assert((d > 0) == (s > 0) && (d < 0) == (s < 0), "side-of-the-normal")
	vs.Cover("end")
}
