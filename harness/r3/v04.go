package r3

import vs "geGoMetry/verifsym"

// Lines and planes with integer coordinates: points up to 2^6, directions and normals up to 2^4.
//verif:check V04
func Verif_V04_intersect() {
	l := Line{Vector: vgrid("p", -64, 64, 0), Direction: vgrid("d", -16, 16, 0)}
	pl := Plane3D{Normal: vgrid("n", -16, 16, 0), Vector: vgrid("o", -64, 64, 0)}
	l0, pl0 := l, pl
	den := l.Direction.X*pl.Normal.X + l.Direction.Y*pl.Normal.Y + l.Direction.Z*pl.Normal.Z
	var q Vector
	panicked := vs.Catch(func() { q = l.IntersectPlane(pl) })
	vs.Assert(panicked == (den == 0), "panics-exactly-when-parallel")
	vs.Assert(l == l0 && pl == pl0, "operands-unchanged")
	if panicked {
		vs.Cover("parallel")
		return
	}
	// the plane's equation, with the rounding error of a point up to 2^15 away
	e := pl.Normal.X*(q.X-pl.Vector.X) + pl.Normal.Y*(q.Y-pl.Vector.Y) + pl.Normal.Z*(q.Z-pl.Vector.Z)
	vs.Assert(vabs(e) <= 1e-6, "on-the-plane")
	// on the line: the offset is parallel to the direction
	o := Vector{q.X - l.Vector.X, q.Y - l.Vector.Y, q.Z - l.Vector.Z}
	d := l.Direction
	vs.Assert(vabs(o.X*d.Y-o.Y*d.X) <= 1e-6, "on-the-line-xy")
	vs.Assert(vabs(o.Y*d.Z-o.Z*d.Y) <= 1e-6, "on-the-line-yz")
	vs.Assert(vabs(o.Z*d.X-o.X*d.Z) <= 1e-6, "on-the-line-zx")
	vs.Cover("met")
}

// Scaled configurations: directions and normals with coordinates k*2^e, |k| <= 4, for e one of -60, -30, 30 (a line is
// parallel to a plane whatever the lengths of the two vectors).
//verif:check V04
func Verif_V04_scale() {
	e := []int{-60, -30, 30}[vs.Concretize(vs.Int("e", 0, 2))]
	f := []int{-60, 0, 40}[vs.Concretize(vs.Int("f", 0, 2))]
	l := Line{Vector: vgrid("p", -4, 4, 0), Direction: vgrid("d", -4, 4, e)}
	pl := Plane3D{Normal: vgrid("n", -4, 4, f), Vector: vgrid("o", -4, 4, 0)}
	den := l.Direction.X*pl.Normal.X + l.Direction.Y*pl.Normal.Y + l.Direction.Z*pl.Normal.Z
	panicked := vs.Catch(func() { l.IntersectPlane(pl) })
	vs.Assert(panicked == (den == 0), "panics-exactly-when-parallel")
	if panicked {
		vs.Cover("parallel")
	} else {
		vs.Cover("met")
	}
}
