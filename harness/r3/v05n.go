package r3

import vs "geGoMetry/verifsym"

// Three points with coordinates k*2^-3, |k| <= 2^10.
//verif:check V05 relerr
func Verif_V05_normal() {
	const R = 1 << 10
	a, b, c := vgrid("a", -R, R, -3), vgrid("b", -R, R, -3), vgrid("c", -R, R, -3)
	n := Plane{}.calculateNormal(a, b, c)
	u, w := Vector{b.X - a.X, b.Y - a.Y, b.Z - a.Z}, Vector{c.X - a.X, c.Y - a.Y, c.Z - a.Z}
	vs.Assert(n.X*u.X+n.Y*u.Y+n.Z*u.Z == 0, "orthogonal-to-first-edge")
	vs.Assert(n.X*w.X+n.Y*w.Y+n.Z*w.Z == 0, "orthogonal-to-second-edge")
	uu, ww, uw := u.X*u.X+u.Y*u.Y+u.Z*u.Z, w.X*w.X+w.Y*w.Y+w.Z*w.Z, u.X*w.X+u.Y*w.Y+u.Z*w.Z
	vs.Assert(n.X*n.X+n.Y*n.Y+n.Z*n.Z == uu*ww-uw*uw, "twice-the-area")
	vs.Assert(n.Z == u.X*w.Y-u.Y*w.X && n.X == u.Y*w.Z-u.Z*w.Y, "orientation")
	m := Plane{}.calculateNormal(a, c, b)
	vs.Assert(m.X == -n.X && m.Y == -n.Y && m.Z == -n.Z, "reversed-with-the-points")
	vs.Cover("end")
}

// Three points with coordinates k*2^e, |k| <= 2^10, e one of -40, -90, 30 and 90.
//verif:check V05 relerr
func Verif_V05_normalscales() {
	const R = 1 << 10
	ex := []int{-40, -90, 30, 90}[vs.Concretize(vs.Int("e", 0, 3))]
	a, b, c := vgrid("a", -R, R, ex), vgrid("b", -R, R, ex), vgrid("c", -R, R, ex)
	n := Plane{}.calculateNormal(a, b, c)
	u, w := Vector{b.X - a.X, b.Y - a.Y, b.Z - a.Z}, Vector{c.X - a.X, c.Y - a.Y, c.Z - a.Z}
	vs.Assert(n.X*u.X+n.Y*u.Y+n.Z*u.Z == 0, "orthogonal-to-first-edge")
	vs.Assert(n.X*w.X+n.Y*w.Y+n.Z*w.Z == 0, "orthogonal-to-second-edge")
	uu, ww, uw := u.X*u.X+u.Y*u.Y+u.Z*u.Z, w.X*w.X+w.Y*w.Y+w.Z*w.Z, u.X*w.X+u.Y*w.Y+u.Z*w.Z
	vs.Assert(n.X*n.X+n.Y*n.Y+n.Z*n.Z == uu*ww-uw*uw, "twice-the-area")
	vs.Assert(n.Z == u.X*w.Y-u.Y*w.X && n.X == u.Y*w.Z-u.Z*w.Y, "orientation")
	vs.Cover("end")
}
