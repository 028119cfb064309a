package shape

import (
	"math"

	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Spheres and tori with 1 to 8 sectors and stacks (thorough: 16); centre coordinates k*2^-2, |k| <= 2^12; radii k*2^-2, 1 <= k <= 2^12.
// The normals of a concrete reference mesh are checked against the geometry, those of every other mesh against the reference.
//verif:check M04 relerr
func Verif_M04_normals() {
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	n, m := count("n", 1, 8, 16), count("m", 1, 8, 16)
	big := 4.
	if kind == sphereKind {
		big = 1
	}
	ref := build(kind, n, m, r3.Vector{}, big, 1)
	vs.Assert(len(ref.Normals) == len(ref.Vertices) && len(ref.Vertices) > 0, "one-normal-per-vertex")
	for k, v := range ref.Vertices {
		u := ref.Normals[k]
		vs.Assert(math.Abs(u[0]*u[0]+u[1]*u[1]+u[2]*u[2]-1) <= 1e-9, "unit")
		// outward: the offset from the centre (sphere) or from the centre line of the tube (torus), both of length 1
		o := v
		if kind == torusKind {
			rho := math.Sqrt(v.X*v.X + v.Y*v.Y)
			o = r3.Vector{X: v.X - 4*v.X/rho, Y: v.Y - 4*v.Y/rho, Z: v.Z}
		}
		vs.Assert(math.Abs(u[0]-o.X)+math.Abs(u[1]-o.Y)+math.Abs(u[2]-o.Z) <= 1e-9, "outward")
	}
	c := centre(1 << 12)
	r, q := vs.Grid("r", 1, 1<<12, -2), vs.Grid("q", 1, 1<<12, -2)
	mesh := build(kind, n, m, c, r, q)
	vs.Merge(2)
	vs.Assert(len(mesh.Normals) == len(ref.Normals), "as-many-normals")
	for k, u := range mesh.Normals {
		w := ref.Normals[k]
		for i := 0; i < 3; i++ {
			vs.Assert(fabs(u[i]-w[i]) <= 1e-9, "independent-of-centre-and-radius")
		}
	}
	vs.Cover("end")
}

// Spheres and tori with 1 to 10 sectors and stacks (thorough: 24); any radii k*2^-2, 1 <= k <= 2^12; any row and column.
//verif:check M04
func Verif_M04_texture() {
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	n, m := count("n", 1, 10, 24), count("m", 1, 10, 24)
	mesh := build(kind, n, m, r3.Vector{}, vs.Grid("r", 1, 1<<12, -2), vs.Grid("q", 1, 1<<12, -2))
	vs.Assert(len(mesh.TexCoords) == (n+1)*(m+1), "one-coordinate-per-vertex")
	i, j := vs.Int("i", 0, m), vs.Int("j", 0, n)
	var ss, ts []float64
	for _, t := range mesh.TexCoords {
		ss, ts = append(ss, t[0]), append(ts, t[1])
	}
	t := [2]float64{ss[i*(n+1)+j], ts[i*(n+1)+j]}
	vs.Assert(t[0] >= 0 && t[0] <= 1 && t[1] >= 0 && t[1] <= 1, "in-the-unit-square")
	vs.Assert(math.Abs(t[0]*float64(n)-float64(j)) <= 1e-9, "equal-sector-steps")
	vs.Assert(math.Abs(t[1]*float64(m)-float64(i)) <= 1e-9, "equal-stack-steps")
	vs.Assert(j != 0 || t[0] == 0, "starts-at-zero")
	vs.Assert(j != n || t[0] == 1, "ends-at-one")
	vs.Assert(i != 0 || t[1] == 0, "first-row-at-zero")
	vs.Assert(i != m || t[1] == 1, "last-row-at-one")
	vs.Cover("end")
}

// The same at other scales: 3 to 6 sectors and 2 to 5 stacks; centre coordinates k*2^e, |k| <= 2^12, radii k*2^f,
// 1 <= k <= 2^12, for (e,f) one of (-2,-15), (-40,-40), (-100,-90), (20,20) and (60,50), and (8,-10) (a small surface far from the origin).
//verif:check M04 relerr
func Verif_M04_scales() {
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	n, m := count("n", 3, 6, 12), count("m", 2, 5, 12)
	big := 4.
	if kind == sphereKind {
		big = 1
	}
	ref := build(kind, n, m, r3.Vector{}, big, 1)
	ex := [][2]int{{-2, -15}, {-40, -40}, {-100, -90}, {20, 20}, {60, 50}, {8, -10}}[vs.Concretize(vs.Int("e", 0, 5))]
	c := r3.Vector{X: vs.Grid("c.x", -1<<12, 1<<12, ex[0]), Y: vs.Grid("c.y", -1<<12, 1<<12, ex[0]), Z: vs.Grid("c.z", -1<<12, 1<<12, ex[0])}
	r, q := vs.Grid("r", 1, 1<<12, ex[1]), vs.Grid("q", 1, 1<<12, ex[1])
	mesh := build(kind, n, m, c, r, q)
	vs.Merge(2)
	vs.Assert(len(mesh.Normals) == len(ref.Normals) && len(mesh.Vertices) == len(ref.Vertices), "as many normals and vertices")
	ok, on := true, true
	for k, u := range mesh.Normals {
		w := ref.Normals[k]
		for i := 0; i < 3; i++ {
			e := fabs(u[i]-w[i]) <= 1e-9
			ok = ok && e
		}
	}
	for k, v := range mesh.Vertices {
		// the vertex is the centre, the normal times the radius of the sphere or the tube, and for a torus the point of
		// the centre line
		w := ref.Normals[k]
		o := r3.Vector{X: c.X + q*w[0], Y: c.Y + q*w[1], Z: c.Z + q*w[2]}
		sum := r + q
		if kind == sphereKind {
			o = r3.Vector{X: c.X + r*w[0], Y: c.Y + r*w[1], Z: c.Z + r*w[2]}
			sum = r
		} else {
			u := ref.Vertices[k]
			o.X += r * (u.X - w[0]) / 4
			o.Y += r * (u.Y - w[1]) / 4
		}
		e1, e2, e3 := fabs(v.X-o.X) <= 1e-12*(fabs(c.X)+sum), fabs(v.Y-o.Y) <= 1e-12*(fabs(c.Y)+sum), fabs(v.Z-o.Z) <= 1e-12*(fabs(c.Z)+sum)
		on = on && e1 && e2 && e3
	}
	vs.Assert(ok, "independent-of-centre-and-radius")
	vs.Assert(on, "normals belong to their vertices")
	vs.Cover("end")
}
