package shape

import (
	"math"

	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// The reference mesh (centre 0, unit-like radii, concrete) is checked against the surface and the step widths; the mesh
// for any centre and radii is then, vertex by vertex, the affine image of the reference.
func near(x, y float64) bool { return math.Abs(x-y) <= 1e-12 }

func affine(label string, got r3.Vector, c r3.Vector, sum float64, x, y, z float64) {
	vs.Assert(fabs(got.X-(c.X+x)) <= 1e-12*(fabs(c.X)+sum), label+"-x")
	vs.Assert(fabs(got.Y-(c.Y+y)) <= 1e-12*(fabs(c.Y)+sum), label+"-y")
	vs.Assert(fabs(got.Z-(c.Z+z)) <= 1e-12*(fabs(c.Z)+sum), label+"-z")
}

// Circles and ellipses with 1 to 40 sectors (thorough: 80); centre coordinates k*2^-2, |k| <= 2^12; semi-axes k*2^-2, 1 <= k <= 2^12.
//verif:check M03 relerr
func Verif_M03_flat() {
	n := count("n", 1, 40, 80)
	kind := vs.Concretize(vs.Int("kind", circleKind, ellipseKind))
	ref := build(kind, n, 0, r3.Vector{}, 1, 1)
	vs.Assert(len(ref.Vertices) == n+1, "one-vertex-per-sector")
	vs.Assert(ref.Vertices[0] == r3.Vector{}, "centre-first")
	step := 2 * math.Pi / float64(n)
	for i := 1; i <= n; i++ {
		v, w := ref.Vertices[i], ref.Vertices[i%n+1]
		vs.Assert(v.Z == 0 && near(v.X*v.X+v.Y*v.Y, 1), "on-the-unit-circle")
		vs.Assert(near(v.X*w.X+v.Y*w.Y, math.Cos(step)), "one-step-apart")
		vs.Assert(near(math.Abs(v.X*w.Y-v.Y*w.X), math.Abs(math.Sin(step))), "one-step-apart-2")
		if n > 2 {
			vs.Assert((v.X*w.Y-v.Y*w.X > 0) == (ref.Vertices[1].X*ref.Vertices[2].Y-ref.Vertices[1].Y*ref.Vertices[2].X > 0), "same-sense")
		}
	}
	c := centre(1 << 12)
	r := vs.Grid("r", 1, 1<<12, -2)
	q := r
	if kind == ellipseKind {
		q = vs.Grid("q", 1, 1<<12, -2)
	}
	vs.Merge(2)
	m := build(kind, n, 0, c, r, q)
	vs.Assert(len(m.Vertices) == len(ref.Vertices), "same-number-of-vertices")
	for i, v := range m.Vertices {
		u := ref.Vertices[i]
		affine("vertex", v, c, r+q, r*u.X, q*u.Y, 0)
	}
	vs.Assert(m.Vertices[0] == c, "centre")
	vs.Cover("end")
}

// Spheres with 1 to 8 sectors and stacks (thorough: 16); centre coordinates k*2^-2, |k| <= 2^12; radii k*2^-2, 1 <= k <= 2^12.
//verif:check M03 relerr
func Verif_M03_sphere() {
	n, m := count("n", 1, 8, 16), count("m", 1, 8, 16)
	ref := build(sphereKind, n, m, r3.Vector{}, 1, 0).Vertices
	vs.Assert(len(ref) == (n+1)*(m+1), "all-samples")
	ds, dt := 2*math.Pi/float64(n), math.Pi/float64(m)
	for i := 0; i <= m; i++ {
		row := math.Sin(float64(i) * dt)
		for j := 0; j <= n; j++ {
			v := ref[i*(n+1)+j]
			vs.Assert(near(v.X*v.X+v.Y*v.Y+v.Z*v.Z, 1), "on-the-unit-sphere")
			vs.Assert(near(math.Abs(v.Z), math.Abs(math.Cos(float64(i)*dt))), "height")
			if j < n {
				w := ref[i*(n+1)+j+1]
				vs.Assert(near(v.Z, w.Z), "one-height-per-row")
				vs.Assert(near(v.X*w.X+v.Y*w.Y, row*row*math.Cos(ds)), "one-sector-apart")
				vs.Assert(near(math.Abs(v.X*w.Y-v.Y*w.X), row*row*math.Abs(math.Sin(ds))), "one-sector-apart-2")
				if u := ref[i*(n+1)+1]; n > 2 && row > 1e-3 {
					z := ref[i*(n+1)]
					vs.Assert((v.X*w.Y-v.Y*w.X > 0) == (z.X*u.Y-z.Y*u.X > 0), "same-sense")
				}
			}
			if i < m {
				w := ref[(i+1)*(n+1)+j]
				vs.Assert(near(v.X*w.X+v.Y*w.Y+v.Z*w.Z, math.Cos(dt)), "one-stack-apart")
			}
		}
	}
	vs.Assert(near(ref[0].Z, -ref[m*(n+1)].Z), "poles-opposite")
	c := centre(1 << 12)
	r := vs.Grid("r", 1, 1<<12, -2)
	vs.Merge(2)
	mesh := build(sphereKind, n, m, c, r, 0)
	vs.Assert(len(mesh.Vertices) == len(ref), "same-number-of-vertices")
	for i, v := range mesh.Vertices {
		u := ref[i]
		affine("vertex", v, c, r, r*u.X, r*u.Y, r*u.Z)
	}
	vs.Cover("end")
}

// Tori with 1 to 8 sectors and stacks (thorough: 16); centre coordinates k*2^-2, |k| <= 2^12; both radii k*2^-2, 1 <= k <= 2^12.
//verif:check M03 relerr
func Verif_M03_torus() {
	n, m := count("n", 1, 8, 16), count("m", 1, 8, 16)
	ref := build(torusKind, n, m, r3.Vector{}, 4, 1).Vertices
	vs.Assert(len(ref) == (n+1)*(m+1), "all-samples")
	ds, dt := 2*math.Pi/float64(n), 2*math.Pi/float64(m)
	tube := make([]r3.Vector, len(ref)) // (direction from the axis, distance beyond the main radius)
	rad := make([]float64, len(ref))
	for k, v := range ref {
		rho := math.Sqrt(v.X*v.X + v.Y*v.Y)
		rad[k] = rho - 4
		tube[k] = r3.Vector{X: v.X / rho, Y: v.Y / rho, Z: v.Z}
		vs.Assert(near(rad[k]*rad[k]+v.Z*v.Z, 1), "on-the-reference-torus")
	}
	for i := 0; i <= m; i++ {
		for j := 0; j <= n; j++ {
			k := i*(n+1) + j
			if j < n {
				vs.Assert(near(tube[k].X*tube[k+1].X+tube[k].Y*tube[k+1].Y, math.Cos(ds)), "one-sector-apart")
				vs.Assert(near(math.Abs(tube[k].X*tube[k+1].Y-tube[k].Y*tube[k+1].X), math.Abs(math.Sin(ds))), "one-sector-apart-2")
				vs.Assert(near(tube[k].Z, tube[k+1].Z), "one-height-per-row")
				if n > 2 {
					vs.Assert((tube[k].X*tube[k+1].Y-tube[k].Y*tube[k+1].X > 0) == (tube[0].X*tube[1].Y-tube[0].Y*tube[1].X > 0), "same-sense")
				}
			}
			if i < m {
				l := k + n + 1
				vs.Assert(near(rad[k]*rad[l]+tube[k].Z*tube[l].Z, math.Cos(dt)), "one-stack-apart")
				vs.Assert(near(math.Abs(rad[k]*tube[l].Z-tube[k].Z*rad[l]), math.Abs(math.Sin(dt))), "one-stack-apart-2")
				if m > 2 {
					vs.Assert((rad[k]*tube[l].Z-tube[k].Z*rad[l] > 0) == (rad[0]*tube[n+1].Z-tube[0].Z*rad[n+1] > 0), "same-tube-sense")
				}
			}
		}
	}
	c := centre(1 << 12)
	r, q := vs.Grid("r", 1, 1<<12, -2), vs.Grid("q", 1, 1<<12, -2)
	vs.Merge(2)
	mesh := build(torusKind, n, m, c, r, q)
	vs.Assert(len(mesh.Vertices) == len(ref), "same-number-of-vertices")
	for k, v := range mesh.Vertices {
		affine("vertex", v, c, r+q, r*tube[k].X+q*(rad[k]*tube[k].X), r*tube[k].Y+q*(rad[k]*tube[k].Y), q*tube[k].Z)
	}
	vs.Cover("end")
}

// All four primitives at other scales, with 1 to 5 sectors and stacks: centre coordinates k*2^e, |k| <= 2^12, radii k*2^f,
// 1 <= k <= 2^12, for (e,f) one of (-2,-15), (-40,-40), (-100,-90), (20,20), (60,50) and (8,-10): every vertex is the affine image of that
// of the mesh with unit-like radii.
//verif:check M03 relerr
func Verif_M03_scales() {
	kind := vs.Concretize(vs.Int("kind", circleKind, torusKind))
	n, m := count("n", 1, 5, 9), 0
	if kind == sphereKind || kind == torusKind {
		m = count("m", 1, 4, 9)
	}
	big, small := 1., 1.
	if kind == torusKind {
		big = 4
	}
	ref := build(kind, n, m, r3.Vector{}, big, small).Vertices
	ex := [][2]int{{-2, -15}, {-40, -40}, {-100, -90}, {20, 20}, {60, 50}, {8, -10}}[vs.Concretize(vs.Int("e", 0, 5))]
	c := r3.Vector{X: vs.Grid("c.x", -1<<12, 1<<12, ex[0]), Y: vs.Grid("c.y", -1<<12, 1<<12, ex[0]), Z: vs.Grid("c.z", -1<<12, 1<<12, ex[0])}
	r, q := vs.Grid("r", 1, 1<<12, ex[1]), vs.Grid("q", 1, 1<<12, ex[1])
	mesh := build(kind, n, m, c, r, q).Vertices
	vs.Merge(2)
	vs.Assert(len(mesh) == len(ref), "same-number-of-vertices")
	for i, v := range mesh {
		u := ref[i]
		switch kind {
		case circleKind, sphereKind:
			affine("vertex", v, c, r, r*u.X, r*u.Y, r*u.Z)
		case ellipseKind:
			affine("vertex", v, c, r+q, r*u.X, q*u.Y, 0)
		default:
			rho := math.Sqrt(u.X*u.X + u.Y*u.Y)
			x, y := u.X/rho, u.Y/rho
			affine("vertex", v, c, r+q, r*x+q*((rho-4)*x), r*y+q*((rho-4)*y), q*u.Z)
		}
	}
	vs.Cover("end")
}
