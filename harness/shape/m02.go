package shape

import (
	"geGoMetry/r3"

	vs "geGoMetry/verifsym"
)

// Circles and ellipses with 3 to 24 sectors (thorough: 48); any pair of rim vertices.
//verif:check M02
func Verif_M02_fan() {
	n := count("n", 3, 24, 48)
	kind := vs.Concretize(vs.Int("kind", circleKind, ellipseKind))
	m := build(kind, n, 0, r3.Vector{}, 5, 3)
	cl, nc := classes(m.Vertices)
	vs.Assert(nc == n+1, "one-vertex-per-sector")
	// a and b are any two vertices: how often does the triangle (first vertex, a, b) occur?
	a, b := vs.Int("a", 0, nc-1), vs.Int("b", 0, nc-1)
	vs.Assume(a != b)
	vs.Merge(2)
	cnt, other := 0, 0
	for t := 0; t+2 < len(m.Indices); t += 3 {
		i, j, k := cl[m.Indices[t]], cl[m.Indices[t+1]], cl[m.Indices[t+2]]
		for r := 0; r < 3; r++ {
			i, j, k = j, k, i
			if i == 0 {
				cnt += b2i(j == a && k == b)
			}
		}
		if i != 0 && j != 0 && k != 0 {
			other++
		}
	}
	vs.Merge(0)
	d := a - b
	if d < 0 {
		d = -d
	}
	want := 0
	if a > 0 && b > 0 && (d == 1 || d == n-1) {
		want = 1
	}
	vs.Assert(cnt == want, "each-sector-once-per-orientation")
	vs.Assert(other == 0, "no-other-triangles")
	vs.Cover("end")
}

// Spheres with 3 to 9 sectors and 2 to 9 stacks, tori with 3 to 9 of both (thorough: 16); any pair of vertices.
//verif:check M02
func Verif_M02_closed() {
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	lo := 3
	if kind == sphereKind {
		lo = 2
	}
	n, s := count("n", 3, 9, 16), count("m", lo, 9, 16)
	m := build(kind, n, s, r3.Vector{}, 5, 3)
	cl, nc := classes(m.Vertices)
	euler := 0
	if kind == sphereKind {
		vs.Assert(nc == n*(s-1)+2, "vertex-count")
		euler = 2
	} else {
		vs.Assert(nc == n*s, "vertex-count")
	}
	a, b := vs.Int("a", 0, nc-1), vs.Int("b", 0, nc-1)
	vs.Merge(2)
	fwd, bwd, uses, faces := 0, 0, 0, 0
	for t := 0; t+2 < len(m.Indices); t += 3 {
		i, j, k := cl[m.Indices[t]], cl[m.Indices[t+1]], cl[m.Indices[t+2]]
		if i == j || j == k || k == i {
			continue
		}
		faces++
		for r := 0; r < 3; r++ {
			i, j, k = j, k, i
			fwd += b2i(i == a && j == b)
			bwd += b2i(i == b && j == a)
			uses += b2i(i == a)
		}
	}
	vs.Merge(0)
	vs.Assert(fwd <= 1 && fwd == bwd, "each-directed-edge-once-with-its-reverse")
	vs.Assert(uses >= 3, "every-vertex-used")
	vs.Assert(faces%2 == 0 && nc-faces/2 == euler, "euler-characteristic")
	vs.Cover("end")
}
