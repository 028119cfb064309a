package shape

import (
	"geGoMetry/r3"

	vs "geGoMetry/verifsym"
)

// The four exported constructors at their built-in counts (up to 300 x 300), any radii k*2^-2 up to 2^10.
//verif:check M01 steps=300000000
func Verif_M01_constructors() {
	r, q := vs.Grid("r", 1, 1<<12, -2), vs.Grid("q", 1, 1<<12, -2)
	c := r3.Vector{}
	var m Mesh
	switch vs.Concretize(vs.Int("kind", circleKind, torusKind)) {
	case circleKind:
		m = ConstructCircle(c, r)
	case ellipseKind:
		m = ConstructEllipse(c, r, q)
	case sphereKind:
		m = ConstructSphere(c, r)
	default:
		m = ConstructTorus(c, r, q)
	}
	vs.Assert(len(m.Indices)%3 == 0 && len(m.Indices) > 0, "whole-triangles")
	vs.Assert(len(m.Normals) == 0 || len(m.Normals) == len(m.Vertices), "normals-parallel")
	vs.Assert(len(m.TexCoords) == 0 || len(m.TexCoords) == len(m.Vertices), "texture-coordinates-parallel")
	bad := 0
	for _, i := range m.Indices {
		if int(i) >= len(m.Vertices) {
			bad++
		}
	}
	vs.Assert(bad == 0, "index-in-range")
	vs.Cover("end")
}

// Circles and ellipses of 70000 sectors, spheres and tori of 3 x 30000 and 30000 x 3 (more than 2^16 vertices).
//verif:check M01 steps=300000000
func Verif_M01_large() {
	kind := vs.Concretize(vs.Int("kind", circleKind, torusKind))
	n, s := 70000, 0
	if kind == sphereKind || kind == torusKind {
		n, s = 3, 30000
		if vs.Bool("wide") {
			n, s = s, n
		}
	}
	m := build(kind, n, s, r3.Vector{}, 5, 3)
	vs.Assert(len(m.Indices)%3 == 0 && len(m.Indices) > 0, "whole-triangles")
	vs.Assert(len(m.Normals) == 0 || len(m.Normals) == len(m.Vertices), "normals-parallel")
	vs.Assert(len(m.TexCoords) == 0 || len(m.TexCoords) == len(m.Vertices), "texture-coordinates-parallel")
	bad := 0
	for _, i := range m.Indices {
		if int(i) >= len(m.Vertices) {
			bad++
		}
	}
	vs.Assert(bad == 0, "index-in-range")
	vs.Cover("end")
}
