package shape

import (
	"geGoMetry/r3"

	vs "geGoMetry/verifsym"
)

func meshWellFormed(m Mesh) {
	vs.Assert(len(m.Vertices) > 0 && len(m.Indices) > 0, "not-empty")
	vs.Assert(len(m.Indices)%3 == 0, "whole-triangles")
	vs.Assert(len(m.Normals) == 0 || len(m.Normals) == len(m.Vertices), "normals-parallel")
	vs.Assert(len(m.TexCoords) == 0 || len(m.TexCoords) == len(m.Vertices), "texture-coordinates-parallel")
	// any position in the index list
	k := vs.Int("k", 0, len(m.Indices)-1)
	vs.Assert(int(m.Indices[k]) < len(m.Vertices), "index-in-range")
}

// Circles and ellipses with 1 to 40 sectors (thorough: 120), any position of the index list.
//verif:check M01
func Verif_M01_flat() {
	n := count("n", 1, 40, 120)
	kind := vs.Concretize(vs.Int("kind", circleKind, ellipseKind))
	meshWellFormed(build(kind, n, 0, r3.Vector{X: 1, Y: 2, Z: 3}, 5, 3))
	vs.Cover("end")
}

// Spheres and tori with 1 to 12 sectors and stacks (thorough: 30), any position of the index list.
//verif:check M01
func Verif_M01_round() {
	n, m := count("n", 1, 12, 30), count("m", 1, 12, 30)
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	meshWellFormed(build(kind, n, m, r3.Vector{X: 1, Y: 2, Z: 3}, 5, 3))
	vs.Cover("end")
}
