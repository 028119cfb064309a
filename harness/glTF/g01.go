package glTF

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// Every mesh of 1..2 vertices (thorough: 1..4) with arbitrary 64-bit coordinates inside
// the range of 32-bit floats, and 0..4 (thorough: 0..9) arbitrary 32-bit indices; the file
// written by Export is opened with gltf.Open (the solver run keeps the document instead of
// serialising it).
//verif:check G01 ieee
func Verif_G01_roundtrip() {
	n := pick("n", 1, 2, 4)
	m := pick("m", 0, 4, 9)
	mesh := anyMesh(n, m)
	vertices := append([]r3.Vector(nil), mesh.Vertices...)
	indices := append([]uint32(nil), mesh.Indices...)
	doc := exported(mesh)
	vs.Assert(doc != nil, "the exported file can be opened")
	if doc == nil {
		return
	}
	pr := primitive(doc)
	vs.Assert(pr != nil, "one mesh with one primitive")
	if pr == nil {
		return
	}
	pos, ok := pr.Attributes["POSITION"]
	vs.Assert(ok && pr.Indices != nil && int(pos) < len(doc.Accessors) && int(*pr.Indices) < len(doc.Accessors), "positions and indices are given")
	if !ok || pr.Indices == nil || int(pos) >= len(doc.Accessors) || int(*pr.Indices) >= len(doc.Accessors) {
		return
	}
	idx := *pr.Indices
	vs.Assert(int(doc.Accessors[pos].Count) == n, "as many positions as vertices")
	vs.Assert(int(doc.Accessors[idx].Count) == m, "as many exported indices as mesh indices")
	for i := 0; i < n; i++ {
		b := accessorBytes(doc, pos, 12, i)
		vs.Assert(b != nil, "position data are inside the buffer")
		if b == nil {
			return
		}
		v := vertices[i]
		vs.Assert(isUint32(b[0:4], math.Float32bits(float32(v.X))), "position x is the vertex rounded to float32")
		vs.Assert(isUint32(b[4:8], math.Float32bits(float32(v.Y))), "position y is the vertex rounded to float32")
		vs.Assert(isUint32(b[8:12], math.Float32bits(float32(v.Z))), "position z is the vertex rounded to float32")
	}
	for i := 0; i < m; i++ {
		b := accessorBytes(doc, idx, 4, i)
		vs.Assert(b != nil, "index data are inside the buffer")
		if b == nil {
			return
		}
		vs.Assert(isUint32(b, indices[i]), "indices are exported in order and unaltered")
	}
	if n == 2 && m == 3 {
		vs.Cover("two vertices and three indices")
	}
}
