package glTF

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// Large meshes: 300 vertices, or 66000 (more than 2^16), all but one concrete, and as many indices, one of them arbitrary; repeated
// vertices and unused ones among them.
//verif:check G01 ieee steps=200000000
func Verif_G01_large() {
	n := []int{300, 66000}[vs.Concretize(vs.Int("n", 0, 1))]
	mesh := bigMesh(n)
	k, m := n-1, n-1
	if n < 1000 || vs.Tier() > 0 {
		k, m = vs.Concretize(vs.Int("vertex", 0, 2))*(n-1)/2, vs.Concretize(vs.Int("index", 0, 2))*(n-1)/2
	}
	mesh.Vertices[k] = r3.Vector{X: coord("x"), Y: coord("y"), Z: coord("z")}
	mesh.Indices[m] = uint32(vs.Int("i", 0, n-1))
	vertices := append([]r3.Vector(nil), mesh.Vertices...)
	indices := append([]uint32(nil), mesh.Indices...)
	doc := exported(mesh)
	vs.Assert(doc != nil, "the exported file can be opened")
	if doc == nil {
		return
	}
	pr := primitive(doc)
	vs.Assert(pr != nil && pr.Indices != nil, "one mesh with one primitive")
	if pr == nil || pr.Indices == nil {
		return
	}
	pos, ok := pr.Attributes["POSITION"]
	idx := *pr.Indices
	ok = ok && int(pos) < len(doc.Accessors) && int(idx) < len(doc.Accessors)
	vs.Assert(ok, "positions and indices are given")
	if !ok {
		return
	}
	vs.Assert(int(doc.Accessors[pos].Count) == n && int(doc.Accessors[idx].Count) == n, "as many positions and indices as in the mesh")
	vs.Merge(2)
	good, inside := true, true
	for i := 0; i < n; i++ {
		if n > 1000 && i > 700 && i < n-700 && i != k && i != m {
			continue
		}
		b, c := accessorBytes(doc, pos, 12, i), accessorBytes(doc, idx, 4, i)
		if b == nil || c == nil {
			inside = false
			continue
		}
		v := vertices[i]
		e1, e2, e3 := isUint32(b[0:4], math.Float32bits(float32(v.X))), isUint32(b[4:8], math.Float32bits(float32(v.Y))), isUint32(b[8:12], math.Float32bits(float32(v.Z)))
		e4 := isUint32(c, indices[i])
		good = good && e1 && e2 && e3 && e4
	}
	vs.Assert(inside, "the data are inside the buffer")
	vs.Assert(good, "positions and indices are those of the mesh")
	vs.Cover("done")
}
