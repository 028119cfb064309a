package glTF

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Large meshes: 8 vertices (one arbitrary), or 66000 (more than 2^16), and as many indices.
//verif:check G02 ieee steps=200000000
func Verif_G02_large() {
	n := []int{8, 66000}[vs.Concretize(vs.Int("n", 0, 1))]
	mesh := bigMesh(n)
	if n < 1000 {
		mesh.Vertices[vs.Concretize(vs.Int("vertex", 0, 2))*(n-1)/2] = r3.Vector{X: coord("x"), Y: coord("y"), Z: coord("z")}
	}
	vertices := append([]r3.Vector(nil), mesh.Vertices...)
	doc := exported(mesh)
	vs.Assert(doc != nil, "the exported file can be opened")
	if doc == nil {
		return
	}
	pr := primitive(doc)
	vs.Assert(pr != nil, "one mesh with one primitive")
	if pr == nil {
		return
	}
	pos, ok := pr.Attributes["POSITION"]
	col, ok2 := pr.Attributes["COLOR_0"]
	named := ok && ok2 && pr.Indices != nil && int(pos) < len(doc.Accessors) && int(col) < len(doc.Accessors) && int(*pr.Indices) < len(doc.Accessors)
	vs.Assert(named, "index, position and colour references name accessors")
	if !named {
		return
	}
	ap, ac, ai := doc.Accessors[pos], doc.Accessors[col], doc.Accessors[*pr.Indices]
	vs.Assert(int(ap.Count) == n && int(ac.Count) == n && int(ai.Count) == n, "accessor counts agree with the mesh")
	inside := true
	for i, a := range doc.Accessors {
		size := int(a.ComponentType.ByteSize() * a.Type.Components())
		inside = inside && accessorBytes(doc, uint32(i), size, int(a.Count)-1) != nil
	}
	vs.Assert(inside, "accessor data lie inside the buffer")
	three := len(ap.Min) == 3 && len(ap.Max) == 3
	vs.Assert(three, "position bounds have three components")
	if !three {
		return
	}
	vs.Merge(2)
	b1, b2, b3, b4, b5, b6 := true, true, true, true, true, true
	for i := range vertices {
		v := vertices[i]
		x, y, z := float32(v.X), float32(v.Y), float32(v.Z)
		e1, e2, e3, e4, e5, e6 := ap.Min[0] <= x, x <= ap.Max[0], ap.Min[1] <= y, y <= ap.Max[1], ap.Min[2] <= z, z <= ap.Max[2]
		b1, b2, b3, b4, b5, b6 = b1 && e1, b2 && e2, b3 && e3, b4 && e4, b5 && e5, b6 && e6
	}
	vs.Assert(b1, "no x is below the bounds")
	vs.Assert(b2, "no x is above the bounds")
	vs.Assert(b3, "no y is below the bounds")
	vs.Assert(b4, "no y is above the bounds")
	vs.Assert(b5, "no z is below the bounds")
	vs.Assert(b6, "no z is above the bounds")
	white := true
	for i := 0; i < int(ac.Count); i++ {
		if n > 1000 && i > 700 && i < n-700 {
			continue
		}
		if b := accessorBytes(doc, col, int(ac.Type.Components()), i); b != nil {
			for _, c := range b {
				white = white && c == 255
			}
		}
	}
	vs.Assert(white, "colours are opaque white")
	vs.Cover("done")
}
