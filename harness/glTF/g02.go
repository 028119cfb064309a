package glTF

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"

	"github.com/qmuntal/gltf"
)

// Every mesh of 1..2 vertices (thorough: 1..4) with arbitrary 64-bit coordinates inside
// the range of 32-bit floats, and 1..4 (thorough: 1..9) arbitrary 32-bit indices.
//verif:check G02 ieee
func Verif_G02_consistent() {
	n := pick("n", 1, 2, 4)
	m := pick("m", 1, 4, 9)
	mesh := anyMesh(n, m)
	vertices := append([]r3.Vector(nil), mesh.Vertices...)
	doc := exported(mesh)
	vs.Assert(doc != nil, "the exported file can be opened")
	if doc == nil {
		return
	}
	pr := primitive(doc)
	vs.Assert(pr != nil, "one mesh with one primitive")
	if pr == nil {
		return
	}
	vs.Assert(pr.Mode == gltf.PrimitiveTriangles, "the primitive is a list of triangles")
	pos, ok := pr.Attributes["POSITION"]
	col, ok2 := pr.Attributes["COLOR_0"]
	named := ok && ok2 && pr.Indices != nil && int(pos) < len(doc.Accessors) && int(col) < len(doc.Accessors) && int(*pr.Indices) < len(doc.Accessors)
	vs.Assert(named, "index, position and colour references name accessors")
	if !named {
		return
	}
	ap, ac, ai := doc.Accessors[pos], doc.Accessors[col], doc.Accessors[*pr.Indices]
	vs.Assert(ap.Type == gltf.AccessorVec3 && ap.ComponentType == gltf.ComponentFloat && !ap.Normalized, "positions are triples of floats")
	vs.Assert(ai.Type == gltf.AccessorScalar && ai.ComponentType == gltf.ComponentUint && !ai.Normalized, "indices are unsigned 32-bit scalars")
	rgb := ac.Type == gltf.AccessorVec3 || ac.Type == gltf.AccessorVec4
	vs.Assert(rgb && ac.ComponentType == gltf.ComponentUbyte && ac.Normalized, "colours are normalised bytes")
	vs.Assert(int(ap.Count) == n && int(ac.Count) == n && int(ai.Count) == m, "accessor counts agree with the mesh")
	if !rgb || int(ac.Count) != n || int(ap.Count) != n || int(ai.Count) != m {
		return
	}
	for _, a := range doc.Accessors {
		size := int(a.ComponentType.ByteSize() * a.Type.Components())
		vs.Assert(a.Count == 0 || accessorBytes(doc, indexOf(doc, a), size, int(a.Count)-1) != nil, "accessor data lie inside the buffer")
		if a.BufferView != nil && int(*a.BufferView) < len(doc.BufferViews) {
			v := doc.BufferViews[*a.BufferView]
			vs.Assert((int(a.ByteOffset)+int(v.ByteOffset))%int(a.ComponentType.ByteSize()) == 0, "accessor data are aligned")
		}
	}
	for i, v := range doc.BufferViews {
		for j := 0; j < i; j++ {
			w := doc.BufferViews[j]
			vs.Assert(v.Buffer != w.Buffer || v.ByteOffset >= w.ByteOffset+w.ByteLength || w.ByteOffset >= v.ByteOffset+v.ByteLength, "buffer views do not overlap")
		}
	}
	size := 3
	if ac.Type == gltf.AccessorVec4 {
		size = 4
	}
	for i := 0; i < n; i++ {
		b := accessorBytes(doc, col, size, i)
		if b == nil {
			return
		}
		for k := 0; k < size; k++ {
			vs.Assert(b[k] == 255, "colours are opaque white")
		}
	}
	three := len(ap.Min) == 3 && len(ap.Max) == 3
	vs.Assert(three, "position bounds have three components")
	if !three {
		return
	}
	for i := 0; i < n; i++ {
		v := vertices[i]
		x, y, z := float32(v.X), float32(v.Y), float32(v.Z)
		vs.Assert(ap.Min[0] <= x && x <= ap.Max[0], "position bounds contain x")
		vs.Assert(ap.Min[1] <= y && y <= ap.Max[1], "position bounds contain y")
		vs.Assert(ap.Min[2] <= z && z <= ap.Max[2], "position bounds contain z")
	}
	scene(doc)
	vs.Cover("consistent")
}

func indexOf(doc *gltf.Document, a *gltf.Accessor) uint32 {
	for i, b := range doc.Accessors {
		if a == b {
			return uint32(i)
		}
	}
	return 0
}

// scene checks that the default scene shows the mesh once, untransformed.
func scene(doc *gltf.Document) {
	def := 0
	if doc.Scene != nil {
		def = int(*doc.Scene)
	}
	ok := def < len(doc.Scenes) && len(doc.Scenes[def].Nodes) == 1 && int(doc.Scenes[def].Nodes[0]) < len(doc.Nodes)
	vs.Assert(ok, "the scene has one root node")
	if !ok {
		return
	}
	nd := doc.Nodes[doc.Scenes[def].Nodes[0]]
	vs.Assert(nd.Mesh != nil && *nd.Mesh == 0, "the root node shows the mesh")
	vs.Assert(nd.TranslationOrDefault() == gltf.DefaultTranslation && nd.ScaleOrDefault() == gltf.DefaultScale && nd.RotationOrDefault() == gltf.DefaultRotation && nd.MatrixOrDefault() == gltf.DefaultMatrix, "the mesh is not transformed")
}
