package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	vs "geGoMetry/verifsym"
	"math"

	"github.com/qmuntal/gltf"
)

func pick(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

func coord(name string) float64 {
	v := vs.Float64(name)
	f := float32(v)
	vs.Assume(f >= -math.MaxFloat32 && f <= math.MaxFloat32)
	return v
}

// anyMesh has n arbitrary vertices and m arbitrary indices, and optionally the normals
// and texture coordinates the shapes produce.
func anyMesh(n, m int) shape.Mesh {
	var mesh shape.Mesh
	for i := 0; i < n; i++ {
		mesh.Vertices = append(mesh.Vertices, r3.Vector{X: coord("x"), Y: coord("y"), Z: coord("z")})
	}
	for i := 0; i < m; i++ {
		mesh.Indices = append(mesh.Indices, uint32(vs.Int("i", 0, 1<<32-1)))
	}
	return mesh
}

// exported runs the exporter and reads the file back.
func exported(mesh shape.Mesh) *gltf.Document {
	name := vs.TempName()
	Export(mesh, name)
	doc, err := gltf.Open(name)
	if err != nil || doc == nil {
		return nil
	}
	return doc
}

// accessorBytes gives the bytes of element i of an accessor, or nil if they are not
// all inside the buffer view and the buffer.
func accessorBytes(doc *gltf.Document, acc uint32, size, i int) []byte {
	if int(acc) >= len(doc.Accessors) {
		return nil
	}
	a := doc.Accessors[acc]
	if a.BufferView == nil || int(*a.BufferView) >= len(doc.BufferViews) {
		return nil
	}
	v := doc.BufferViews[*a.BufferView]
	if int(v.Buffer) >= len(doc.Buffers) {
		return nil
	}
	b := doc.Buffers[v.Buffer]
	stride := int(v.ByteStride)
	if stride == 0 {
		stride = size
	}
	off := int(a.ByteOffset) + i*stride
	if off+size > int(v.ByteLength) || int(v.ByteOffset)+int(v.ByteLength) > int(b.ByteLength) || int(b.ByteLength) > len(b.Data) {
		return nil
	}
	return b.Data[int(v.ByteOffset)+off : int(v.ByteOffset)+off+size]
}

func isUint32(b []byte, v uint32) bool {
	ok := b[0] == byte(v)
	ok2 := b[1] == byte(v>>8)
	ok3 := b[2] == byte(v>>16)
	ok4 := b[3] == byte(v>>24)
	return ok && ok2 && ok3 && ok4
}

// primitive gives the only primitive of the only mesh.
func primitive(doc *gltf.Document) *gltf.Primitive {
	if len(doc.Meshes) != 1 || len(doc.Meshes[0].Primitives) != 1 {
		return nil
	}
	return doc.Meshes[0].Primitives[0]
}

// bigMesh has n concrete vertices, some of them equal, and n indices.
func bigMesh(n int) shape.Mesh {
	var mesh shape.Mesh
	for i := 0; i < n; i++ {
		k := float64(i - i%5/4)
		mesh.Vertices = append(mesh.Vertices, r3.Vector{X: k, Y: 3 - k/4, Z: k * 0.1})
		mesh.Indices = append(mesh.Indices, uint32((i*7+i/3)%n))
	}
	return mesh
}
