package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// A tetrahedron of any four vertices and an inserted point, with any 64-bit float coordinates, and a
// previous index list of zero to three entries of any value.
//verif:check B06 ieee
func Verif_B06_insert() {
	any := func(name string) r3.Vector {
		return r3.Vector{X: vs.Float64(name + ".x"), Y: vs.Float64(name + ".y"), Z: vs.Float64(name + ".z")}
	}
	vertices := []r3.Vector{any("a"), any("b"), any("c"), any("d")}
	p := any("p")
	old := make([]uint32, vs.Concretize(vs.Int("old", 0, 3)))
	for i := range old {
		old[i] = uint32(vs.Int("i"+digit(i), 0, 1<<32-1))
	}
	t := Meshing{vertices: append([]r3.Vector(nil), vertices...), indices: old}
	t.flip14(p)
	vs.Assert(len(t.vertices) == 5, "one vertex is appended")
	if len(t.vertices) != 5 {
		return
	}
	vs.Merge(2)
	for i, v := range append(vertices, p) {
		w := t.vertices[i]
		vs.Assert(eq(v.X, w.X) && eq(v.Y, w.Y) && eq(v.Z, w.Z), "the vertices are the old ones and the point")
	}
	vs.Assert(len(t.indices) == 4*2*12, "there are four tetrahedra of four faces in two orientations")
	if len(t.indices) != 96 {
		return
	}
	seen := map[int]bool{}
	for k := 0; k < 4; k++ {
		part := t.indices[24*k : 24*k+24]
		// the vertices of the tetrahedron
		mask := 0
		for _, v := range part {
			vs.Assert(v < 5, "every index names a vertex")
			if v < 5 {
				mask |= 1 << uint(v)
			}
		}
		vs.Assert(mask&16 != 0 && ones(mask) == 4 && !seen[mask], "each tetrahedron joins the point to another face")
		seen[mask] = true
		// each face once in each orientation: faces[m][orientation]
		var faces [32][2]int
		for f := 0; f < 24; f += 3 {
			a, b, c := part[f], part[f+1], part[f+2]
			m := 1<<uint(a) | 1<<uint(b) | 1<<uint(c)
			o := 0
			if a < b && b < c || b < c && c < a || c < a && a < b {
				o = 1
			}
			faces[m][o]++
		}
		for m := 0; m < 32; m++ {
			if m&mask == m && ones(m) == 3 {
				vs.Assert(faces[m][0] == 1 && faces[m][1] == 1, "every face occurs once in each orientation")
			}
		}
	}
	vs.Cover("done")
}

func eq(a, b float64) bool {
	e := a == b
	n, m := a != a, b != b
	return e || n && m
}

func ones(m int) int {
	n := 0
	for ; m > 0; m &= m - 1 {
		n++
	}
	return n
}
