package mesh

import (
	vs "geGoMetry/verifsym"
)

// All pairs of faces with vertex indices from 0 to 400 (thorough: 9999): they have the same hash exactly if
// they have the same three vertices, counting repetitions.
//verif:check B03
func Verif_B03_faces() {
	m := 400 + 9599*vs.Tier()
	f := face{vs.Int("a", 0, m), vs.Int("b", 0, m), vs.Int("c", 0, m)}
	g := face{vs.Int("d", 0, m), vs.Int("e", 0, m), vs.Int("f", 0, m)}
	h1, h2 := f.hash(), g.hash()
	vs.Merge(2)
	same := false
	for _, p := range [][3]int{{g.pa, g.pb, g.pc}, {g.pa, g.pc, g.pb}, {g.pb, g.pa, g.pc}, {g.pb, g.pc, g.pa}, {g.pc, g.pa, g.pb}, {g.pc, g.pb, g.pa}} {
		e1, e2, e3 := f.pa == p[0], f.pb == p[1], f.pc == p[2]
		same = same || e1 && e2 && e3
	}
	eq := h1 == h2
	vs.Assert(eq == same, "faces have the same hash exactly if they have the same vertices")
	vs.Cover("done")
}

// All pairs of tetrahedra with vertex indices from 0 to 400 (thorough: 9999): they have the same hash only if they
// have the same four vertices, and do if these are given in the same order.
//verif:check B03
func Verif_B03_tetras() {
	m := 400 + 9599*vs.Tier()
	a := tetra{vs.Int("a", 0, m), vs.Int("b", 0, m), vs.Int("c", 0, m), vs.Int("d", 0, m), nil}
	b := tetra{vs.Int("e", 0, m), vs.Int("f", 0, m), vs.Int("g", 0, m), vs.Int("h", 0, m), nil}
	h1, h2 := tetraHash(a), tetraHash(b)
	vs.Merge(2)
	e1, e2, e3, e4 := a.ia == b.ia, a.ib == b.ib, a.ic == b.ic, a.id == b.id
	same := e1 && e2 && e3 && e4
	eq := h1 == h2
	vs.Assert(!same || eq, "the same tetrahedron has the same hash")
	// the vertices counted with repetitions agree
	set := true
	for _, i := range []int{a.ia, a.ib, a.ic, a.id} {
		ca, cb := 0, 0
		for _, j := range []int{a.ia, a.ib, a.ic, a.id} {
			if i == j {
				ca++
			}
		}
		for _, j := range []int{b.ia, b.ib, b.ic, b.id} {
			if i == j {
				cb++
			}
		}
		e := ca == cb
		set = set && e
	}
	vs.Assert(!eq || set, "different tetrahedra have different hashes")
	vs.Cover("done")
}

// All faces with vertex indices from 0 to 1000: a face is part of the mesh exactly if none of its vertices is
// 0, 1, 2 or 3, and then it is listed with the indices of the original points.
//verif:check B03
func Verif_B03_mesh() {
	f := face{vs.Int("a", 0, 1000), vs.Int("b", 0, 1000), vs.Int("c", 0, 1000)}
	part := f.isPartOfMesh()
	vs.Merge(2)
	e1, e2, e3 := f.pa > 3, f.pb > 3, f.pc > 3
	vs.Assert(part == (e1 && e2 && e3), "a face belongs to the mesh exactly if it has no vertex of the enclosing tetrahedron")
	vs.Merge(0)
	if !part {
		return
	}
	l := addFace([]int{7, 8, 9}, f)
	ok := len(l) == 6 && l[0] == 7 && l[1] == 8 && l[2] == 9
	vs.Assert(ok, "the listed faces are kept")
	if ok {
		vs.Assert(l[3] == f.pa-4 && l[4] == f.pb-4 && l[5] == f.pc-4, "the face is listed with the original indices")
	}
	vs.Cover("listed")
}
