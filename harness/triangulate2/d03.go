package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// paired asserts that the half-edges of triangles ts are an involution that pairs opposite
// directions of the same segment in different triangles.
func paired(ps []r3.Vector, ts, hs []int) {
	vs.Assert(len(ts) == len(hs) && len(ts)%3 == 0, "one half-edge per triangle corner")
	if len(ts) != len(hs) {
		return
	}
	at := func(i int) r3.Vector { return ps[ts[i]] }
	nx := func(i int) int { return i - i%3 + (i+1)%3 }
	for i, j := range hs {
		if j == -1 {
			continue
		}
		in := j >= 0 && j < len(hs)
		vs.Assert(in, "a half-edge is -1 or an index of the list")
		if !in {
			continue
		}
		vs.Assert(hs[j] == i, "pairing is symmetric")
		vs.Assert(i/3 != j/3, "the two half-edges belong to different triangles")
		vs.Assert(equal2(at(i), at(nx(j))) && equal2(at(j), at(nx(i))), "paired half-edges are the two directions of one segment")
	}
}

// unpairedAreHull asserts that the unpaired half-edges are the edges of the hull polygon.
func unpairedAreHull(ps []r3.Vector, t *Triangulation) {
	vs.Merge(2)
	n := 0
	hull := t.ConvexHull
	for i, j := range t.Halfedges {
		if j != -1 || i >= len(t.Triangles) {
			continue
		}
		n++
		a, b := ps[t.Triangles[i]], ps[t.Triangles[i-i%3+(i+1)%3]]
		found := false
		for h := range hull {
			f, g := hull[h], hull[(h+1)%len(hull)]
			e1 := equal2(f, a) && equal2(g, b)
			e2 := equal2(f, b) && equal2(g, a)
			found = found || e1 || e2
		}
		vs.Assert(found, "an unpaired half-edge is an edge of the hull")
	}
	vs.Assert(n == len(hull), "every edge of the hull is an unpaired half-edge")
}

// Complete runs on concrete points around the origin and one more point anywhere on the
// integer grid [-40,40]^2 at least 4 away (in one coordinate) from the origin.
//verif:check D03
func Verif_D03_run() {
	k := vs.Concretize(vs.Int("template", 0, vs.Tier()))
	p := anyPoint("p", -40, 40)
	vs.Assume(outside(p, 4))
	ps := append([]r3.Vector{p}, runs[k]...)
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	paired(ps, t.Triangles, t.Halfedges)
	unpairedAreHull(ps, t)
	vs.Cover("done")
}

// Complete runs inside a frame of concrete points, with one point anywhere on the integer
// grid [-15,15]^2 at least 4 away (in one coordinate) from the origin.
//verif:check D03
func Verif_D03_frame() {
	k := vs.Concretize(vs.Int("template", 0, 1))
	p := anyPoint("p", -15, 15)
	vs.Assume(outside(p, 4))
	ps := append(append([]r3.Vector(nil), insides[k]...), p)
	t, err := Triangulate(ps)
	vs.Assert(err == nil, "a triangulation exists")
	if err != nil {
		return
	}
	paired(ps, t.Triangles, t.Halfedges)
	unpairedAreHull(ps, t)
	vs.Cover("done")
}

var insides = [][]r3.Vector{
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 13), pt(-16, 2), pt(1, 16), pt(0, -16)},
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 10), pt(-16, 14), pt(8, 16), pt(-3, -16), pt(0, 10)},
}

var runs = [][]r3.Vector{
	{pt(0, 0), pt(2, 0), pt(0, 2)},
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 0), pt(0, 16), pt(-16, 0), pt(0, -16)},
}
