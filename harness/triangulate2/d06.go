package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// sameTriangles triangulates the points and their projections.
func sameTriangles(ps []r3.Vector) {
	flat := make([]r3.Vector, len(ps))
	for i := range ps {
		flat[i] = pt(ps[i].X, ps[i].Y)
	}
	t0, err0 := Triangulate(flat)
	t, err := Triangulate(ps)
	vs.Merge(2)
	vs.Assert((err == nil) == (err0 == nil), "success does not depend on the heights")
	if err0 != nil || err != nil {
		return
	}
	same := len(t.Triangles) == len(t0.Triangles) && len(t.Halfedges) == len(t0.Halfedges)
	for i := 0; same && i < len(t.Triangles); i++ {
		e := t.Triangles[i] == t0.Triangles[i]
		same = same && e
	}
	for i := 0; same && i < len(t.Halfedges); i++ {
		e := t.Halfedges[i] == t0.Halfedges[i]
		same = same && e
	}
	vs.Assert(same, "the triangles do not depend on the heights")
	hull := len(t.ConvexHull) == len(t0.ConvexHull)
	for i := 0; hull && i < len(t.ConvexHull); i++ {
		e := equal2(t.ConvexHull[i], t0.ConvexHull[i])
		hull = hull && e
	}
	vs.Assert(hull, "the outline of the hull does not depend on the heights")
	vs.Cover("triangulated")
}

// heights gives every point an integer height in [-1000,1000] of its own.
func heights(ps []r3.Vector) []r3.Vector {
	names := []string{"z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9", "z10", "z11"}
	q := make([]r3.Vector, len(ps))
	for i := range ps {
		q[i] = ps[i]
		q[i].Z = vs.Grid(names[i], -1000, 1000, 0)
	}
	return q
}

// Ten planar templates - general position, cocircular, with coincident points, collinear,
// too few - with every point at any integer height in [-1000,1000].
//verif:check D06
func Verif_D06_templates() {
	ts := [][]r3.Vector{
		{},
		{pt(1, 1), pt(1, 1), pt(2, 5)},
		{pt(0, 0), pt(1, 1), pt(2, 2), pt(4, 4)},
		{pt(0, 0), pt(4, 0), pt(0, 4)},
		{pt(0, 0), pt(4, 0), pt(4, 4), pt(0, 4), pt(2, 2), pt(2, 2)},
		{pt(5, 0), pt(4, 3), pt(3, 4), pt(0, 5), pt(-3, 4), pt(-4, -3), pt(3, -4), pt(0, 0)},
		{pt(3, 1), pt(-7, 2), pt(5, 9), pt(1, -8), pt(-2, -3), pt(8, -1), pt(-5, 6), pt(0, 4), pt(7, 7)},
		{pt(0, 0), pt(1, 0), pt(2, 0), pt(0, 1), pt(1, 1), pt(2, 1), pt(0, 2), pt(1, 2), pt(2, 2)},
		{pt(2, 3), pt(2, 3), pt(9, 1), pt(9, 1), pt(4, 8), pt(4, 8), pt(1, 6)},
		{pt(1, 2), pt(10, 3), pt(20, 1), pt(30, 4), pt(40, 2), pt(25, 30), pt(12, 11), pt(26, -9), pt(13, 2), pt(31, 8)},
	}
	k := vs.Concretize(vs.Int("template", 0, len(ts)-1))
	sameTriangles(heights(ts[k]))
}

// A concrete cluster, and another point anywhere on [-10,10]^2 at least 4 away from the origin,
// all at any integer height in [-1000,1000].
//verif:check D06
func Verif_D06_anywhere() {
	k := vs.Concretize(vs.Int("template", 0, len(templates)-1))
	p := anyPoint("p", -10, 10)
	vs.Assume(outside(p, 4))
	sameTriangles(heights(append(append([]r3.Vector(nil), templates[k]...), p)))
}
