package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func upTo(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

// pt is a point of the plane at a height that depends on its place.
func pt(x, y float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: x - 2*y} }

// anyPoint is any point of the integer grid [lo,hi]^2, at any integer height up to 8.
func anyPoint(name string, lo, hi int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", lo, hi, 0), Y: vs.Grid(name+".y", lo, hi, 0), Z: vs.Grid(name+".z", -8, 8, 0)}
}

// orient is twice the signed area of a triangle, positive counter-clockwise.
func orient(a, b, c r3.Vector) float64 {
	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
}

// incircle is positive if p lies inside the circle through the counter-clockwise a, b, c.
func incircle(a, b, c, p r3.Vector) float64 {
	ax, ay := a.X-p.X, a.Y-p.Y
	bx, by := b.X-p.X, b.Y-p.Y
	cx, cy := c.X-p.X, c.Y-p.Y
	return (ax*ax+ay*ay)*(bx*cy-by*cx) - (bx*bx+by*by)*(ax*cy-ay*cx) + (cx*cx+cy*cy)*(ax*by-ay*bx)
}

func equal2(a, b r3.Vector) bool {
	ok := a.X == b.X
	ok2 := a.Y == b.Y
	return ok && ok2
}

// delaunay asserts that a triangulation of ps (not all collinear) is Delaunay and tiles
// the convex hull.
func delaunay(ps []r3.Vector, t *Triangulation) {
	vs.Merge(2)
	ts := t.Triangles
	n := len(ps)
	vs.Assert(len(ts) > 0 && len(ts)%3 == 0, "triangles are triples")
	used := make([]bool, n)
	turn, empty := true, true
	for i := 0; i+2 < len(ts); i += 3 {
		a, b, c := ts[i], ts[i+1], ts[i+2]
		in := a >= 0 && b >= 0 && c >= 0 && a < n && b < n && c < n
		vs.Assert(in, "triangles use input points only")
		if !in {
			return
		}
		used[a], used[b], used[c] = true, true, true
		e := orient(ps[a], ps[b], ps[c]) < 0
		turn = turn && e
		for k := range ps {
			if k != a && k != b && k != c {
				e := incircle(ps[a], ps[c], ps[b], ps[k]) <= 0
				empty = empty && e
			}
		}
	}
	vs.Assert(turn, "triangles are non-degenerate and consistently oriented")
	vs.Assert(empty, "no point is strictly inside a circumcircle")
	tile(ps, ts)
	for k := range ps {
		if used[k] {
			continue
		}
		// an unused point coincides with a used one
		dup := false
		for j := range ps {
			if used[j] {
				e := equal2(ps[j], ps[k])
				dup = dup || e
			}
		}
		vs.Assert(dup, "every distinct point is a vertex of a triangle")
	}
	boundary(ps, t)
}

// tile asserts that the triangles cover the hull of the points: every directed edge occurs
// once, and an edge without its reverse has no point on its outer side.
func tile(ps []r3.Vector, ts []int) {
	once, inside := true, true
	for i := range ts {
		a, b := ts[i], ts[i-i%3+(i+1)%3]
		same, rev := 0, 0
		for j := range ts {
			c, d := ts[j], ts[j-j%3+(j+1)%3]
			if c == a && d == b {
				same++
			}
			if c == b && d == a {
				rev++
			}
		}
		once = once && same == 1 && rev <= 1
		if rev == 0 {
			for k := range ps {
				if k != a && k != b {
					e := orient(ps[a], ps[b], ps[k]) <= 0
					inside = inside && e
				}
			}
		}
	}
	vs.Assert(once, "an edge belongs to at most one triangle on each side")
	vs.Assert(inside, "the triangles reach the convex hull")
}

// boundary asserts that the reported hull is the boundary of the triangles.
func boundary(ps []r3.Vector, t *Triangulation) {
	ts := t.Triangles
	outer := 0
	hull := t.ConvexHull
	all := true
	for i := range ts {
		a, b := ts[i], ts[i-i%3+(i+1)%3]
		paired := false
		for j := range ts {
			if ts[j] == b && ts[j-j%3+(j+1)%3] == a {
				paired = true
			}
		}
		if paired {
			continue
		}
		outer++
		found := false
		for h := range hull {
			g := hull[(h+1)%len(hull)]
			f := hull[h]
			e1 := equal2(f, ps[a])
			e2 := equal2(g, ps[b])
			e3 := equal2(f, ps[b])
			e4 := equal2(g, ps[a])
			ok := e1 && e2 || e3 && e4
			found = found || ok
		}
		all = all && found
	}
	vs.Assert(all, "every outer edge is an edge of the reported hull")
	vs.Assert(outer == len(hull), "the reported hull has no other edges")
}

func notCollinear(ps []r3.Vector) bool {
	ok := false
	for i := range ps {
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				o := orient(ps[i], ps[j], ps[k]) != 0
				ok = ok || o
			}
		}
	}
	return ok
}

func outside(p r3.Vector, d float64) bool {
	far := p.X >= d
	far2 := p.X <= -d
	far3 := p.Y >= d
	far4 := p.Y <= -d
	return far || far2 || far3 || far4
}

var templates = [][]r3.Vector{
	{pt(0, 0), pt(2, 0), pt(0, 2)},
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 0), pt(0, 16), pt(-16, 0), pt(0, -16)},
}

// frames are points around the origin whose outer four fix the first triangle.
var frames = [][]r3.Vector{
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 13), pt(-16, 2), pt(1, 16), pt(0, -16)},
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, 10), pt(-16, 14), pt(8, 16), pt(-3, -16), pt(0, 10)},
	{pt(0, 0), pt(2, 0), pt(0, 2), pt(16, -13), pt(-16, -2), pt(-14, 16), pt(15, -16), pt(5, -1), pt(-8, 1)},
}

// scatter is a list of n concrete points of the integer grid [-m,m]^2, some of them with equal coordinates.
func scatter(n, m, seed int) []r3.Vector {
	ps := make([]r3.Vector, n)
	x := uint32(seed)
	next := func() float64 {
		x = x*1664525 + 1013904223
		return float64(int(x>>16)%(2*m+1) - m)
	}
	for i := range ps {
		ps[i] = r3.Vector{X: next(), Y: next(), Z: float64(i%5 - 2)}
		if i%7 == 3 {
			ps[i].X = ps[i-1].X
		}
	}
	return ps
}

// hullOK asserts that h is the boundary polygon of the convex hull of ps.
func hullOK(ps, h []r3.Vector) {
	vs.Merge(2)
	vs.Assert(len(h) >= 3, "the hull has an interior")
	member, distinct := true, true
	ccw, cw := true, true
	for i := range h {
		a, b, c := h[i], h[(i+1)%len(h)], h[(i+2)%len(h)]
		in := false
		for k := range ps {
			e := equal2(ps[k], a)
			in = in || e
			o := orient(a, b, ps[k])
			pos, neg := o >= 0, o <= 0
			ccw, cw = ccw && pos, cw && neg
		}
		member = member && in
		for j := 0; j < i; j++ {
			e := equal2(h[j], a)
			distinct = distinct && !e
		}
		straight := orient(a, b, c) == 0
		fwd := (b.X-a.X)*(c.X-b.X)+(b.Y-a.Y)*(c.Y-b.Y) > 0
		ok := !straight || fwd
		distinct = distinct && ok
	}
	vs.Assert(member, "every hull vertex is an input point")
	vs.Assert(distinct, "no vertex is repeated and no edge runs back")
	vs.Assert(ccw || cw, "every point lies on the inner side of every edge")
}

// checkHull runs ConvexHull on ps, assumed not all collinear, in a slice with room for some more.
func checkHull(ps []r3.Vector, spare int) {
	vs.Merge(2)
	vs.Assume(notCollinear(ps))
	vs.Merge(0)
	orig := append([]r3.Vector(nil), ps...)
	array := make([]r3.Vector, len(ps)+spare)
	for i := range array {
		array[i] = pt(-7, 11)
	}
	copy(array, ps)
	ps = array[:len(ps)]
	h := ConvexHull(ps)
	vs.Merge(2)
	same := len(ps) == len(orig)
	for i := range ps {
		e := ps[i] == orig[i]
		same = same && e
	}
	for _, p := range array[len(ps):] {
		e := p == pt(-7, 11)
		same = same && e
	}
	vs.Assert(same, "the caller's points are untouched")
	hullOK(orig, h)
	vs.Cover("done")
	if len(h) < len(ps) {
		vs.Cover("a point is not a vertex")
	}
}

// run triangulates and reports success; a panic is a violation by itself.
func run(ps []r3.Vector) bool {
	t, err := Triangulate(ps)
	if err == nil {
		vs.Assert(t != nil && (len(ps) == 0 || len(t.Triangles) > 0), "success means triangles")
	}
	return err == nil
}
