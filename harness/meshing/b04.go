package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// sphere is positive if p lies inside the sphere through a, b, c, d, if det(a, b, c, d) > 0.
func sphere(a, b, c, d, p r3.Vector) float64 {
	ax, ay, az := a.X-p.X, a.Y-p.Y, a.Z-p.Z
	bx, by, bz := b.X-p.X, b.Y-p.Y, b.Z-p.Z
	cx, cy, cz := c.X-p.X, c.Y-p.Y, c.Z-p.Z
	dx, dy, dz := d.X-p.X, d.Y-p.Y, d.Z-p.Z
	m := func(x1, y1, z1, x2, y2, z2, x3, y3, z3 float64) float64 {
		return x1*(y2*z3-z2*y3) - y1*(x2*z3-z2*x3) + z1*(x2*y3-y2*x3)
	}
	la, lb, lc, ld := ax*ax+ay*ay+az*az, bx*bx+by*by+bz*bz, cx*cx+cy*cy+cz*cz, dx*dx+dy*dy+dz*dz
	return la*m(bx, by, bz, cx, cy, cz, dx, dy, dz) - lb*m(ax, ay, az, cx, cy, cz, dx, dy, dz) + lc*m(ax, ay, az, bx, by, bz, dx, dy, dz) - ld*m(ax, ay, az, bx, by, bz, cx, cy, cz)
}

type quad struct {
	v    [4]int
	full bool // not coplanar
	free bool // no other point in the sphere
	gen  bool // no other point on the sphere
}

func quads(ps []r3.Vector) []quad {
	n := len(ps)
	var qs []quad
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for c := b + 1; c < n; c++ {
				for d := c + 1; d < n; d++ {
					o := det(ps[a], ps[b], ps[c], ps[d])
					pos, neg := o > 0, o < 0
					q := quad{v: [4]int{a, b, c, d}, full: pos || neg, free: true, gen: true}
					for e := 0; e < n; e++ {
						if e == a || e == b || e == c || e == d {
							continue
						}
						s := sphere(ps[a], ps[b], ps[c], ps[d], ps[e])
						in, out := s > 0, s < 0
						q.gen = q.gen && (in || out)
						q.free = q.free && (pos && out || neg && in)
					}
					qs = append(qs, q)
				}
			}
		}
	}
	return qs
}

// tessellates asserts that the points in general position are tessellated into the Delaunay tetrahedra; their slice has
// room for some more.
func tessellates(ps []r3.Vector, spare int) {
	n := len(ps)
	vs.Merge(2)
	qs := quads(ps)
	general := true
	for _, q := range qs {
		general = general && q.full && q.gen
	}
	vs.Merge(0)
	vs.Assume(general)
	array := make([]r3.Vector, n+spare)
	for i := range array {
		array[i] = at(-7, 9, 11)
	}
	copy(array, ps)
	given := array[:n]
	var l []int
	vs.Output(func() { l = bowyerWatson(given...) })
	vs.Merge(2)
	for i := range ps {
		vs.Assert(same(ps[i], given[i]), "the caller's points are not modified")
	}
	for _, p := range array[n:] {
		vs.Assert(same(p, at(-7, 9, 11)), "nor are those behind them in the caller's array")
	}
	vs.Assert(len(l)%3 == 0, "faces are triples")
	count := map[[3]int]int{}
	for i := 0; i+2 < len(l); i += 3 {
		a, b, c := l[i], l[i+1], l[i+2]
		if a > b {
			a, b = b, a
		}
		if b > c {
			b, c = c, b
		}
		if a > b {
			a, b = b, a
		}
		count[[3]int{a, b, c}]++
	}
	twice, none := true, true
	seen := 0
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			for c := b + 1; c < n; c++ {
				delaunay := false
				for _, q := range qs {
					in := 0
					for _, v := range q.v {
						if v == a || v == b || v == c {
							in++
						}
					}
					if in == 3 {
						delaunay = delaunay || q.free
					}
				}
				k := count[[3]int{a, b, c}]
				seen += k
				twice = twice && (!delaunay || k == 2)
				none = none && (delaunay || k == 0)
			}
		}
	}
	vs.Assert(twice, "every Delaunay face is reported twice")
	vs.Assert(none, "no other face is reported")
	vs.Assert(3*seen == len(l), "faces have three input points")
	vs.Cover("done")
}

var cells = [][]r3.Vector{
	{at(0, 0, 0), at(7, 1, 0), at(1, 8, -1), at(2, 1, 6)},
	{at(0, 0, 0), at(7, 1, 0), at(1, 8, -1), at(2, 1, 6), at(-5, 3, 2)},
	{at(0, 0, 0), at(7, 1, 0), at(1, 8, -1), at(2, 1, 6), at(-5, 3, 2), at(3, -6, 4)},
}

// Four, five or six concrete points in general position and another at any integer position up to 20 on one of
// six lines through a point near them, that keeps the points in general position; given last, first
// or third.
//verif:check B04
func Verif_B04_line() {
	k := vs.Concretize(vs.Int("template", 0, 1+vs.Tier()))
	u := lines4[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -20, 20, 0)
	p := r3.Vector{X: 1 + s*u.X, Y: s*u.Y + 2, Z: s*u.Z - 2}
	ps := append([]r3.Vector(nil), cells[k]...)
	switch vs.Concretize(vs.Int("place", 0, 2)) {
	case 0:
		ps = append(ps, p)
	case 1:
		ps = append([]r3.Vector{p}, ps...)
	default:
		ps = append(append([]r3.Vector{ps[0], ps[1]}, p), ps[2:]...)
	}
	tessellates(ps, 0)
}

// Four concrete points and another on a line as above, given third, with the internal tables traversed in
// reverse or rotated order, and the points in a slice with room for six more.
//verif:check B04
func Verif_B04_order() {
	u := lines4[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -20, 20, 0)
	c := cells[vs.Concretize(vs.Int("template", 0, 1))]
	p := r3.Vector{X: 1 + s*u.X, Y: s*u.Y + 2, Z: s*u.Z - 2}
	vs.MapOrder(vs.Concretize(vs.Int("order", 1, 2)))
	tessellates(append(append([]r3.Vector{c[0], c[1]}, p), c[2:]...), 6)
}

var lines4 = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}
