package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func upTo(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

func at(x, y, z float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: z} }

func digit(i int) string { return string(rune('0' + i)) }

// anyPoint is any point of the integer grid [-m,m]^3.
func anyPoint(name string, m int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, 0), Y: vs.Grid(name+".y", -m, m, 0), Z: vs.Grid(name+".z", -m, m, 0)}
}

// det is six times the signed volume of a tetrahedron.
func det(a, b, c, d r3.Vector) float64 {
	bx, by, bz := b.X-a.X, b.Y-a.Y, b.Z-a.Z
	cx, cy, cz := c.X-a.X, c.Y-a.Y, c.Z-a.Z
	dx, dy, dz := d.X-a.X, d.Y-a.Y, d.Z-a.Z
	return bx*(cy*dz-cz*dy) - by*(cx*dz-cz*dx) + bz*(cx*dy-cy*dx)
}

// square is the squared area of the parallelogram of a, b, c.
func square(a, b, c r3.Vector) float64 {
	bx, by, bz := b.X-a.X, b.Y-a.Y, b.Z-a.Z
	cx, cy, cz := c.X-a.X, c.Y-a.Y, c.Z-a.Z
	x, y, z := by*cz-bz*cy, bz*cx-bx*cz, bx*cy-by*cx
	return x*x + y*y + z*z
}

func same(a, b r3.Vector) bool {
	e1, e2, e3 := a.X == b.X, a.Y == b.Y, a.Z == b.Z
	return e1 && e2 && e3
}

func member(p r3.Vector, ps []r3.Vector) bool {
	in := false
	for i := range ps {
		e := same(p, ps[i])
		in = in || e
	}
	return in
}

// contains tells whether p lies in the closed tetrahedron, from its four volumes.
func contains(v []r3.Vector, p r3.Vector) bool {
	d := det(v[0], v[1], v[2], v[3])
	a := det(p, v[1], v[2], v[3])
	b := det(v[0], p, v[2], v[3])
	c := det(v[0], v[1], p, v[3])
	e := det(v[0], v[1], v[2], p)
	p1, p2, p3, p4, p0 := a >= 0, b >= 0, c >= 0, e >= 0, d > 0
	n1, n2, n3, n4, n0 := a <= 0, b <= 0, c <= 0, e <= 0, d < 0
	return p0 && p1 && p2 && p3 && p4 || n0 && n1 && n2 && n3 && n4
}

// pointAt is any point with coordinates k*2^ex, |k| <= m.
func pointAt(name string, m, ex int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, ex), Y: vs.Grid(name+".y", -m, m, ex), Z: vs.Grid(name+".z", -m, m, ex)}
}

func dist2(a, b r3.Vector) float64 {
	x, y, z := a.X-b.X, a.Y-b.Y, a.Z-b.Z
	return x*x + y*y + z*z
}

func encloses(ps []r3.Vector) {
	list := append([]r3.Vector(nil), ps...)
	t := englobe(&list)
	if len(list) != len(ps)+4 {
		vs.Assert(false, "four points are added")
		return
	}
	v := []r3.Vector{list[t.ia], list[t.ib], list[t.ic], list[t.id]}
	vs.Merge(2)
	for _, p := range ps {
		vs.Assert(contains(v, p), "the tetrahedron contains every point")
	}
	vs.Cover("done")
}

var linesM = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}

// scatter is a list of n concrete points of the integer grid [-m,m]^3.
func scatter(n, m, seed int) []r3.Vector {
	ps := make([]r3.Vector, n)
	x := uint32(seed)
	next := func() float64 {
		x = x*1664525 + 1013904223
		return float64(int(x>>16)%(2*m+1) - m)
	}
	for i := range ps {
		ps[i] = r3.Vector{X: next(), Y: next(), Z: next()}
	}
	return ps
}
