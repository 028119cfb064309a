package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

func upTo(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

func at(x, y, z float64) r3.Vector { return r3.Vector{X: x, Y: y, Z: z} }

func digit(i int) string { return string(rune('0' + i)) }

// anyPoint is any point of the integer grid [-m,m]^3.
func anyPoint(name string, m int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, 0), Y: vs.Grid(name+".y", -m, m, 0), Z: vs.Grid(name+".z", -m, m, 0)}
}

// det is six times the signed volume of a tetrahedron.
func det(a, b, c, d r3.Vector) float64 {
	bx, by, bz := b.X-a.X, b.Y-a.Y, b.Z-a.Z
	cx, cy, cz := c.X-a.X, c.Y-a.Y, c.Z-a.Z
	dx, dy, dz := d.X-a.X, d.Y-a.Y, d.Z-a.Z
	return bx*(cy*dz-cz*dy) - by*(cx*dz-cz*dx) + bz*(cx*dy-cy*dx)
}

// square is the squared area of the parallelogram of a, b, c.
func square(a, b, c r3.Vector) float64 {
	bx, by, bz := b.X-a.X, b.Y-a.Y, b.Z-a.Z
	cx, cy, cz := c.X-a.X, c.Y-a.Y, c.Z-a.Z
	x, y, z := by*cz-bz*cy, bz*cx-bx*cz, bx*cy-by*cx
	return x*x + y*y + z*z
}

func same(a, b r3.Vector) bool {
	e1, e2, e3 := a.X == b.X, a.Y == b.Y, a.Z == b.Z
	return e1 && e2 && e3
}

func member(p r3.Vector, ps []r3.Vector) bool {
	in := false
	for i := range ps {
		e := same(p, ps[i])
		in = in || e
	}
	return in
}

// contains tells whether p lies in the closed tetrahedron, from its four volumes.
func contains(v []r3.Vector, p r3.Vector) bool {
	d := det(v[0], v[1], v[2], v[3])
	a := det(p, v[1], v[2], v[3])
	b := det(v[0], p, v[2], v[3])
	c := det(v[0], v[1], p, v[3])
	e := det(v[0], v[1], v[2], p)
	p1, p2, p3, p4, p0 := a >= 0, b >= 0, c >= 0, e >= 0, d > 0
	n1, n2, n3, n4, n0 := a <= 0, b <= 0, c <= 0, e <= 0, d < 0
	return p0 && p1 && p2 && p3 && p4 || n0 && n1 && n2 && n3 && n4
}

// pointAt is any point with coordinates k*2^ex, |k| <= m.
func pointAt(name string, m, ex int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, ex), Y: vs.Grid(name+".y", -m, m, ex), Z: vs.Grid(name+".z", -m, m, ex)}
}

// scatter is a list of n concrete points of the integer grid [-m,m]^3.
func scatter(n, m, seed int) []r3.Vector {
	ps := make([]r3.Vector, n)
	x := uint32(seed)
	next := func() float64 {
		x = x*1664525 + 1013904223
		return float64(int(x>>16)%(2*m+1) - m)
	}
	for i := range ps {
		ps[i] = r3.Vector{X: next(), Y: next(), Z: next()}
	}
	return ps
}

func initial(ps []r3.Vector) {
	v := createInitialTetra(append([]r3.Vector(nil), ps...))
	vs.Merge(2)
	vs.Assert(len(v) == 4, "there are four vertices")
	if len(v) != 4 {
		return
	}
	vs.Assert(member(v[0], ps) && member(v[1], ps) && member(v[2], ps) && member(v[3], ps), "the vertices are input points")
	base := square(v[0], v[1], v[2])
	vol := det(v[0], v[1], v[2], v[3])
	ext, large, far := true, true, true
	for _, p := range ps {
		e1, e2 := v[0].X <= p.X, v[1].X >= p.X
		ext = ext && e1 && e2
		e3 := square(v[0], v[1], p) <= base
		large = large && e3
		d := det(v[0], v[1], v[2], p)
		e4, e5, e6, e7 := d <= vol, d <= -vol, -d <= vol, -d <= -vol
		far = far && (e4 && e6 || e5 && e7)
	}
	vs.Assert(ext, "the first two vertices are extreme along X")
	vs.Assert(large, "the third vertex spans the largest triangle with them")
	vs.Assert(far, "the fourth vertex spans the largest volume with them")
	flat := vol == 0
	if !flat {
		vs.Cover("solid")
	} else {
		vs.Cover("flat")
	}
}

var clouds = [][]r3.Vector{
	{},
	{at(0, 0, 0)},
	{at(0, 0, 0), at(5, 1, 0)},
	{at(1, -3, 2), at(4, 4, 4), at(-5, 0, 1)},
	{at(0, 0, 0), at(6, 0, 0), at(0, 6, 0), at(0, 0, 6)},
	{at(-6, 2, 1), at(6, -2, -1), at(0, 0, 0), at(1, 5, 3)},
}

func scaled(ps []r3.Vector, ex int) []r3.Vector {
	f := math.Ldexp(1, ex)
	out := make([]r3.Vector, len(ps))
	for i, p := range ps {
		out[i] = at(p.X*f, p.Y*f, p.Z*f)
	}
	return out
}

func finite(name string) r3.Vector {
	v := r3.Vector{X: vs.Float64(name + ".x"), Y: vs.Float64(name + ".y"), Z: vs.Float64(name + ".z")}
	for _, c := range []float64{v.X, v.Y, v.Z} {
		ok := c >= -math.MaxFloat64
		ok2 := c <= math.MaxFloat64
		vs.Assume(ok && ok2)
	}
	return v
}
