package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// One to four (thorough: five) points with any finite 64-bit coordinates: the extremes are the smallest and
// the largest coordinates.
//verif:check B01 ieee
func Verif_B01_extremes() {
	n := upTo("n", 1, 4, 5)
	ps := make([]r3.Vector, n)
	for i := range ps {
		v := r3.Vector{X: vs.Float64("p" + digit(i) + ".x"), Y: vs.Float64("p" + digit(i) + ".y"), Z: vs.Float64("p" + digit(i) + ".z")}
		for _, c := range []float64{v.X, v.Y, v.Z} {
			ok := c >= -math.MaxFloat64
			ok2 := c <= math.MaxFloat64
			vs.Assume(ok && ok2)
		}
		ps[i] = v
	}
	vs.Merge(2)
	h := helper{}
	h.findExtremas(ps...)
	los, his := []float64{h.min.X, h.min.Y, h.min.Z}, []float64{h.max.X, h.max.Y, h.max.Z}
	for k := range los {
		below, above, touchLo, touchHi := true, true, false, false
		for _, p := range ps {
			c := []float64{p.X, p.Y, p.Z}[k]
			e1, e2, e3, e4 := los[k] <= c, c <= his[k], los[k] == c, c == his[k]
			below, above = below && e1, above && e2
			touchLo, touchHi = touchLo || e3, touchHi || e4
		}
		vs.Assert(below, "no coordinate is smaller than the minimum")
		vs.Assert(above, "no coordinate is larger than the maximum")
		vs.Assert(touchLo && touchHi, "the extremes are coordinates of points")
	}
	vs.Cover("done")
}

// One to three (thorough: five) points anywhere on the integer grid [-1e6,1e6]^3: the four vertices are put before
// the points, which stay the same, and the tetrahedron and its faces name the first four.
//verif:check B01
func Verif_B01_list() {
	n := upTo("n", 1, 2, 3)
	ps := make([]r3.Vector, n)
	for i := range ps {
		ps[i] = anyPoint("p"+digit(i), 1000000)
	}
	list := append([]r3.Vector(nil), ps...)
	given := list
	t := englobe(&list)
	vs.Merge(2)
	vs.Assert(len(list) == n+4, "four points are added")
	if len(list) != n+4 {
		return
	}
	kept := true
	for i := range ps {
		e, f := same(list[i+4], ps[i]), same(given[i], ps[i])
		kept = kept && e && f
	}
	vs.Assert(kept, "the points follow unchanged")
	vs.Assert(t.ia == 0 && t.ib == 1 && t.ic == 2 && t.id == 3, "the tetrahedron's vertices are the added points")
	masks := map[int]bool{}
	for _, f := range t.faces {
		if f.pa >= 0 && f.pb >= 0 && f.pc >= 0 && f.pa < 4 && f.pb < 4 && f.pc < 4 {
			masks[1<<uint(f.pa)|1<<uint(f.pb)|1<<uint(f.pc)] = true
		}
	}
	vs.Assert(len(t.faces) == 4 && masks[7] && masks[11] && masks[13] && masks[14], "its faces are the four vertex triples")
	vs.Cover("done")
}

var lines = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}

// A cluster of one to three points near one of three centres: one at the centre, one
// at any integer position up to 1000, or from 5e5 to 1e6, on six lines through it, one on a
// parallel line, as far behind it. The centres are near the origin and near (1e8,-1e8,1e8) and
// (-1e8,1e8,0).
//verif:check B01
func Verif_B01_contains() {
	c := []r3.Vector{at(3, -4, 5), at(1e8, -1e8, 1e8), at(-1e8, 1e8, 1)}[vs.Concretize(vs.Int("centre", 0, 2))]
	u := lines[vs.Concretize(vs.Int("line", 0, 5))]
	s := 0.0
	if vs.Concretize(vs.Int("wide", 0, 1)) == 1 {
		s = vs.Grid("s", 500000, 1000000, 0)
	} else {
		s = vs.Grid("s", -1000, 1000, 0)
	}
	q := r3.Vector{X: c.X + 1 + s*u.X, Y: c.Y + s*u.Y, Z: c.Z + s*u.Z - 2}
	ps := []r3.Vector{c}
	switch vs.Concretize(vs.Int("n", 1, 3)) {
	case 2:
		ps = append(ps, q)
	case 3:
		ps = append(ps, q, r3.Vector{X: 7 - q.X + 2*c.X, Y: q.Y + 11, Z: 5 - q.Z + 2*c.Z})
	}
	encloses(ps)
}
