package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func square() ([]r3.Vector, []int, []int) {
	ps := []r3.Vector{pt(0, 0), pt(4, 0), pt(4, 4), pt(0, 4)}
	return ps, []int{0, 3, 1, 1, 3, 2}, []int{-1, 3, -1, 1, -1, -1}
}

// Every half-edge list of length 0 to 6 (thorough 8) with values from -1 to the last index,
// on a square cut into two triangles: an error is reported exactly if some listed half-edge's
// twin is not paired back with it.
//verif:check D05
func Verif_D05_involution() {
	n := upTo("length", 0, 6, 8)
	ps, ts, _ := square()
	hs := make([]int, n)
	names := []string{"h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7"}
	for i := range hs {
		hs[i] = vs.Int(names[i], -1, n-1)
	}
	hull := []r3.Vector{ps[0], ps[1], ps[2], ps[3]}
	tri := &Triangulation{ps, hull, ts, hs}
	err := tri.Validate()
	vs.Merge(2)
	ok := true
	for i := range hs {
		for j := range hs {
			back := hs[i] != j || hs[j] == i
			ok = ok && back
		}
	}
	vs.Assert(ok || err != nil, "a list that is not an involution is rejected")
	vs.Assert(!ok || err == nil, "an involution is accepted")
	vs.Cover("done")
}

// The square again, right half-edges, with one of the corners of the recorded hull moved anywhere
// on [-2,6]^2 in quarters: an error is reported if the area of the recorded hull changes,
// and none if the hull is the hull of the points.
//verif:check D05
func Verif_D05_area() {
	ps, ts, hs := square()
	k := vs.Concretize(vs.Int("corner", 0, 3))
	q := r3.Vector{X: vs.Grid("x", -8, 24, -2), Y: vs.Grid("y", -8, 24, -2)}
	hull := []r3.Vector{ps[0], ps[1], ps[2], ps[3]}
	hull[k] = q
	tri := &Triangulation{ps, hull, ts, hs}
	err := tri.Validate()
	a, c := hull[(k+3)%4], hull[(k+1)%4]
	vs.Merge(2)
	same := orient(a, q, c) == 16
	vs.Assert(same || err != nil, "a hull of another area is rejected")
	right := equal2(q, ps[k])
	vs.Assert(!right || err == nil, "the right hull is accepted")
	vs.Cover("done")
	if err == nil {
		vs.Cover("accepted")
	}
}

// The square again, with a corner of the recorded hull moved parallel to the diagonal by up to
// 4 in 64ths, or outwards and another one inwards by the same amount: the area stays, the
// perimeter does not, and an error is reported.
//verif:check D05
func Verif_D05_perimeter() {
	ps, ts, hs := square()
	k := vs.Concretize(vs.Int("corner", 0, 3))
	s := vs.Grid("s", -256, 256, -6)
	hull := []r3.Vector{ps[0], ps[1], ps[2], ps[3]}
	if vs.Concretize(vs.Int("both", 0, 1)) == 1 {
		hull[k].X += s
		hull[(k+2)%4].X += s
	} else if k%2 == 0 {
		hull[k].X += s
		hull[k].Y -= s
	} else {
		hull[k].X += s
		hull[k].Y += s
	}
	tri := &Triangulation{ps, hull, ts, hs}
	err := tri.Validate()
	vs.Merge(2)
	still := s == 0
	vs.Assert(still || err != nil, "a hull of another perimeter is rejected")
	vs.Assert(!still || err == nil, "the right hull is accepted")
	vs.Cover("done")
	if err == nil {
		vs.Cover("accepted")
	}
}

// A triangulation of a square and a point in it, of four triangles: any of them dropped, any
// corner of any of them replaced by another vertex, or the inner point moved anywhere on
// [-3,8]^2: an error is reported if the triangles' signed areas do not add up to the hull's area, or the
// points' hull is another one.
//verif:check D05
func Verif_D05_cover() {
	in := anyPoint("in", -3, 8)
	ps := []r3.Vector{pt(0, 0), pt(4, 0), pt(4, 4), pt(0, 4), in}
	hull := []r3.Vector{ps[0], ps[1], ps[2], ps[3]}
	ts := []int{4, 1, 0, 4, 2, 1, 4, 3, 2, 4, 0, 3}
	drop := vs.Concretize(vs.Int("dropped triangle", -1, 3))
	slot := vs.Concretize(vs.Int("slot", -1, 11))
	if slot >= 0 {
		ts[slot] = vs.Concretize(vs.Int("vertex", 0, 4))
	}
	if drop >= 0 {
		ts = append(append([]int{}, ts[:3*drop]...), ts[3*drop+3:]...)
	}
	tri := &Triangulation{ps, hull, ts, []int{}}
	err := tri.Validate()
	vs.Merge(2)
	sum := 0.0
	for i := 0; i+2 < len(ts); i += 3 {
		sum -= orient(ps[ts[i]], ps[ts[i+1]], ps[ts[i+2]])
	}
	covers := sum == 32
	vs.Assert(covers || err != nil, "triangles that do not cover the hull are rejected")
	l, r, b, t := in.X >= 0, in.X <= 4, in.Y >= 0, in.Y <= 4
	inner := l && r && b && t
	vs.Assert(inner || err != nil, "a point outside the hull is noticed")
	vs.Assert(!(covers && inner) || err == nil, "a cover of the right hull is accepted")
	vs.Cover("done")
	if err == nil {
		vs.Cover("accepted")
	}
}

// A rectangle 2 by 6 and a point in it on the grid of quarters, with one of the four triangles
// dropped or listed twice, and a rectangle of the same perimeter recorded as hull, of any width in
// (0,8) on the grid of quarters: an error is reported unless the rectangle has the same
// area and the chosen triangle is flat.
//verif:check D05
func Verif_D05_rectangle() {
	in := r3.Vector{X: vs.Grid("x", 0, 8, -2), Y: vs.Grid("y", 0, 24, -2)}
	w := vs.Grid("w", 1, 31, -2)
	ps := []r3.Vector{pt(0, 0), pt(2, 0), pt(2, 6), pt(0, 6), in}
	hull := []r3.Vector{pt(0, 0), pt(w, 0), pt(w, 8-w), pt(0, 8-w)}
	ts := []int{4, 1, 0, 4, 2, 1, 4, 3, 2, 4, 0, 3}
	k := 3 * vs.Concretize(vs.Int("triangle", 0, 3))
	a, b := ps[ts[k+1]], ps[ts[k+2]]
	if vs.Concretize(vs.Int("twice", 0, 1)) == 1 {
		ts = append(append([]int{}, ts...), ts[k:k+3]...)
	} else {
		ts = append(append([]int{}, ts[:k]...), ts[k+3:]...)
	}
	tri := &Triangulation{ps, hull, ts, []int{}}
	err := tri.Validate()
	vs.Merge(2)
	w2, w6 := w == 2, w == 6
	flat := orient(a, b, in) == 0
	good := (w2 || w6) && flat
	vs.Assert(good || err != nil, "a hull of another area is rejected")
	vs.Assert(!good || err == nil, "a full cover of a hull of equal area is accepted")
	vs.Cover("done")
}

// A slanted quadrilateral with one corner of the recorded hull moved parallel to the diagonal
// through its neighbours by up to 4 times (5,2) in 64ths: the area stays, the perimeter grows or
// shrinks, and an error is reported (the mirror image, of equal perimeter, is not on that grid).
//verif:check D05
func Verif_D05_slanted() {
	ps := []r3.Vector{pt(0, 0), pt(8, 0), pt(10, 4), pt(2, 6)}
	s := vs.Grid("s", -256, 256, -6)
	hull := []r3.Vector{ps[0], pt(8+5*s, 2*s), ps[2], ps[3]}
	tri := &Triangulation{ps, hull, []int{0, 3, 1, 1, 3, 2}, []int{}}
	err := tri.Validate()
	vs.Merge(2)
	still := s == 0
	vs.Assert(still || err != nil, "a hull of another perimeter is rejected")
	vs.Assert(!still || err == nil, "the right hull is accepted")
	vs.Cover("done")
}

// What Triangulate returns for concrete points around the origin and one more point anywhere on
// the integer grid [-10,10]^2 (thorough: [-40,40]^2) at least 4 away (in one coordinate) from the
// origin is accepted.
//verif:check D05
func Verif_D05_accepts() {
	h := 10
	if vs.Tier() > 0 {
		h = 40
	}
	k := vs.Concretize(vs.Int("template", 0, len(templates)-1))
	p := anyPoint("p", -h, h)
	vs.Assume(outside(p, 4))
	tri, err := Triangulate(append(append([]r3.Vector(nil), templates[k]...), p))
	vs.Assert(err == nil, "a triangulation exists")
	vs.Merge(1)
	vs.Assert(tri.Validate() == nil, "the library's triangulation is accepted")
	vs.Cover("done")
}
