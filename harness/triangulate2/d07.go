package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

func space(name string, m int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, 0), Y: vs.Grid(name+".y", -m, m, 0), Z: vs.Grid(name+".z", -m, m, 0)}
}

// All triples of points with integer coordinates up to 2^20: area is minus twice the signed
// area, cross2D twice the signed area - of the planar points, whatever the heights.
//verif:check D07
func Verif_D07_turn() {
	m := 1 << 20
	a, b, c := space("a", m), space("b", m), space("c", m)
	o := orient(a, b, c)
	s, t := area(a, b, c), cross2D(a, b, c)
	vs.Merge(2)
	e1, e2, e3 := s > 0, s < 0, o < 0
	e4 := o > 0
	vs.Assert(e1 == e3 && e2 == e4, "area has the sign of the orientation determinant, clockwise positive")
	f1, f2 := t > 0, t < 0
	vs.Assert(f1 == e4 && f2 == e3, "cross2D has the sign of the orientation determinant")
	vs.Cover("done")
	if o == 0 {
		vs.Cover("collinear")
	}
}

// All quadruples of points with integer coordinates up to 2^10: inCircle holds exactly for the
// points strictly inside the circle through three clockwise points.
//verif:check D07
func Verif_D07_circle() {
	m := 1 << 10
	a, b, c, p := space("a", m), space("b", m), space("c", m), space("p", m)
	got := inCircle(a, b, c, p)
	vs.Merge(2)
	in := incircle(a, c, b, p) > 0
	// incircle(a,c,b,.) is the polynomial whose sign is that of containment in the circle
	// through the counter-clockwise a, c, b
	vs.Assert(got == in, "inCircle is the in-circle determinant")
	vs.Cover("done")
}

// One of five concrete points and any two others with integer coordinates up to 64, not
// collinear: the computed circumcentre o solves 2 o.(b-a) = |b|^2-|a|^2 (likewise for c) up to 1e-5,
// so that it has the same distance from the three, and the computed circumradius is the
// square of that distance up to 0.01.
//verif:check D07 big=5
func Verif_D07_centre() {
	m := 64
	firsts := []r3.Vector{pt(0, 0), {X: 3, Y: -7, Z: 5}, pt(-64, 63), pt(1, 0), pt(32, 64)}
	a, b, c := firsts[vs.Concretize(vs.Int("first", 0, len(firsts)-1))], space("b", m), space("c", m)
	d := orient(a, b, c)
	vs.Assume(d != 0)
	o := circumcenter(a, b, c)
	r := circumradius(a, b, c)
	ox, oy := o.X-a.X, o.Y-a.Y
	bx, by, cx, cy := b.X-a.X, b.Y-a.Y, c.X-a.X, c.Y-a.Y
	vs.Merge(2)
	rb := 2*(ox*bx+oy*by) - (bx*bx + by*by)
	rc := 2*(ox*cx+oy*cy) - (cx*cx + cy*cy)
	e1, e2, e3, e4 := rb <= 1e-5, rb >= -1e-5, rc <= 1e-5, rc >= -1e-5
	vs.Assert(e1 && e2 && e3 && e4, "the circumcentre is equidistant")
	dr := r - (ox*ox + oy*oy)
	e5, e6 := dr <= 0.01, dr >= -0.01
	vs.Assert(e5 && e6, "the circumradius is the squared distance")
	vs.Cover("regular")
}

// Three collinear points, the second and third at any integer multiples up to 2^10 of one of
// five directions from the first: the radius is infinite.
//verif:check D07
func Verif_D07_degenerate() {
	m := 1 << 10
	a := space("a", m)
	dirs := []r3.Vector{pt(1, 0), pt(0, 1), pt(1, 1), pt(-3, 2), pt(5, 7)}
	u := dirs[vs.Concretize(vs.Int("direction", 0, len(dirs)-1))]
	s, t := vs.Grid("s", -m, m, 0), vs.Grid("t", -m, m, 0)
	b := r3.Vector{X: a.X + s*u.X, Y: a.Y + s*u.Y, Z: s}
	c := r3.Vector{X: a.X + t*u.X, Y: a.Y + t*u.Y, Z: t}
	r := circumradius(a, b, c)
	vs.Assert(r > 1e300, "degenerate triples have infinite radius")
	vs.Cover("degenerate")
}

func spaceAt(name string, m, ex int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", -m, m, ex), Y: vs.Grid(name+".y", -m, m, ex), Z: vs.Grid(name+".z", -m, m, 0)}
}

// The turn tests at other scales: all triples of points with coordinates k*2^e, |k| <= 2^20, e one of -20, -50, -100, 30 and 100.
//verif:check D07
func Verif_D07_turnscales() {
	m := 1 << 20
	ex := []int{-20, -50, -100, 30, 100}[vs.Concretize(vs.Int("e", 0, 4))]
	a, b, c := spaceAt("a", m, ex), spaceAt("b", m, ex), spaceAt("c", m, ex)
	o := orient(a, b, c)
	s, t := area(a, b, c), cross2D(a, b, c)
	vs.Merge(2)
	e1, e2, e3, e4 := s > 0, s < 0, o < 0, o > 0
	vs.Assert(e1 == e3 && e2 == e4, "area has the sign of the orientation determinant, clockwise positive")
	f1, f2 := t > 0, t < 0
	vs.Assert(f1 == e4 && f2 == e3, "cross2D has the sign of the orientation determinant")
	vs.Cover("done")
}

// The in-circle test at other scales: all quadruples of points with coordinates k*2^e, |k| <= 2^10, e one of -11, -30, -80, 20 and 80.
//verif:check D07
func Verif_D07_circlescales() {
	m := 1 << 10
	ex := []int{-11, -30, -80, 20, 80}[vs.Concretize(vs.Int("e", 0, 4))]
	a, b, c, p := spaceAt("a", m, ex), spaceAt("b", m, ex), spaceAt("c", m, ex), spaceAt("p", m, ex)
	got := inCircle(a, b, c, p)
	vs.Merge(2)
	in := incircle(a, c, b, p) > 0
	vs.Assert(got == in, "inCircle is the in-circle determinant")
	vs.Cover("done")
}

// Circumcentre and circumradius at other scales: one of two concrete points and any two others with coordinates k*2^e,
// |k| <= 64, e one of -25, -60, 20 and 60, collinear or not; tolerances as above, relative to the scale.
//verif:check D07 big=5
func Verif_D07_centrescales() {
	m := 64
	ex := []int{-25, -60, 20, 60}[vs.Concretize(vs.Int("e", 0, 3))]
	f := math.Ldexp(1, ex)
	a := []r3.Vector{pt(0, 0), pt(-64*f, 63*f)}[vs.Concretize(vs.Int("first", 0, 1))]
	b, c := spaceAt("b", m, ex), spaceAt("c", m, ex)
	d := orient(a, b, c)
	if d == 0 {
		r := circumradius(a, b, c)
		vs.Assert(r > 1e300, "degenerate triples have infinite radius")
		vs.Cover("degenerate")
		return
	}
	o := circumcenter(a, b, c)
	r := circumradius(a, b, c)
	ox, oy := o.X-a.X, o.Y-a.Y
	bx, by, cx, cy := b.X-a.X, b.Y-a.Y, c.X-a.X, c.Y-a.Y
	vs.Merge(2)
	rb := 2*(ox*bx+oy*by) - (bx*bx + by*by)
	rc := 2*(ox*cx+oy*cy) - (cx*cx + cy*cy)
	e1, e2, e3, e4 := rb <= 1e-5*f*f, rb >= -1e-5*f*f, rc <= 1e-5*f*f, rc >= -1e-5*f*f
	vs.Assert(e1 && e2 && e3 && e4, "the circumcentre is equidistant")
	dr := r - (ox*ox + oy*oy)
	e5, e6 := dr <= 0.01*f*f, dr >= -0.01*f*f
	vs.Assert(e5 && e6, "the circumradius is the squared distance")
	vs.Cover("regular")
}
