package mesh

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// One to three (thorough: four) points and a query point anywhere on the integer grid [-1e6,1e6]^3.
//verif:check B02
func Verif_B02_nearest() {
	n := upTo("n", 1, 3, 4)
	ps := make([]r3.Vector, n)
	for i := range ps {
		ps[i] = anyPoint("p"+digit(i), 1000000)
	}
	q := anyPoint("q", 1000000)
	var r r3.Vector
	vs.Output(func() { r = getNearestPoint(ps, q) })
	vs.Merge(2)
	vs.Assert(member(r, ps), "the result is a point of the list")
	d := dist2(r, q)
	ok := true
	for _, p := range ps {
		e := dist2(p, q) >= d
		ok = ok && e
	}
	vs.Assert(ok, "no point of the list is closer")
	vs.Cover("done")
}

// Three points on lines through the origin (or through a point beside it) and the query on another one, at any multiples
// s and t, k*2^e with |k| <= 1000, e one of -40, -10, 0, 10 and 20.
//verif:check B02
func Verif_B02_scales() {
	ex := []int{-40, -10, 0, 10, 20}[vs.Concretize(vs.Int("e", 0, 4))]
	u := lines2[vs.Concretize(vs.Int("line", 0, 5))]
	s, t := vs.Grid("s", -1000, 1000, ex), vs.Grid("t", -1000, 1000, ex)
	q := r3.Vector{X: t * 3, Y: -t, Z: t}
	ps := []r3.Vector{{X: s * u.X, Y: s * u.Y, Z: s * u.Z}, {X: t * u.Y, Y: t * u.Z, Z: t * u.X}, {X: -s * u.Z, Y: s * u.X, Z: s * u.Y}}
	if vs.Bool("apart") {
		// far from the query
		for i := range ps {
			ps[i].X += math.Ldexp(1, ex+9)
		}
	}
	var r r3.Vector
	vs.Output(func() { r = getNearestPoint(ps, q) })
	vs.Merge(2)
	vs.Assert(member(r, ps), "the result is a point of the list")
	d := dist2(r, q)
	ok := true
	for _, p := range ps {
		e := dist2(p, q) >= d
		ok = ok && e
	}
	vs.Assert(ok, "no point of the list is closer")
	vs.Cover("done")
}

var lines2 = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}
