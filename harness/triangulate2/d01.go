package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
	"math"
)

// Every list of 3 points of the integer grid [-1000,1000]^2, not all collinear.
//verif:check D01
func Verif_D01_three() {
	checkHull([]r3.Vector{anyPoint("p", -1000, 1000), anyPoint("q", -1000, 1000), anyPoint("r", -1000, 1000)}, 0)
}

// Concrete points and one anywhere on the integer grid [-12,12]^2, first, in the middle or
// last in the list.
//verif:check D01
func Verif_D01_one() {
	p := anyPoint("p", -12, 12)
	t := hulls[vs.Concretize(vs.Int("template", 0, len(hulls)-1))]
	at := len(t) * vs.Concretize(vs.Int("at", 0, 2)) / 2
	ps := append(append(append([]r3.Vector(nil), t[:at]...), p), t[at:]...)
	checkHull(ps, 0)
}

// Concrete points and two anywhere on the integer grid [-6,6]^2, in a slice with
// room for more.
//verif:check D01
func Verif_D01_two() {
	p, q := anyPoint("p", -6, 6), anyPoint("q", -6, 6)
	t := hulls[vs.Concretize(vs.Int("template", 0, 2+2*vs.Tier()))]
	ps := append(append([]r3.Vector{p}, t...), q)
	checkHull(ps, 8)
}

var hulls = [][]r3.Vector{
	{pt(0, 0), pt(3, 1)},
	{pt(4, 0), pt(-4, 0), pt(0, 4)},
	{pt(0, 0), pt(2, 2), pt(4, 4)},
	{pt(0, 0), pt(0, 0), pt(5, 0), pt(0, 5)},
	{pt(0, 0), pt(4, 0), pt(8, 0), pt(8, 4), pt(8, 8), pt(4, 8), pt(0, 8), pt(0, 4)},
	{pt(-3, 5), pt(-3, -5), pt(-3, 0), pt(3, 5), pt(3, -5), pt(3, 0), pt(0, 0)},
	{pt(0, 7), pt(2, 3), pt(2, 3), pt(7, 2), pt(-5, -1), pt(6, -6), pt(-2, -8)},
}

// Points close together or far apart: concrete points and one anywhere on the grid of multiples of
// 2^e with coordinates of magnitude up to 12*2^e, e = -20 or 30.
//verif:check D01
func Verif_D01_fine() {
	ex := []int{-20, 30}[vs.Concretize(vs.Int("e", 0, 1))]
	p := r3.Vector{X: vs.Grid("p.x", -12, 12, ex), Y: vs.Grid("p.y", -12, 12, ex)}
	u := math.Ldexp(1, ex)
	ps := []r3.Vector{pt(0, 7*u), pt(2*u, 3*u), p, pt(7*u, 2*u), pt(-5*u, -u), pt(6*u, -6*u)}
	checkHull(ps, 0)
}
