package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: 24 (thorough: 60) concrete points of the integer grid [-20,20]^3 and one on one of six lines through them at any integer position
// up to 40, in one of three places.
//verif:check T02 steps=5000000
func Verif_T02_many() {
	n := upTo("n", 24, 24, 24) + 36*vs.Tier()
	ps := scatter(n, 20, 9)
	u := lines2[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -40, 40, 0)
	ps[vs.Concretize(vs.Int("at", 0, 2))*(n-1)/2] = r3.Vector{X: 1 + s*u.X, Y: s * u.Y, Z: s*u.Z - 2}
	initial(ps)
}

// Other scales: a concrete list and a point on one of six lines at any multiple k*2^e, |k| <= 64, e one of -60, -30 and 30, the whole
// list multiplied by 2^e.
//verif:check T02
func Verif_T02_scales() {
	ex := []int{-60, -30, 30}[vs.Concretize(vs.Int("e", 0, 2))]
	ps := scaled(clouds[vs.Concretize(vs.Int("template", 2, len(clouds)-1))], ex)
	u := lines2[vs.Concretize(vs.Int("line", 0, 5))]
	s := vs.Grid("s", -64, 64, ex)
	p := r3.Vector{X: s * u.X, Y: s * u.Y, Z: s * u.Z}
	if vs.Concretize(vs.Int("first", 0, 1)) == 1 {
		ps = append([]r3.Vector{p}, ps...)
	} else {
		ps = append(ps, p)
	}
	initial(ps)
}

var lines2 = []r3.Vector{at(1, 0, 0), at(0, 1, 0), at(0, 0, 1), at(1, 1, 1), at(-1, 2, 1), at(3, 0, -2)}
