package triangulate3

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// A concrete list of up to four points and one more anywhere on the integer grid [-64,64]^3,
// first or last in the list.
//verif:check T02
func Verif_T02_one() {
	k := vs.Concretize(vs.Int("template", 0, len(clouds)-1))
	p := anyPoint("p", 64)
	ps := append([]r3.Vector(nil), clouds[k]...)
	if vs.Concretize(vs.Int("first", 0, 1)) == 1 {
		ps = append([]r3.Vector{p}, ps...)
	} else {
		ps = append(ps, p)
	}
	initial(ps)
}

// Two (thorough: also three) concrete points and two more, one anywhere on the integer grid [-8,8]^3 (thorough:
// [-64,64]^3) and one on a line in space at any integer position of that range, among them.
//verif:check T02
func Verif_T02_two() {
	m := 8
	if vs.Tier() > 0 {
		m = 64
	}
	k := vs.Concretize(vs.Int("template", 2, 2+vs.Tier()))
	p := anyPoint("p", m)
	s := vs.Grid("s", -m, m, 0)
	q := []r3.Vector{{X: s, Y: 2, Z: -3}, {X: 1, Y: s, Z: s}}[vs.Concretize(vs.Int("line", 0, 1))]
	ps := append([]r3.Vector{q}, clouds[k]...)
	initial(append(ps, p))
}
