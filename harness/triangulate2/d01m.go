package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// Long lists: 15, 40 or (thorough) 100 concrete points of the integer grid [-30,30]^2, some of them above each other, and one on
// one of four lines across them at any integer position up to 40, first, in the middle or last in the list.
//verif:check D01 steps=5000000
func Verif_D01_many() {
	n := []int{15, 40, 100}[vs.Concretize(vs.Int("n", 0, 1+vs.Tier()))]
	s := vs.Grid("s", -40, 40, 0)
	p := []r3.Vector{{X: s, Y: 3}, {X: -2, Y: s}, {X: s, Y: s}, {X: 31, Y: s}}[vs.Concretize(vs.Int("line", 0, 3))]
	t := scatter(n, 30, n)
	at := n * vs.Concretize(vs.Int("at", 0, 2)) / 2
	checkHull(append(append(append([]r3.Vector(nil), t[:at]...), p), t[at:]...), 0)
}
