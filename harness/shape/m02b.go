package shape

import (
	"geGoMetry/r3"

	vs "geGoMetry/verifsym"
)

// Meshes with more than 2^16 vertices: spheres and tori with 257 x 258 samples (spheres also with the 300 x 300 of
// ConstructSphere), the coordinates identified by their place in the sample grid.
//verif:check M02 steps=2000000000
func Verif_M02_large() {
	kind := vs.Concretize(vs.Int("kind", sphereKind, torusKind))
	n, s := 257, 258
	if kind == sphereKind && vs.Concretize(vs.Int("built-in", 0, 1)) == 1 {
		n, s = 300, 300
	}
	var m Mesh
	if n == 300 {
		m = ConstructSphere(r3.Vector{}, 1)
	} else {
		m = build(kind, n, s, r3.Vector{}, 2, 1)
	}
	vs.Assert(len(m.Vertices) == (n+1)*(s+1), "sample-grid")
	cl := make([]int, (n+1)*(s+1))
	for i := 0; i <= s; i++ {
		for j := 0; j <= n; j++ {
			r := i
			c := j % n
			if kind == sphereKind && (i == 0 || i == s) {
				c = 0
			}
			if kind == torusKind {
				r = i % s
			}
			cl[i*(n+1)+j] = r*n + c
		}
	}
	// every directed edge at most once, each with its reverse; bit 0: low to high, bit 1: high to low
	edges := map[int]int{}
	faces, twice := 0, 0
	for t := 0; t+2 < len(m.Indices); t += 3 {
		a, b, c := cl[m.Indices[t]], cl[m.Indices[t+1]], cl[m.Indices[t+2]]
		if a == b || b == c || c == a {
			continue
		}
		faces++
		for r := 0; r < 3; r++ {
			a, b, c = b, c, a
			k, bit := a*n*(s+1)+b, 1
			if a > b {
				k, bit = b*n*(s+1)+a, 2
			}
			if edges[k]&bit != 0 {
				twice++
			}
			edges[k] |= bit
		}
	}
	vs.Assert(twice == 0, "each-directed-edge-once")
	vs.Assert(len(edges)*2 == faces*3, "each-edge-with-its-reverse")
	if kind == sphereKind {
		vs.Assert(n*(s-1)+2-faces/2 == 2, "euler-characteristic")
	} else {
		vs.Assert(n*s-faces/2 == 0, "euler-characteristic")
	}
	vs.Cover("end")
}
