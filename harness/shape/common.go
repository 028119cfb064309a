package shape

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

const (
	circleKind = iota
	ellipseKind
	sphereKind
	torusKind
)

// build constructs one of the four primitives with n sectors and m stacks.
func build(kind, n, m int, c r3.Vector, r, q float64) Mesh {
	switch kind {
	case circleKind:
		return Circle{center: c, radius: r, sectorCount: n}.Construct()
	case ellipseKind:
		return Ellipse{center: c, semiAxis1: r, semiAxis2: q, sectorCount: n}.Construct()
	case sphereKind:
		return Sphere{center: c, radius: r, sectorCount: n, stackCount: m}.Construct()
	}
	return Torus{center: c, radius: r, tubeRadius: q, sectorCount: n, stackCount: m}.Construct()
}

func count(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

func centre(r int) r3.Vector {
	return r3.Vector{X: vs.Grid("c.x", -r, r, -2), Y: vs.Grid("c.y", -r, r, -2), Z: vs.Grid("c.z", -r, r, -2)}
}

func fabs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// classes numbers the vertices so that coincident ones share a number.
func classes(vt []r3.Vector) ([]int, int) {
	out := make([]int, len(vt))
	var reps []r3.Vector
	for i, v := range vt {
		out[i] = -1
		for k, w := range reps {
			if fabs(v.X-w.X) < 1e-9 && fabs(v.Y-w.Y) < 1e-9 && fabs(v.Z-w.Z) < 1e-9 {
				out[i] = k
				break
			}
		}
		if out[i] < 0 {
			out[i] = len(reps)
			reps = append(reps, v)
		}
	}
	return out, len(reps)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
