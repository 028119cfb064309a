package predicates

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

func vgrid(name string, lo, hi, ex int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", lo, hi, ex), Y: vs.Grid(name+".y", lo, hi, ex), Z: vs.Grid(name+".z", lo, hi, ex)}
}

// vgrid3 is vgrid with an exponent for each axis.
func vgrid3(name string, lo, hi int, ex [3]int) r3.Vector {
	return r3.Vector{X: vs.Grid(name+".x", lo, hi, ex[0]), Y: vs.Grid(name+".y", lo, hi, ex[1]), Z: vs.Grid(name+".z", lo, hi, ex[2])}
}

func det3(a, b, c r3.Vector) float64 {
	return a.Z*(b.X*c.Y-b.Y*c.X) - b.Z*(a.X*c.Y-a.Y*c.X) + c.Z*(a.X*b.Y-a.Y*b.X)
}
func det4(a, b, c, d r3.Vector) float64 {
	// rows (p,1): expansion along the column of ones
	return det3(a, b, c) - det3(a, b, d) + det3(a, c, d) - det3(b, c, d)
}

func det5(p [5]r3.Vector) float64 {
	// the determinant of the rows (x, y, z, x*x+y*y+z*z, 1), expanded along the column of ones
	s := 0.
	sign := 1.
	for i := 4; i >= 0; i-- {
		var q [4]r3.Vector
		n := 0
		for j := 0; j < 5; j++ {
			if j != i {
				q[n] = p[j]
				n++
			}
		}
		l := [4]float64{}
		for j := range q {
			l[j] = q[j].X*q[j].X + q[j].Y*q[j].Y + q[j].Z*q[j].Z
		}
		m := -l[0]*det3(q[1], q[2], q[3]) + l[1]*det3(q[0], q[2], q[3]) - l[2]*det3(q[0], q[1], q[3]) + l[3]*det3(q[0], q[1], q[2])
		s += sign * m
		sign = -sign
	}
	return s
}
