package r3

import vs "geGoMetry/verifsym"

func vgrid(name string, lo, hi, ex int) Vector {
	return Vector{X: vs.Grid(name+".x", lo, hi, ex), Y: vs.Grid(name+".y", lo, hi, ex), Z: vs.Grid(name+".z", lo, hi, ex)}
}

func vabs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}
