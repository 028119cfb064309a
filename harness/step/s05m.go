package step

import vs "geGoMetry/verifsym"

// Large surfaces: a control point matrix of 4 by 6, 7 by 3 or 12 by 5 references, 9 and 14 multiplicities and knots, with
// one arbitrary reference, multiplicity and knot each, and two such surfaces in a file.
//verif:check S05 steps=20000000
func Verif_S05_large() {
	k := vs.Concretize(vs.Int("shape", 0, 2))
	rows, cols := []int{4, 7, 12}[k], []int{6, 3, 5}[k]
	at := vs.Concretize(vs.Int("at", 0, 2))
	cp, cpOut := "(", "["
	for i := 0; i < rows; i++ {
		if i > 0 {
			cp += ","
			cpOut += " "
		}
		t, p := "", ""
		for j := 0; j < cols; j++ {
			e := "#1" + number5(i*cols+j)
			if i == at*(rows-1)/2 && j == at*(cols-1)/2 {
				e = "#" + vs.Str("cp", 3, digits5)
			}
			if j > 0 {
				t += ","
				p += " "
			}
			t += e
			p += e
		}
		cp += "(" + t + ")"
		cpOut += "[" + p + "]"
	}
	cp += ")"
	cpOut += "]"
	um, umOut := long("um", 9, at)
	vm, vmOut := long("vm", 14, at)
	uk, ukOut := long("uk", 9, at)
	vk, vkOut := long("vk", 14, at)
	args := "'a,b',3,2," + cp + ",.UNSPECIFIED.,.F.,.T.,.F.," + um + "," + vm + "," + uk + "," + vk + ",.UNSPECIFIED."
	t := lexed("DATA;\n#5=B_SPLINE_SURFACE_WITH_KNOTS(" + args + ");\nENDSEC;\n")
	out := vs.Output(func() { Parse(t) })
	reports(out, "name", "'a,b'")
	reports(out, "uDegree", "3")
	reports(out, "vDegree", "2")
	reports(out, "controlPointsList", cpOut)
	reports(out, "uClosed", "false")
	reports(out, "vClosed", "true")
	reports(out, "selfIntersect", "false")
	reports(out, "uMultiplicities", umOut)
	reports(out, "vMultiplicities", vmOut)
	reports(out, "uKnots", ukOut)
	reports(out, "vKnots", vkOut)
	vs.Cover("done")
}

const digits5 = "0123456789"

// long is a list of n numbers, one of them arbitrary, and the way it is printed.
func long(name string, n, at int) (text, printed string) {
	for i := 0; i < n; i++ {
		e := number5(i * 3)
		if i == at*(n-1)/2 {
			e = vs.Str(name, 3, digits5+".-E")
		}
		if i > 0 {
			text += ","
			printed += " "
		}
		text += e
		printed += e
	}
	return "(" + text + ")", "[" + printed + "]"
}

func number5(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return number5(i/10) + string(rune('0'+i%10))
}
