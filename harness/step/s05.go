package step

import vs "geGoMetry/verifsym"

// listOf builds the text of a list and the way it is printed.
func listOf(name string, n, width int, alphabet string) (text, printed string) {
	for i := 0; i < n; i++ {
		e := vs.Str(name, width, alphabet)
		if i > 0 {
			text += ","
			printed += " "
		}
		text += e
		printed += e
	}
	return "(" + text + ")", "[" + printed + "]"
}

func logical(name string) (text, printed string) {
	if vs.Concretize(vs.Int(name, 0, 1)) == 1 {
		return ".T.", "true"
	}
	return ".F.", "false"
}

const (
	digits = "0123456789"
	reals  = "0123456789.-E"
)

// One B_SPLINE_SURFACE_WITH_KNOTS instance read from file text, with arbitrary one- or
// two-byte attribute texts, arbitrary flags, a control point matrix of 1..2 by 1..2 (thorough:
// 1..3 by 1..3) arbitrary references and lists of 0..3 multiplicities and knots.
//verif:check S05
func Verif_S05_surface() {
	name := "'" + vs.Str("name", 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "'"
	ud, vd := vs.Str("ud", 1, digits), vs.Str("vd", 2, digits)
	rows, cols := upTo("rows", 1, 2, 3), upTo("cols", 1, 2, 3)
	cp, cpOut := "(", "["
	for i := 0; i < rows; i++ {
		if i > 0 {
			cp += ","
			cpOut += " "
		}
		t, p := "", ""
		for j := 0; j < cols; j++ {
			e := "#" + vs.Str("cp", 1, digits)
			if j > 0 {
				t += ","
				p += " "
			}
			t += e
			p += e
		}
		cp += "(" + t + ")"
		cpOut += "[" + p + "]"
	}
	cp += ")"
	cpOut += "]"
	form := "." + vs.Str("form", 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ_") + "."
	uc, ucOut := logical("uc")
	vc, vcOut := logical("vc")
	si, siOut := logical("si")
	n := upTo("n", 0, 2, 3)
	um, umOut := listOf("um", n, 1, digits)
	vm, vmOut := listOf("vm", 2, 1, digits)
	uk, ukOut := listOf("uk", 2, 2, reals)
	vk, vkOut := listOf("vk", n, 2, reals)
	sep := []string{",", ", "}[vs.Concretize(vs.Int("sep", 0, 1))]
	args := name
	for _, a := range []string{ud, vd, cp, form, uc, vc, si, um, vm, uk, vk, ".UNSPECIFIED."} {
		args += sep + a
	}
	t := lexed("DATA;\n#5=B_SPLINE_SURFACE_WITH_KNOTS(" + args + ");\nENDSEC;\n")
	out := vs.Output(func() { Parse(t) })
	reports(out, "name", name)
	reports(out, "uDegree", ud)
	reports(out, "vDegree", vd)
	reports(out, "controlPointsList", cpOut)
	reports(out, "surfaceForm", form)
	reports(out, "uClosed", ucOut)
	reports(out, "vClosed", vcOut)
	reports(out, "selfIntersect", siOut)
	reports(out, "uMultiplicities", umOut)
	reports(out, "vMultiplicities", vmOut)
	reports(out, "uKnots", ukOut)
	reports(out, "vKnots", vkOut)
	vs.Cover("done")
}

// A spherical surface with arbitrary name, placement reference and radius texts of 1..4
// bytes, alone and as the surface of an advanced face.
//verif:check S05
func Verif_S05_radius() {
	name := "'" + vs.Str("name", 2, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "'"
	ref := "#" + vs.Str("ref", 2, digits)
	vs.Assume(ref != "#77" && ref != "#78")
	r := vs.Str("radius", upTo("n", 1, 4, 6), reals)
	text := "DATA;\n#77=SPHERICAL_SURFACE(" + name + "," + ref + "," + r + ");\n"
	if vs.Concretize(vs.Int("face", 0, 1)) == 1 {
		text += "#78=ADVANCED_FACE('',(" + ref + "),#77,.T.);\n"
	}
	t := lexed(text)
	vs.MapOrder(vs.Concretize(vs.Int("order", 0, 1)))
	out := vs.Output(func() { Parse(t) })
	reports(out, "radius", r)
	vs.Cover("done")
}
