package step

import vs "geGoMetry/verifsym"

// visitedFrom processes one instance and gives the instances of the table processed.
func visitedFrom(t SymbolTable, key string) map[string]bool {
	p := &Parser{lexemes: t, visited: map[string]struct{}{}}
	p.runInferenceModel(parseState{fn: p.bridge(t[key]), key: key})
	out := map[string]bool{}
	for _, k := range []string{"#1", "#2", "#3", "#4", "#5", "#6", "#7", "#8", "#9"} {
		_, in := t[k]
		_, v := p.visited[k]
		out[k] = in && v
	}
	return out
}

// opt is a reference to one of the instances named by the digits, or the sign of a missing attribute.
func opt(name, digits string) string {
	if vs.Bool(name + " missing") {
		return "$"
	}
	return "#" + vs.Str(name, 1, digits)
}

func ref(name string) string { return "#" + vs.Str(name, 1, "123456789") }

// A shape (#1) whose definition attribute names an arbitrary product definition among
// #2..#4; every product definition has arbitrary references to instances in all attributes
// after the first, and its formation and context are of the types the standard requires
// (#5, #6 formations, #7, #8 contexts, undefined or missing).
//verif:check S06
func Verif_S06_product() {
	t := SymbolTable{}
	def := opt("definition", "2349")
	t["#1"] = Definition{Type: "PRODUCT_DEFINITION_SHAPE", Arguments: []string{"'s'", ref("description"), def}}
	form, ctx := map[string]string{}, map[string]string{}
	for _, k := range []string{"#2", "#3", "#4"} {
		form[k], ctx[k] = "#"+vs.Str("formation", 1, "569"), "#"+vs.Str("context", 1, "789")
		if k != "#2" {
			form[k], ctx[k] = opt("formation", "569"), opt("context", "789")
		}
		t[k] = Definition{Type: "PRODUCT_DEFINITION", Arguments: []string{ref("id"), ref("description"), form[k], ctx[k]}}
	}
	for _, k := range []string{"#5", "#6"} {
		t[k] = Definition{Type: "PRODUCT_DEFINITION_FORMATION", Arguments: []string{"'f'", ref("description"), ref("product")}}
	}
	for _, k := range []string{"#7", "#8"} {
		t[k] = Definition{Type: "PRODUCT_DEFINITION_CONTEXT", Arguments: []string{"'c'", ref("frame"), "'stage'"}}
	}
	got := visitedFrom(t, "#1")
	for _, k := range []string{"#1", "#2", "#3", "#4", "#5", "#6", "#7", "#8"} {
		want := k == "#1" || k == def
		for _, d := range []string{"#2", "#3", "#4"} {
			if d == def && (k == form[d] || k == ctx[d]) {
				want = true
			}
		}
		vs.Assert(got[k] == want, "a shape is followed to its definition, and that to its formation and context")
	}
	if def == "#3" {
		vs.Cover("definition found")
	}
}

// A placement (#1) with arbitrary references in all its attributes: location among points
// #2, #3, axis and reference direction among directions #4..#6, each possibly missing.
//verif:check S06
func Verif_S06_placement() {
	t := SymbolTable{}
	loc, ax, rd := opt("location", "239"), opt("axis", "4569"), opt("direction", "4569")
	t["#1"] = Definition{Type: "AXIS2_PLACEMENT_3D", Arguments: []string{ref("name"), loc, ax, rd}}
	for _, k := range []string{"#2", "#3"} {
		t[k] = Definition{Type: "CARTESIAN_POINT", Arguments: []string{ref("name"), "(1.,2.,3.)"}}
	}
	for _, k := range []string{"#4", "#5", "#6"} {
		t[k] = Definition{Type: "DIRECTION", Arguments: []string{ref("name"), "(0.,0.,1.)"}}
	}
	got := visitedFrom(t, "#1")
	for _, k := range []string{"#1", "#2", "#3", "#4", "#5", "#6"} {
		want := k == "#1" || k == loc || k == ax || k == rd
		vs.Assert(got[k] == want, "a placement is followed to its location and axes")
	}
	vs.Cover("done")
}

// An advanced face (#1) with arbitrary references in all its attributes, its surface being
// a sphere, a torus, another kind of surface or missing; spheres and tori refer to
// arbitrary placements.
//verif:check S06
func Verif_S06_face() {
	t := SymbolTable{}
	surf := opt("surface", "2345679")
	t["#1"] = Definition{Type: "ADVANCED_FACE", Arguments: []string{ref("name"), ref("bounds"), surf, ref("sense")}}
	kinds := []string{"SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "PLANE", "CONICAL_SURFACE"}
	for i, k := range []string{"#2", "#3", "#4", "#5", "#6", "#7"} {
		t[k] = Definition{Type: kinds[i], Arguments: []string{ref("name"), ref("placement"), ref("radius"), ref("minor")}}
	}
	got := visitedFrom(t, "#1")
	for i, k := range []string{"#2", "#3", "#4", "#5", "#6", "#7"} {
		if i < 4 {
			vs.Assert(got[k] == (k == surf), "a face is followed to its spherical or toroidal surface")
		} else {
			vs.Assert(!got[k] || k == surf, "a face is followed to no other instance")
		}
	}
	vs.Cover("done")
}

// The other supported types have no followed references: arbitrary references in 0..5
// attributes are not processed.
//verif:check S06
func Verif_S06_leaves() {
	leaf := []string{"CARTESIAN_POINT", "VERTEX_POINT", "VERTEX_LOOP", "FACE", "CLOSED_SHELL", "DIRECTION", "PRODUCT_DEFINITION_CONTEXT",
		"PRODUCT_DEFINITION_FORMATION", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "UNSUPPORTED"}
	m := vs.Concretize(vs.Int("args", 0, 5))
	args := make([]string, m)
	for i := range args {
		args[i] = ref("arg")
	}
	t := SymbolTable{"#1": Definition{Type: leaf[vs.Concretize(vs.Int("type", 0, len(leaf)-1))], Arguments: args}}
	for _, k := range []string{"#2", "#3", "#4"} {
		t[k] = Definition{Type: "DIRECTION", Arguments: []string{"''", "(0.,0.,1.)"}}
	}
	got := visitedFrom(t, "#1")
	vs.Assert(got["#1"] && !got["#2"] && !got["#3"] && !got["#4"], "no reference is followed")
	vs.Cover("done")
}
