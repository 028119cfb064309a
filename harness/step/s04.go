package step

import vs "geGoMetry/verifsym"

var types = []string{"CARTESIAN_POINT", "VERTEX_POINT", "VERTEX_LOOP", "AXIS2_PLACEMENT_3D", "FACE", "B_SPLINE_SURFACE_WITH_KNOTS",
	"ADVANCED_FACE", "CLOSED_SHELL", "DIRECTION", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION",
	"PRODUCT_DEFINITION_SHAPE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "MANIFOLD_SOLID_BREP", "UNKNOWN", ""}

// Every table of two instances (thorough: three) of any known or unknown type with 0..4
// arguments (one argument list may be longer), each any two bytes of '#', digits, '$',
// parentheses, quote and blank, so that references to any instance and to missing ones are
// included; in both table orders.
//verif:check S04 steps=400000
func Verif_S04_terminates() {
	n := 2
	if vs.Tier() > 0 {
		n = 3
	}
	t := SymbolTable{}
	for i := 0; i < n; i++ {
		typ := types[vs.Concretize(vs.Int("type", 0, len(types)-1))]
		m := vs.Concretize(vs.Int("args", 0, 4))
		var args []string
		for k := 0; k < m; k++ {
			args = append(args, vs.Str("arg", 2, "#1239$()' "))
		}
		t[[]string{"#1", "#2", "#3"}[i]] = Definition{Type: typ, Arguments: args}
	}
	vs.MapOrder(vs.Concretize(vs.Int("order", 0, 1)))
	p := vs.Catch(func() { Parse(t) })
	vs.Assert(!p, "parsing never crashes")
	vs.Cover("done")
}

// A B-spline surface, sphere, torus, face or placement instance with 0..13 arguments, each
// of 0..2 (one of them: 0..3) arbitrary bytes among parentheses, commas, quotes, blanks, '.'
// and letters, balanced or not.
//verif:check S04
func Verif_S04_arguments() {
	kinds := []string{"B_SPLINE_SURFACE_WITH_KNOTS", "ADVANCED_FACE", "SPHERICAL_SURFACE", "AXIS2_PLACEMENT_3D", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE"}
	kind := kinds[vs.Concretize(vs.Int("kind", 0, len(kinds)-1))]
	m := vs.Concretize(vs.Int("args", 0, 13))
	at := vs.Concretize(vs.Int("at", 0, 12))
	vs.Assume(at < m || at == 0)
	args := make([]string, m)
	for i := range args {
		if i == at {
			args[i] = vs.Str("text", upTo("n", 0, 3, 4), "()',. T#F")
		}
	}
	t := SymbolTable{"#1": Definition{Type: kind, Arguments: args}}
	p := vs.Catch(func() { Parse(t) })
	vs.Assert(!p, "parsing never crashes")
	vs.Cover("done")
}

// Every file of 0..5 bytes (thorough: 0..7) over '#', '=', '(', ')', ';', ',', quote, blank,
// line break, a letter and a digit.
//verif:check S04
func Verif_S04_text() {
	n := upTo("n", 0, 5, 7)
	s := vs.Str("text", n, "#=();', \nA1")
	p := vs.Catch(func() { Parse(lexed(s)) })
	vs.Assert(!p, "reading any text never crashes")
	vs.Cover("done")
}
