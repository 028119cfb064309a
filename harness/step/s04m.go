package step

import vs "geGoMetry/verifsym"

// Large tables: 60 concrete instances of all known types, each referring to others, and one with up to four arguments of any
// two bytes of '#', digits, '$', parentheses, quote and blank; in two table orders.
//verif:check S04 steps=20000000
func Verif_S04_large() {
	t := SymbolTable{}
	n := 60
	for i := 0; i < n; i++ {
		typ := types4[i%len(types4)]
		a, b, c := number(i*7%n), number((i+1)%n), number((i+31)%(n+3))
		t["#"+number(i)] = Definition{Type: typ, Arguments: []string{"''", "#" + a, "#" + b, "(#" + c + ",#" + a + ")", "#" + c}}
	}
	var args []string
	for k := vs.Concretize(vs.Int("args", 0, 4)); k > 0; k-- {
		args = append(args, vs.Str("arg", 2, "#1239$()' "))
	}
	at := vs.Concretize(vs.Int("at", 0, 2)) * 29
	t["#"+number(at)] = Definition{Type: types4[vs.Concretize(vs.Int("type", 0, len(types4)-1))], Arguments: args}
	vs.MapOrder(vs.Concretize(vs.Int("order", 0, 1)))
	p := vs.Catch(func() { Parse(t) })
	vs.Assert(!p, "parsing never crashes")
	vs.Cover("done")
}

func number(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return number(i/10) + string(rune('0'+i%10))
}

var types4 = []string{"CARTESIAN_POINT", "VERTEX_POINT", "VERTEX_LOOP", "AXIS2_PLACEMENT_3D", "FACE",
	"ADVANCED_FACE", "CLOSED_SHELL", "DIRECTION", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION",
	"PRODUCT_DEFINITION_SHAPE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "MANIFOLD_SOLID_BREP", "UNKNOWN"}
