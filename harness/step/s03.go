package step

import (
	vs "geGoMetry/verifsym"
	"reflect"
)

// Every list "(" text ")" whose balanced text has 0..7 bytes (thorough: 0..8) over
// all printable bytes and the tab.
//verif:check S03
func Verif_S03_array() {
	n := upTo("n", 0, 7, 8)
	s, want := list("text", n, listText)
	got := getArray("("+s+")", reflect.String)
	vs.Assert(same(got, want), "elements are cut at the top-level commas only")
	if len(want) == 3 {
		vs.Cover("three elements")
	}
}

// Every matrix of 0..3 rows (thorough: 4) with 0..3 elements each, rows of
// different lengths included; elements are one or two arbitrary letters, digits or signs,
// or quoted strings with an arbitrary byte; optional blanks after the commas.
//verif:check S03
func Verif_S03_matrix() {
	rows := upTo("rows", 0, 3, 4)
	blank := []string{"", " "}[vs.Concretize(vs.Int("blank", 0, 1))]
	text := "("
	var want [][]string
	for i := 0; i < rows; i++ {
		if i > 0 {
			text += "," + blank
		}
		text += "("
		cols := upTo("cols", 0, 3, 3)
		row := []string{}
		for j := 0; j < cols; j++ {
			var e string
			if i == 0 && j == 0 {
				e = "'" + vs.Str("q", 1, inString) + "'"
			} else {
				e = vs.Str("e", 1+j%2, "#.-+0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")
			}
			if j > 0 {
				text += "," + blank
			}
			text += e
			row = append(row, e)
		}
		text += ")"
		want = append(want, row)
	}
	text += ")"
	got := getMatrix(text)
	vs.Assert(len(got) == len(want), "one row per inner list")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		vs.Assert(same(got[i], want[i]), "a row holds the elements of its inner list in order")
	}
	if rows == 3 {
		vs.Cover("three rows")
	}
}

// Every text of 0..4 bytes (thorough: 5) over letters, digits, '.', blanks.
//verif:check S03
func Verif_S03_logical() {
	n := upTo("n", 0, 4, 5)
	s := vs.Str("text", n, ".TFUtfu 01")
	vs.Assert(getLogical(s) == (s == ".T."), "true for .T. and nothing else")
	if s == ".T." {
		vs.Cover("true")
	}
	if s == ".F." {
		vs.Cover("false")
	}
}

// Deep nesting: a list of three elements, one nested 1 to 8 (thorough: 16) levels deep, with an arbitrary text of up to two
// bytes of the list alphabet (balanced), commas and quoted strings at every level; and the same as one row of a matrix.
//verif:check S03
func Verif_S03_deep() {
	d := upTo("depth", 1, 8, 16)
	in, _ := list("in", upTo("n", 0, 2, 3), listText)
	a := in
	for i := 0; i < d; i++ {
		a = "(" + vs.Str("l", 1, "#.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "," + a + ",'" + vs.Str("r", 1, inString) + "')"
	}
	got := getArray("(#1,"+a+",$)", reflect.String)
	vs.Assert(same(got, []string{"#1", a, "$"}), "nested lists of any depth are one element")
	m := getMatrix("((1.," + a + "),(2.),(" + a + ",3.))")
	vs.Assert(len(m) == 3, "one row per inner list")
	if len(m) == 3 {
		vs.Assert(same(m[0], []string{"1.", a}) && same(m[1], []string{"2."}) && same(m[2], []string{a, "3."}), "rows hold nested elements unchanged")
	}
	vs.Cover("done")
}

// Wide shapes: matrices of 4 to 12 rows (thorough: 24) and 4 to 6 columns, one arbitrary element of one to three bytes in any
// place.
//verif:check S03
func Verif_S03_wide() {
	rows := upTo("rows", 4, 12, 24)
	cols := upTo("cols", 4, 6, 9)
	e := vs.Str("e", 1+vs.Concretize(vs.Int("n", 0, 2)), "#.-+0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	ei, ej := vs.Concretize(vs.Int("i", 0, 2)), vs.Concretize(vs.Int("j", 0, 3))
	ei, ej = ei*(rows-1)/2, ej*(cols-1)/3
	text := "("
	want := make([][]string, rows)
	for i := range want {
		if i > 0 {
			text += ","
		}
		text += "("
		for j := 0; j < cols; j++ {
			x := string(rune('a'+i)) + string(rune('0'+j))
			if i == ei && j == ej {
				x = e
			}
			if j > 0 {
				text += ","
			}
			text += x
			want[i] = append(want[i], x)
		}
		text += ")"
	}
	got := getMatrix(text + ")")
	vs.Assert(len(got) == rows, "one row per inner list")
	if len(got) != rows {
		return
	}
	ok := true
	for i := range want {
		eq := same(got[i], want[i])
		ok = ok && eq
	}
	vs.Assert(ok, "a row holds the elements of its inner list in order")
	vs.Cover("done")
}

// Characters outside ASCII: a quoted string with one of nine characters of two to four bytes between two arbitrary ones of
// "(),;=#A ", in a list and in a matrix.
//verif:check S03
func Verif_S03_unicode() {
	q := "'" + vs.Str("before", 1, few) + wide[vs.Concretize(vs.Int("c", 0, len(wide)-1))] + vs.Str("after", 1, few) + "'"
	got := getArray("("+q+",#1, "+q+")", reflect.String)
	vs.Assert(same(got, []string{q, "#1", q}), "elements are kept as they are")
	m := getMatrix("((" + q + "),(#1," + q + "))")
	vs.Assert(len(m) == 2, "one row per inner list")
	if len(m) == 2 {
		vs.Assert(same(m[0], []string{q}) && same(m[1], []string{"#1", q}), "rows hold the elements unchanged")
	}
	vs.Cover("done")
}
