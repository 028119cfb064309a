package step

import vs "geGoMetry/verifsym"

// Every balanced argument text of 0..7 bytes (thorough: 0..8) over all printable
// bytes and the tab, followed by ")" and any of
// "", ";", " ;".
//verif:check S02
func Verif_S02_arguments() {
	n := upTo("n", 0, 7, 8)
	s, want := list("text", n, listText)
	tail := []string{")", ");", ") ;"}[vs.Concretize(vs.Int("tail", 0, 2))]
	got := getArguments(s + tail)
	vs.Assert(same(got, want), "arguments are cut at the top-level commas only")
	if len(want) == 3 {
		vs.Cover("three arguments")
	}
}

// Longer texts of fixed shape: each template fixes where parentheses, commas and quotes
// stand; every other byte is any printable byte that does not separate or, inside quotes, any but a quote.
//verif:check S02
func Verif_S02_templates() {
	word := "#.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz$*-+_!\"%&/:;<=>?@[\\]^`{|}~"
	w := func(n int) string { return vs.Str("w", n, word) }
	q := func(n int) string { return "'" + vs.Str("q", n, inString) + "'" }
	a := []string{q(3), w(2), "(" + w(2) + "," + w(1) + ")", "(" + q(2) + ",(" + w(1) + "," + q(1) + "))", "()", "''", "$", q(1) + q(1)}
	i := vs.Concretize(vs.Int("i", 0, len(a)-1))
	j := vs.Concretize(vs.Int("j", 0, len(a)-1))
	k := vs.Concretize(vs.Int("k", 0, len(a)-1))
	sep := []string{",", " , ", ",  "}[vs.Concretize(vs.Int("sep", 0, 2))]
	got := getArguments(a[i] + sep + a[j] + sep + a[k] + ");")
	vs.Assert(same(got, []string{a[i], a[j], a[k]}), "three arguments of any shape are recovered")
	vs.Cover("done")
}

// Deep nesting: an argument nested 1 to 8 (thorough: 16) levels deep, with an arbitrary text of up to two bytes of the list
// alphabet (balanced) and commas at every level, before and after other arguments.
//verif:check S02
func Verif_S02_deep() {
	d := upTo("depth", 1, 8, 16)
	in, _ := list("in", upTo("n", 0, 2, 3), listText)
	a := in
	for i := 0; i < d; i++ {
		a = "(" + vs.Str("l", 1, "#.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "," + a + ",'" + vs.Str("r", 1, inString) + "')"
	}
	got := getArguments("#1," + a + ",$,(" + a + ",3),.T.);")
	vs.Assert(same(got, []string{"#1", a, "$", "(" + a + ",3)", ".T."}), "nested lists of any depth are one argument")
	vs.Cover("done")
}

// Characters outside ASCII: a quoted string with one of nine characters of two to four bytes between two arbitrary ones of
// "(),;=#A ", first, second and nested.
//verif:check S02
func Verif_S02_unicode() {
	q := "'" + vs.Str("before", 1, few) + wide[vs.Concretize(vs.Int("c", 0, len(wide)-1))] + vs.Str("after", 1, few) + "'"
	got := getArguments(q + "," + q + ",(" + q + ",#1),.T.);")
	vs.Assert(same(got, []string{q, q, "(" + q + ",#1)", ".T."}), "strings are kept as they are")
	vs.Cover("done")
}
