package step

import (
	vs "geGoMetry/verifsym"
	"strconv"
	"strings"
)

const (
	header = "ISO-10303-21;\nHEADER;\nFILE_NAME('a;b=#1=C(1);', (''), 'x');\nENDSEC;\nDATA;\n"
	letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	footer = "\nENDSEC;\nEND-ISO-10303-21;\n"
)

// entry reports whether the table gives exactly this definition for an identifier.
func entry(t SymbolTable, id, typ string, args []string) bool {
	d, ok := t[id]
	return ok && d.Type == typ && same(d.Arguments, args)
}

// Two instances in a file with header and footer, with arbitrary
// layout of one or two bytes, blanks, tabs and line breaks, at three (thorough: four) of the
// layout positions at a time: before and after '=', before the list, around an argument,
// before ';', between instances, and line breaks inside a nested list.
//verif:check S01
func Verif_S01_layout() {
	g := make([]string, 9)
	k := 3
	if vs.Tier() > 0 {
		k = 4
	}
	last := -1
	for i := 0; i < k; i++ {
		p := vs.Concretize(vs.Int("pos", 0, len(g)-1))
		vs.Assume(p > last)
		last = p
		set := " \t\r\n"
		if p == 8 {
			set = "\r\n" // inside a nested list only line breaks are layout
		}
		g[p] = vs.Str("gap", vs.Concretize(vs.Int("length", 1, 2)), set)
	}
	text := header + g[0] + "#12" + g[1] + "=" + g[2] + "TYPE_A" + g[3] + "('n'" + g[4] + "," + g[5] + "(#1," + g[8] + "#2),$)" + g[6] + ";" + g[7] +
		"#7" + g[1] + "=" + g[2] + "B2" + g[3] + "(.T." + g[4] + ")" + g[6] + ";" + footer
	t := lexed(text)
	vs.Assert(len(t) == 2, "one entry per instance")
	vs.Assert(entry(t, "#12", "TYPE_A", []string{"'n'", "(#1,#2)", "$"}), "layout does not change an entry")
	vs.Assert(entry(t, "#7", "B2", []string{".T."}), "layout does not change the next entry")
	vs.Cover("done")
}

// One instance between two others whose balanced argument text has 0..6 bytes (thorough:
// 0..7) over all printable bytes and the tab,
// with '=', ';' and '/' only inside quotes.
//verif:check S01
func Verif_S01_arguments() {
	n := upTo("n", 0, 6, 7)
	s, want := list("text", n, listText)
	vs.Assume(quotedOnly(s, "=;/"))
	t := lexed(header + "#1=A(#2);\n#2=B(" + s + ");\n#3=C('x');" + footer)
	vs.Assert(len(t) == 3, "argument text neither merges, splits nor drops instances")
	vs.Assert(entry(t, "#1", "A", []string{"#2"}), "the instance before is unaffected")
	vs.Assert(entry(t, "#2", "B", want), "the arguments are those of the file")
	vs.Assert(entry(t, "#3", "C", []string{"'x'"}), "the instance after is unaffected")
	vs.Cover("done")
}

func quotedOnly(s, set string) bool {
	quoted := false
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			quoted = !quoted
		}
		if !quoted {
			for k := 0; k < len(set); k++ {
				if s[i] == set[k] {
					return false
				}
			}
		}
	}
	return true
}

// Three instances with arbitrary identifiers of one or two digits, arbitrary type names of
// 1..4 letters, digits or underscores, and one arbitrary reference each; repeated
// identifiers included; with and without line breaks between instances.
//verif:check S01
func Verif_S01_names() {
	sep := []string{"\n", "", " "}[vs.Concretize(vs.Int("sep", 0, 2))]
	var id, typ, ref [3]string
	text := header
	for i := range id {
		id[i] = "#" + vs.Str("id", 1+i%2, "0123456789")
		typ[i] = vs.Str("first", 1, letters) + vs.Str("type", 1+i, letters+"0123456789_")
		ref[i] = "#" + vs.Str("ref", 1+i%2, "0123456789")
		text += id[i] + "=" + typ[i] + "(" + ref[i] + ");" + sep
	}
	t := lexed(text + footer)
	distinct := 3
	for i := range id {
		last := true
		for j := i + 1; j < 3; j++ {
			if id[j] == id[i] {
				last = false
			}
		}
		if !last {
			distinct--
			continue
		}
		vs.Assert(entry(t, id[i], typ[i], []string{ref[i]}), "the last definition of an identifier is in the table")
	}
	vs.Assert(len(t) == distinct, "one entry per distinct identifier")
	if distinct == 2 {
		vs.Cover("repeated identifier")
	}
}

// Header statements whose quoted strings hold 0..4 (thorough: 0..5) arbitrary printable
// bytes but quotes, or tabs, and arbitrary quoted strings of 0..3 such
// bytes in an instance.
//verif:check S01
func Verif_S01_strings() {
	h := vs.Str("header", upTo("n", 0, 4, 5), inString)
	q := vs.Str("string", upTo("m", 0, 3, 4), inString)
	t := lexed("ISO-10303-21;\nHEADER;\nFILE_NAME('" + h + "',$);\nENDSEC;\nDATA;\n#1=A('" + q + "','it''s',#2);\n#2=B();" + footer)
	vs.Assert(len(t) == 2, "the header and quoted strings are no instances")
	vs.Assert(entry(t, "#1", "A", []string{"'" + q + "'", "'it''s'", "#2"}), "quoted strings are kept as they are")
	vs.Assert(entry(t, "#2", "B", nil), "an instance without arguments has none")
	vs.Cover("done")
}

// An instance whose type name, of 1..4 letters, digits or underscores, and arguments may have line breaks or carriage returns
// between any two bytes (up to two places at a time, inside quoted strings as well), and blanks or tabs around the name;
// the same text in upper or lower case.
//verif:check S01
func Verif_S01_broken() {
	typ := vs.Str("first", 1, letters) + vs.Str("type", upTo("n", 0, 3, 6), letters+"0123456789_")
	text := "#25=" + vs.Str("left", upTo("l", 0, 1, 2), " \t") + typ + vs.Str("right", upTo("r", 0, 1, 2), " \t") + "('ab',#3,(1.,.T.),$);"
	i := vs.Concretize(vs.Int("i", 0, len(text)-1))
	j := vs.Concretize(vs.Int("j", 0, len(text)-1))
	vs.Assume(i <= j)
	br := vs.Str("break", 1, "\n\r")
	t := lexed(header + text[:i] + br + text[i:j] + "\n" + text[j:] + "#26=B(#25);" + footer)
	vs.Assert(len(t) == 2, "one entry per instance")
	vs.Assert(entry(t, "#25", typ, []string{"'ab'", "#3", "(1.,.T.)", "$"}), "line breaks do not change an entry")
	vs.Assert(entry(t, "#26", "B", []string{"#25"}), "line breaks do not change the next entry")
	vs.Cover("done")
}

// A large file: 400 instances on one line or one per line, or an instance on one line of more than 70000 bytes, among them one with
// an arbitrary identifier of four digits, type name of five bytes and string of three, in three places.
//verif:check S01 steps=100000000
func Verif_S01_large() {
	id := "#" + vs.Str("id", 1, "123456789") + vs.Str("digits", 3, "0123456789")
	typ := vs.Str("type", 5, letters)
	q := vs.Str("q", 3, inString)
	place := vs.Concretize(vs.Int("place", 0, 2))
	var b strings.Builder
	b.WriteString(header)
	n := 400
	long := vs.Concretize(vs.Int("form", 0, 2))
	if long == 2 {
		n = 3
	}
	for i := 0; i < n; i++ {
		if i == place*(n-1)/2 {
			b.WriteString(id + "=" + typ + "('" + q + "',#" + strconv.Itoa(10000+i) + ");")
		}
		b.WriteString("#" + strconv.Itoa(10000+i) + "=CARTESIAN_POINT('',(")
		if long == 2 && i == 1 {
			for k := 0; k < 7000; k++ {
				b.WriteString("1.,2.5,-3.,")
			}
		}
		b.WriteString("0.,1.,2.));")
		if long != 1 {
			b.WriteString("\n")
		}
	}
	b.WriteString(footer)
	t := lexed(b.String())
	vs.Assert(len(t) == n+1, "one entry per instance")
	vs.Assert(entry(t, id, typ, []string{"'" + q + "'", "#" + strconv.Itoa(10000+place*(n-1)/2)}), "the instance is in the table")
	ok := true
	for i := 0; i < n; i++ {
		d, in := t["#"+strconv.Itoa(10000+i)]
		good := in && d.Type == "CARTESIAN_POINT" && len(d.Arguments) == 2 && d.Arguments[0] == "''"
		if good && (long != 2 || i != 1) {
			good = d.Arguments[1] == "(0.,1.,2.)"
		} else if good {
			good = len(d.Arguments[1]) == 7000*11+10
		}
		ok = ok && good
	}
	vs.Assert(ok, "so are all others")
	vs.Cover("done")
}

// Characters outside ASCII: quoted strings of the header and of instances with one of nine characters of two to four bytes
// between two arbitrary ones of "(),;=#A ".
//verif:check S01
func Verif_S01_unicode() {
	c := wide[vs.Concretize(vs.Int("c", 0, len(wide)-1))]
	i, j := vs.Concretize(vs.Int("before", 0, len(few)-1)), vs.Concretize(vs.Int("after", 0, len(few)-1))
	q := few[i:i+1] + c + few[j:j+1]
	typ := vs.Str("type", 1, letters)
	t := lexed("ISO-10303-21;\nHEADER;\nFILE_NAME('" + q + "',$);\nENDSEC;\nDATA;\n#1=" + typ + "('" + q + "',('" + c + q + "'),#2);\n#2=B('" + c + "');" + footer)
	vs.Assert(len(t) == 2, "the header and quoted strings are no instances")
	vs.Assert(entry(t, "#1", typ, []string{"'" + q + "'", "('" + c + q + "')", "#2"}), "quoted strings are kept as they are")
	vs.Assert(entry(t, "#2", "B", []string{"'" + c + "'"}), "an instance of such a string is kept")
	vs.Cover("done")
}
