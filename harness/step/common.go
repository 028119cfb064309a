package step

import vs "geGoMetry/verifsym"

func upTo(name string, lo, quick, thorough int) int {
	hi := quick
	if vs.Tier() > 0 {
		hi = thorough
	}
	return vs.Concretize(vs.Int(name, lo, hi))
}

const (
	// plain holds the printable bytes that neither separate nor quote, and the tab: a list text is
	// made of them, parentheses, commas and quotes.
	plain = " \t!\"#$%&*+-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
	// listText is the alphabet of list texts.
	listText = "(),'" + plain
	// inString is the alphabet of quoted strings, which hold no quote.
	inString = "()," + plain
)

// few are the bytes put next to characters outside ASCII.
const few = "(),;=#A "

// wide are characters outside ASCII, spaces among them.
var wide = []string{"é", "ß", "\u0085", "\u00a0", "Ω", "日", "\u3000", "€", "😀"}

// scan reads a list text: it reports whether parentheses and quotes are balanced, and
// the positions of the separating commas.
func scan(s string) (balanced bool, commas []int) {
	depth := 0
	quoted := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\'':
			quoted = !quoted
		case quoted:
		case c == '(':
			depth++
		case c == ')':
			depth--
			if depth < 0 {
				return false, nil
			}
		case c == ',':
			if depth == 0 {
				commas = append(commas, i)
			}
		}
	}
	return depth == 0 && !quoted, commas
}

// trim removes blanks and tabs around a text.
func trim(s string) string {
	i, j := 0, len(s)
	for i < j && (s[i] == ' ' || s[i] == '\t') {
		i++
	}
	for j > i && (s[j-1] == ' ' || s[j-1] == '\t') {
		j--
	}
	return s[i:j]
}

// pieces cuts a balanced list text at its separating commas.
func pieces(s string, commas []int) []string {
	var out []string
	from := 0
	for _, c := range commas {
		out = append(out, trim(s[from:c]))
		from = c + 1
	}
	last := trim(s[from:])
	if len(out) == 0 && last == "" {
		return nil
	}
	return append(out, last)
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// list is an arbitrary balanced list text of n bytes.
func list(name string, n int, alphabet string) (string, []string) {
	s := vs.Str(name, n, alphabet)
	ok, commas := scan(s)
	vs.Assume(ok)
	return s, pieces(s, commas)
}

func lexed(text string) SymbolTable {
	l := initLexer(vs.TempFile(text))
	return l.Lex()
}

// valueOf gives the text printed after a label.
func valueOf(out, label string) (string, bool) {
	start := 0
	for i := 0; i <= len(out); i++ {
		if i < len(out) && out[i] != '\n' {
			continue
		}
		line := out[start:i]
		start = i + 1
		if len(line) >= len(label) && line[:len(label)] == label {
			rest := line[len(label):]
			if len(rest) > 0 && rest[0] == ':' {
				rest = rest[1:]
			}
			if len(rest) > 0 && rest[0] == ' ' {
				return rest[1:], true
			}
			if rest == "" {
				return "", true
			}
		}
	}
	return "", false
}

func reports(out, label, want string) {
	v, ok := valueOf(out, label)
	vs.Assert(ok && v == want, label+" is the value of its attribute")
}
