package vh

// Tok is a lexical token of JSON text.
type Tok struct {
	T          string // { } [ ] : , string escaped integer number null true false end error
	Start, End int
}

// Lex splits the text into JSON's lexical tokens; the last one is "end", or
// "error" at the first token that is none.
func Lex(s string) []Tok {
	var out []Tok
	p := 0
	for {
		for p < len(s) && (s[p] == ' ' || s[p] == '\t' || s[p] == '\r' || s[p] == '\n') {
			p++
		}
		if p == len(s) {
			return append(out, Tok{"end", p, p})
		}
		rest := s[p:]
		t, n := "error", 0
		switch c := rest[0]; {
		case c == '{' || c == '}' || c == '[' || c == ']' || c == ':' || c == ',':
			t, n = string(c), 1
		case c == '"':
			if n = scanString(rest); n > 0 {
				t = "string"
				for i := 0; i < n; i++ {
					if rest[i] == '\\' {
						t = "escaped"
					}
				}
			}
		case c == '-' || c >= '0' && c <= '9':
			t, n = lexNumber(rest)
		default:
			for _, w := range []string{"null", "true", "false"} {
				if len(rest) >= len(w) && rest[:len(w)] == w {
					t, n = w, len(w)
				}
			}
		}
		if t == "error" || n <= 0 {
			return append(out, Tok{"error", p, p})
		}
		out = append(out, Tok{t, p, p + n})
		p += n
	}
}

func lexNumber(s string) (string, int) {
	i := 0
	run := func() int {
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i - k
	}
	if s[0] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		i++
	} else if run() == 0 {
		return "error", 0
	}
	t := "integer"
	if i < len(s) && s[i] == '.' {
		t = "number"
		i++
		if run() == 0 {
			return "error", 0
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		t = "number"
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if run() == 0 {
			return "error", 0
		}
	}
	return t, i
}
