package vh

import "strings"

// Removal is what removing members from an object has to give.
type Removal struct {
	Tokens []string            // the tokens that are left
	Values map[string][]string // the removed values by key, in order
	Count  int
	Left   int // members left at the top
}

// Remove removes the members with one of the keys, at any depth. Only keys written without escapes can match.
func Remove(src string, keys []string) *Removal {
	toks := Lex(src)
	r := &Removal{Values: map[string][]string{}}
	p := 0
	text := func(i int) string { return src[toks[i].Start:toks[i].End] }
	var skip func()
	skip = func() {
		d := 0
		for {
			switch toks[p].T {
			case "{", "[":
				d++
			case "}", "]":
				d--
			}
			p++
			if d == 0 {
				return
			}
		}
	}
	var value func(top bool)
	value = func(top bool) {
		emit := func() { r.Tokens = append(r.Tokens, text(p)); p++ }
		switch toks[p].T {
		case "[":
			emit()
			for toks[p].T != "]" {
				if toks[p].T == "," {
					emit()
				}
				value(false)
			}
			emit()
		case "{":
			emit()
			n := 0
			for toks[p].T != "}" {
				if toks[p].T == "," {
					p++
				}
				k := ""
				hit := false
				if toks[p].T == "string" {
					k = strings.TrimSuffix(strings.TrimPrefix(text(p), `"`), `"`)
					for _, x := range keys {
						hit = hit || x == k
					}
				}
				if hit {
					p += 2
					start := p
					skip()
					r.Values[k] = append(r.Values[k], src[toks[start].Start:toks[p-1].End])
					r.Count++
					continue
				}
				if n > 0 {
					r.Tokens = append(r.Tokens, ",")
				}
				n++
				emit()
				emit()
				value(false)
			}
			emit()
			if top {
				r.Left = n
			}
		default:
			emit()
		}
	}
	value(true)
	return r
}

// TokenTexts gives the texts of the tokens, and whether they are all tokens.
func TokenTexts(s string) ([]string, bool) {
	var out []string
	for _, t := range Lex(s) {
		switch t.T {
		case "end":
			return out, true
		case "error":
			return out, false
		}
		out = append(out, s[t.Start:t.End])
	}
	return out, false
}
