package vh

import (
	"strconv"
	"strings"
)

// PadSize draws a size on either side of where a narrow counter wraps around.
func PadSize(t *T) int {
	n := []int{256, 65536, 4096, 32768, 131072, 1024}[Weighted(t, 3, 5, 2, 2, 1, 1)]
	return n + N(t, 200) - 100
}

// PadText inserts long insignificant parts into the text of a JSON document:
// whitespace behind any token, or members that nothing mentions ("pad…").
func PadText(t *T, s string) string {
	for k := 1 + N(t, 2); k > 0; k-- {
		toks := Lex(s)
		var opens, closes []int
		for i, x := range toks {
			switch x.T {
			case "{":
				opens = append(opens, i)
			case "}":
				closes = append(closes, i)
			}
		}
		if len(opens) == 0 || len(toks) < 2 || P(t, 20) {
			p := toks[N(t, len(toks)-1)].End
			s = s[:p] + strings.Repeat(Pick(t, " ", "\n", "\t", " \r\n"), PadSize(t)) + s[p:]
			continue
		}
		m := `"pad` + strconv.Itoa(k) + `":` + PadValue(t, PadSize(t))
		if B(t) {
			i := opens[0]
			if P(t, 60) {
				i = opens[N(t, len(opens))]
			}
			if toks[i+1].T != "}" {
				m += ","
			}
			s = s[:toks[i].End] + m + s[toks[i].End:]
		} else {
			i := closes[len(closes)-1]
			if P(t, 60) {
				i = closes[N(t, len(closes))]
			}
			if toks[i-1].T != "{" {
				m = "," + m
			}
			s = s[:toks[i].Start] + m + s[toks[i].Start:]
		}
	}
	return s
}

// PadValue draws the text of a value of about n bytes.
func PadValue(t *T, n int) string {
	list := func(el string) string {
		return strings.TrimSuffix(strings.Repeat(el+",", n/(len(el)+1)+1), ",")
	}
	switch Weighted(t, 4, 2, 2, 2, 1, 2) {
	case 1:
		return `"` + strings.Repeat(Pick(t, `\u0041`, `\"`, `\\`, `a\n`), n/4) + `"`
	case 2:
		return "[" + list(Pick(t, "0", "null", "1.5", `""`, "true")) + "]"
	case 3:
		return "[" + list(Pick(t, `{"a":1}`, `[]`, `{}`, `{"a":[1,{"b":"}"}]}`)) + "]"
	case 4:
		d := min(n/2, 2000)
		return strings.Repeat("[", d) + strings.Repeat("]", d)
	case 5:
		var b strings.Builder
		b.WriteByte('{')
		for i := 0; b.Len() < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(`"m` + strconv.Itoa(i) + `":` + strconv.Itoa(i))
		}
		b.WriteByte('}')
		return b.String()
	}
	return `"` + strings.Repeat("x", n) + `"`
}
