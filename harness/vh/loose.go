package vh

import "strings"

// loose writes texts from the constructs of a language with little regard to
// which of them may stand where: nearly valid texts, sometimes valid ones.
type loose struct {
	t      *T
	simple bool
	fields []string
}

var (
	looseFuncs = strings.Fields("ABS ACOS ASIN ATAN ATAN2 CEIL COS DATE DEGREES EXP EXISTS E FLOOR LN LOG META PI POW RADIANS REGEXP_CONTAINS ROUND SIN SQRT TAN TRUNC abs NOSUCH NOT TRUE")
	looseAtoms = strings.Fields("0 1 2 -1 1.5 -2.5 1e3 9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 -9223372036854775809 1e400 010 true false TRUE FALSE NULL MISSING PI() E() META() META().id " +
		"\"\" \"a\" 'a' \"a.*\" '(?=a)' '(' '^[a-c]+$' \"2019-01-01\" '2019' \"12\" \"true\" \"1.5\" '\\\"' '\\\\d'")
	looseCmp  = strings.Fields("= == != <> < <= > >=")
	looseCmpS = strings.Fields("= == != <> < <= > >= =~ LIKE")
)

func (g *loose) list(d int, seps ...string) string {
	n := Weighted(g.t, 2, 6, 5, 1)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, g.frag(d))
	}
	return strings.Join(parts, seps[N(g.t, len(seps))])
}

// frag writes something that has a value.
func (g *loose) frag(d int) string {
	t := g.t
	if d <= 0 {
		return g.atom()
	}
	switch Weighted(t, 8, 6, 5, 2, 2, 1, 1) {
	case 0:
		return g.atom()
	case 1:
		return g.call(d - 1)
	case 2:
		sp := Pick(t, " ", " ", "")
		return g.frag(d-1) + sp + Pick(t, "+", "-", "*", "/", "%") + sp + g.frag(d-1)
	case 3:
		return "(" + g.frag(d-1) + ")"
	case 4:
		return "-" + Pick(t, "", "", " ") + g.frag(d-1)
	case 5:
		return g.cond(d - 1)
	}
	return g.frag(d-1) + Pick(t, "[0]", "[-1]", ".b", "[1][2]", ".`a b`", "[99999999999999999999]", "()", "[]", ".")
}

func (g *loose) atom() string {
	if B(g.t) {
		return g.fields[N(g.t, len(g.fields))]
	}
	return looseAtoms[N(g.t, len(looseAtoms))]
}

func (g *loose) call(d int) string {
	return looseFuncs[N(g.t, len(looseFuncs))] + Pick(g.t, "(", "(", "(", " (", "( ") + g.list(d, ", ", ",") + ")"
}

// cond writes something that is true or false.
func (g *loose) cond(d int) string {
	t := g.t
	switch Weighted(t, 10, 4, 3, 3, 3, 3, 2, 1) {
	case 0:
		ops := looseCmp
		if g.simple {
			ops = looseCmpS
		}
		sp := Pick(t, " ", " ", " ", "")
		return g.frag(d) + sp + ops[N(t, len(ops))] + sp + g.frag(d)
	case 1:
		return g.frag(d) + " IS " + Pick(t, "", "", "NOT ", "NOT NOT ") + Pick(t, "NULL", "MISSING", "TRUE", g.frag(0))
	case 2:
		return Pick(t, "EXISTS(", "EXISTS (", "EXISTS ", "NOT EXISTS(") + g.frag(d-1) + Pick(t, ")", ")", "")
	case 3:
		return "REGEXP_CONTAINS(" + g.frag(d-1) + ", " + g.frag(d-1) + ")"
	case 4:
		if d <= 0 {
			return g.frag(0)
		}
		return g.cond(d-1) + Pick(t, " AND ", " OR ", " && ", " || ") + g.cond(d-1)
	case 5:
		return "NOT " + g.cond(d-1)
	case 6:
		return "(" + g.cond(d-1) + ")"
	}
	return g.frag(d)
}

// LooseText writes a nearly valid text about the document.
func LooseText(t *T, doc *Node, simple bool) string {
	g := &loose{t: t, simple: simple, fields: []string{"a", "a.b", "a[0]", "`a b`", "META().id"}}
	for _, p := range Paths(doc) {
		s := ""
		for _, e := range p {
			switch _, ix := ArrayIndex(e); {
			case ix:
				s += e
			case s == "":
				s = e
			default:
				s += "." + e
			}
		}
		if s != "" && len(s) < 20 && len(g.fields) < 20 {
			g.fields = append(g.fields, s)
		}
	}
	return g.cond(1 + N(t, 3))
}
