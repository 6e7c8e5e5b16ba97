package vh

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// simpleGen draws a text of the simple parser's language together with its meaning.
type simpleGen struct {
	t *T
	s *scope
}

var simpleNum = regexp.MustCompile(`^(-?)(0|([1-9][0-9]*))(\.[0-9]+)?$`)

// splitSafe says whether a text survives being split at spaces.
func splitSafe(s string, spaces bool) bool {
	if s != strings.TrimSpace(s) || strings.Contains(s, "  ") || !spaces && strings.Contains(s, " ") {
		return false
	}
	for _, r := range s {
		if r != ' ' && unicode.IsSpace(r) || r == unicode.ReplacementChar {
			return false
		}
	}
	return true
}

func (g *simpleGen) path(p []string, inFn bool) (string, bool) {
	var b strings.Builder
	for i, e := range p {
		if n, isIdx := ArrayIndex(e); isIdx {
			if i == 0 {
				return "", false
			}
			b.WriteString("[" + strconv.Itoa(n) + "]")
			continue
		}
		if i > 0 {
			b.WriteByte('.')
		}
		bare := identRe.MatchString(e) && !filterWords[e]
		for _, w := range []string{"AND", "OR", "LIKE", "EXISTS"} {
			bare = bare && !strings.Contains(e, w)
		}
		switch {
		case bare && !P(g.t, 12):
			b.WriteString(e)
		case e == "" || strings.ContainsAny(e, "`()\n") || strings.HasPrefix(e, "[") || !splitSafe(e, !inFn) || strings.Contains(e, ". "):
			return "", false
		default:
			b.WriteString("`" + e + "`")
		}
	}
	return b.String(), b.Len() > 0
}

func (g *simpleGen) field(want func(*Node) bool, inFn bool) (string, *Operand) {
	for try := 0; try < 4; try++ {
		p := g.s.drawPath(g.t, 0, false, want)
		if s, ok := g.path(p, inFn); ok {
			return s, Field(0, p...)
		}
	}
	return "a", Field(0, "a")
}

func (g *simpleGen) number(v CV) (string, *Operand) {
	if v.integ() && v.Big().IsInt64() {
		s := v.Big().String()
		return s, &Operand{K: "lit", Lit: &Lit{T: "int64", V: s}}
	}
	f := v.Float()
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 0.5
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 30 {
		s = "-2.75"
	}
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s, &Operand{K: "lit", Lit: &Lit{T: "float64", V: s}}
}

func (g *simpleGen) smallNumber() (string, *Operand) {
	if P(g.t, 60) {
		return g.number(CVInt(int64(N(g.t, 21) - 5)))
	}
	return g.number(CVOfNumText(DrawNumText(g.t)))
}

// quote writes a string; ok is false if the language can't.
func (g *simpleGen) quote(s string, spaces bool) (string, bool) {
	if !splitSafe(s, spaces) || strings.ContainsAny(s, "\n") {
		return "", false
	}
	q := Pick(g.t, `"`, "'")
	if strings.Contains(s, q) {
		if q == "'" {
			q = `"`
		} else {
			q = "'"
		}
		if strings.Contains(s, q) {
			return "", false
		}
	}
	return q + s + q, true
}

func (g *simpleGen) str(s string) (string, *Operand) {
	if simpleNum.MatchString(s) {
		return g.number(CVOfNumText(s))
	}
	q, ok := g.quote(s, true)
	if !ok {
		s, q = "abc", `"abc"`
	}
	return q, &Operand{K: "lit", Lit: &Lit{T: "str", V: s}}
}

func (g *simpleGen) fn(d int, lit bool) (string, *Operand) {
	t := g.t
	switch Weighted(t, 8, 4, 2, 2) {
	case 1:
		name := Pick(t, "POW", "ATAN2")
		as, a := g.arg(d)
		bs, b := g.arg(d)
		return name + "(" + as + "," + bs + ")", &Operand{K: "func", Fn: filterFn2[name], Args: []*Operand{a, b}}
	case 2:
		if lit {
			name := Pick(t, "PI", "E")
			return name + "()", &Operand{K: "lit", Lit: &Lit{T: "float64", V: strconv.FormatFloat(map[string]float64{"PI": math.Pi, "E": math.E}[name], 'g', -1, 64)}}
		}
	case 3:
		return g.date()
	}
	name := filterFn1Names[N(t, len(filterFn1Names))]
	as, a := g.arg(d)
	return name + "(" + as + ")", &Operand{K: "func", Fn: filterFn1[name], Args: []*Operand{a}}
}

func (g *simpleGen) date() (string, *Operand) {
	if B(g.t) {
		s := timePool[N(g.t, len(timePool))]
		if q, ok := g.quote(s, false); ok {
			return "DATE(" + q + ")", &Operand{K: "func", Fn: "date", Args: []*Operand{{K: "lit", Lit: &Lit{T: "str", V: s}}}}
		}
	}
	s, o := g.field(func(n *Node) bool { return n.K == 's' && looksTime(n.Str) }, true)
	return "DATE(" + s + ")", &Operand{K: "func", Fn: "date", Args: []*Operand{o}}
}

func (g *simpleGen) arg(d int) (string, *Operand) {
	switch Weighted(g.t, 6, 3, 3) {
	case 1:
		return g.smallNumber()
	case 2:
		if d > 0 {
			return g.fn(d-1, true)
		}
	}
	return g.field(isNumNode, true)
}

// lit draws a literal near the operand's value in the first sample.
func (g *simpleGen) lit(o *Operand) (string, *Operand) {
	t := g.t
	var n *Node
	if o.K == "field" {
		if c := g.s.at(0, o.Path); len(c) > 0 {
			n = c[N(t, len(c))]
		}
	} else if o.K == "func" && len(g.s.samples[0]) > 0 {
		ev := &Ev{}
		v, miss := ev.Value(o, Env{0: g.s.samples[0][0]})
		switch {
		case miss:
		case v.num() && !math.IsNaN(v.F) && !math.IsInf(v.F, 0):
			n = &Node{K: '#', Num: numText(v)}
		case v.T == TTime:
			return g.date()
		}
	}
	l := DrawLit(t, n, false)
	switch l.T {
	case "str":
		return g.str(l.V)
	case "true", "false":
		return l.T, &Operand{K: "lit", Lit: l}
	case "null":
		return g.number(CVInt(int64(N(t, 3))))
	}
	return g.number(l.CV())
}

var simpleOps = map[string][]string{"eq": {"==", "="}, "ne": {"!="}, "lt": {"<"}, "le": {"<="}, "gt": {">"}, "ge": {">="}}

func (g *simpleGen) cond() (toks, *E) {
	t := g.t
	switch Weighted(t, 12, 4, 4) {
	case 1:
		s, o := g.field(nil, false)
		if P(t, 30) {
			s, o = g.field(func(n *Node) bool { return n.K == 'n' }, false)
		}
		null := &Operand{K: "lit", Lit: &Lit{T: "null"}}
		switch N(t, 4) {
		case 0:
			return toks{s, "EXISTS"}, &E{Op: "exists", L: o}
		case 1:
			return toks{s, "IS", "MISSING"}, &E{Op: "missing", L: o}
		case 2:
			return toks{s, "IS", "NULL"}, &E{Op: "eq", L: o, R: null}
		}
		return toks{s, "IS", "NOT", "NULL"}, &E{Op: "ne", L: o, R: null}
	case 2:
		s, o := g.field(func(n *Node) bool { return n.K == 's' }, false)
		v := ""
		if c := g.s.at(0, o.Path); len(c) > 0 {
			v = c[0].Str
		}
		re := DrawRegex(t, v)
		q, ok := g.quote(re, true)
		if !ok || strings.Contains(re, "(?") {
			re = "a"
			q = `"a"`
		}
		e := &E{Op: "like", L: o, Re: re}
		if P(t, 30) {
			return toks{s, "NOT", "LIKE", q}, &E{Op: "not", Kids: []*E{e}}
		}
		return toks{s, Pick(t, "LIKE", "=~"), q}, e
	}
	var ls, rs string
	var l, r *Operand
	right := P(t, 25)
	if P(t, 60) {
		ls, l = g.field(nil, false)
	} else {
		ls, l = g.fn(2, right)
	}
	op := Cmps[N(t, len(Cmps))]
	if right || isLit(l) {
		rs, r = g.fn(2, false)
	} else {
		rs, r = g.lit(l)
		if rs == "true" || rs == "false" {
			op = Pick(t, "eq", "ne")
		}
	}
	return toks{ls, simpleOps[op][N(t, len(simpleOps[op]))], rs}, &E{Op: op, L: l, R: r}
}

func (g *simpleGen) item(d int) (toks, *E) {
	if P(g.t, 6) {
		b := Pick(g.t, "true", "false")
		if P(g.t, 30) {
			return toks{"(", b, ")"}, &E{Op: b}
		}
		return toks{b}, &E{Op: b}
	}
	if d > 0 && P(g.t, 40) {
		tk, e := g.chain(d - 1)
		return append(append(toks{"("}, tk...), ")"), e
	}
	return g.cond()
}

func (g *simpleGen) chain(d int) (toks, *E) {
	n := 1 + Weighted(g.t, 4, 4, 2, 1)
	if n == 1 {
		if d > 0 && P(g.t, 15) {
			tk, e := g.chain(d - 1)
			return append(append(toks{"("}, tk...), ")"), e
		}
		return g.cond()
	}
	op := Pick(g.t, "and", "or")
	words := map[string][]string{"and": {"&&", "AND"}, "or": {"||", "OR"}}[op]
	if P(g.t, 70) { // one spelling
		words = words[N(g.t, 2):][:1]
	}
	tk, e := g.item(d)
	r := &E{Op: op, Kids: []*E{e}}
	for i := 1; i < n; i++ {
		kt, k := g.item(d)
		tk = append(append(tk, words[N(g.t, len(words))]), kt...)
		r.Kids = append(r.Kids, k)
	}
	return tk, r
}

var compact = map[string]bool{"==": true, "=": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "=~": true, "&&": true, "||": true}

var simpleWords = map[string]bool{"NULL": true, "MISSING": true, "EXISTS": true, "(": true, ")": true}

// DrawSimple draws a text of the simple parser's language and its meaning.
func DrawSimple(t *T, docs ...*Node) (string, *E) {
	g := &simpleGen{t, newScope(docs)}
	d := 2
	if P(t, 10) {
		d = 5
	}
	tk, e := g.chain(d)
	if P(t, 80) {
		return strings.Join(tk, " "), e
	}
	var b strings.Builder
	if fn := false; B(t) { // symbols need no spaces
		e.WalkAllOperands(func(o *Operand) { fn = fn || o.K == "func" })
		for _, s := range tk {
			fn = fn || len(s) > 1 && strings.ContainsAny(s, "()") || strings.Contains(s, "`") && strings.Contains(s, " ")
		}
		if !fn {
			for i, s := range tk {
				if i > 0 && !(compact[s] && !simpleWords[tk[i-1]] && !strings.ContainsAny(tk[i-1][:1], `"'`) || compact[tk[i-1]] && !simpleWords[s]) {
					b.WriteByte(' ')
				}
				b.WriteString(s)
			}
			return b.String(), e
		}
	}
	glue, glued := B(t), false // parentheses need no spaces either
	for i, s := range tk {
		b.WriteString(s)
		if i+1 < len(tk) {
			glued = glue && P(t, 80) && (s == "(" || tk[i+1] == ")" && (glued && s == ")" || glues(s)))
			if glued {
				continue
			}
		}
		b.WriteString(Pick(t, " ", "  ", "\t", "\n"))
	}
	return b.String(), e
}

// DrawWideSimple draws an expression with many conditions.
func DrawWideSimple(t *T, doc *Node) (string, *E) {
	g := &simpleGen{t, newScope([]*Node{doc})}
	op := Pick(t, "and", "or")
	words := map[string][]string{"and": {"&&", "AND"}, "or": {"||", "OR"}}[op]
	e := &E{Op: op}
	var tks []toks
	wideKids(t, op, WideCount(t), doc,
		func(i int) *E {
			tk, k := g.cond()
			if P(t, 10) {
				tk, k = g.chain(1)
				tk = append(append(toks{"("}, tk...), ")")
			}
			tks, e.Kids = append(tks, tk), append(e.Kids, k)
			return k
		},
		func(i int) {
			if len(tks[i]) != 3 || e.Kids[i].R == nil || tks[i][1] == "IS" { // of comparisons only
				return
			}
			f := FlipCmp(e.Kids[i])
			if lit := e.Kids[i].R; f.Op != e.Kids[i].Op && (lit.K != "lit" || lit.Lit.T != "true" && lit.Lit.T != "false") {
				e.Kids[i] = f
				tks[i] = toks{tks[i][0], simpleOps[f.Op][0], tks[i][2]}
			}
		})
	tk, word := tks[0], ""
	for i, k := range tks[1:] {
		if i == 0 || P(t, 10) {
			word = words[N(t, 2)]
		}
		tk = append(append(tk, word), k...)
	}
	return strings.Join(tk, " "), e
}

// glues reports whether a closing parenthesis can be written behind a token without a space.
func glues(s string) bool {
	return !strings.HasSuffix(s, ")") && !simpleWords[s]
}

// SimpleLiteral writes a number or a string in the simple parser's language.
func SimpleLiteral(t *T, s string, num bool) (string, *Operand) {
	g := &simpleGen{t: t}
	if num {
		return g.number(CVOfNumText(s))
	}
	return g.str(s)
}

// DrawDeepSimple draws a text with conditions tens of parentheses down, and its meaning.
func DrawDeepSimple(t *T, doc *Node) (string, *E) {
	g := &simpleGen{t, newScope([]*Node{doc})}
	tk, e := g.cond()
	for n := N(t, Pick(t, 8, 20, 60)); n > 0; n-- {
		tk = append(append(toks{"("}, tk...), ")")
		if P(t, 20) {
			continue
		}
		op := Pick(t, "and", "or")
		word := map[string][]string{"and": {"&&", "AND"}, "or": {"||", "OR"}}[op][N(t, 2)]
		stk, s := g.cond()
		if v, ev := EvalDoc(s, doc); !ev.Ambig && v != (op == "and") && !P(t, 5) { // the answer is up to the other one
			op = map[string]string{"and": "or", "or": "and"}[op]
			word = map[string]string{"&&": "||", "AND": "OR", "||": "&&", "OR": "AND"}[word]
		}
		if B(t) {
			tk, e = append(append(stk, word), tk...), &E{Op: op, Kids: []*E{s, e}}
		} else {
			tk, e = append(append(tk, word), stk...), &E{Op: op, Kids: []*E{e, s}}
		}
	}
	return strings.Join(tk, " "), e
}
