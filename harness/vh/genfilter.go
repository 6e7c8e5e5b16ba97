package vh

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// filterGen draws a text of the filter grammar together with its meaning.
type filterGen struct {
	t *T
	s *scope
}

// toks is a text as tokens.
type toks []string

var filterFn1 = map[string]string{"ABS": "mathAbs", "ACOS": "mathAcos", "ASIN": "mathAsin", "ATAN": "mathAtan", "CEIL": "mathCeil", "COS": "mathCos",
	"DEGREES": "mathDegrees", "EXP": "mathExp", "FLOOR": "mathFloor", "LOG": "mathLog", "LN": "mathLn", "SIN": "mathSin", "TAN": "mathTan",
	"RADIANS": "mathRadians", "ROUND": "mathRound", "SQRT": "mathSqrt"}
var filterFn1Names = []string{"ABS", "ROUND", "CEIL", "FLOOR", "SQRT", "ACOS", "ASIN", "ATAN", "COS", "DEGREES", "EXP", "LOG", "LN", "SIN", "TAN", "RADIANS"}
var filterFn2 = map[string]string{"ATAN2": "mathAtan2", "POW": "mathPow"}

var filterOps = map[string]string{"+": "mathAdd", "-": "mathSubract", "*": "mathMultiply", "/": "mathDivide", "%": "mathModulo"}

var identRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
var filterWords = map[string]bool{"AND": true, "OR": true, "NOT": true, "TRUE": true, "FALSE": true, "true": true, "false": true, "IS": true,
	"NULL": true, "MISSING": true, "EXISTS": true, "REGEXP_CONTAINS": true}

// ident says whether the name can be written without quotes.
func filterIdent(s string) bool {
	if filterWords[s] {
		return false
	}
	if identRe.MatchString(s) {
		return true
	}
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}

// path writes a path; ok is false if the grammar can't.
func (g *filterGen) path(p []string) (toks, bool) {
	var out toks
	for i, e := range p {
		if _, isIdx := ArrayIndex(e); isIdx {
			if i == 0 {
				return nil, false
			}
			out = append(out, "[", e[1:len(e)-1], "]")
			continue
		}
		if i > 0 {
			out = append(out, ".")
		}
		switch {
		case e == "META()":
			out = append(out, "META", "(", ")")
		case e == "" || strings.ContainsAny(e, "`\x00\r\ufeff") || strings.HasPrefix(e, "["):
			return nil, false
		case filterIdent(e) && !P(g.t, 12):
			out = append(out, e)
		case len([]rune(e)) == 1 && e != "'" && e != "\"" && e != "\\" && e != "\n" && B(g.t):
			out = append(out, "'"+e+"'")
		default:
			out = append(out, "`"+e+"`")
		}
	}
	return out, len(out) > 0
}

func (g *filterGen) field(want func(*Node) bool) (toks, *Operand) {
	for try := 0; try < 4; try++ {
		p := g.s.drawPath(g.t, 0, false, want)
		if tk, ok := g.path(p); ok {
			return tk, Field(0, p...)
		}
	}
	return toks{"a"}, Field(0, "a")
}

// negate puts minus signs in front.
func (g *filterGen) negate(tk toks, o *Operand) (toks, *Operand) {
	n := 0
	if P(g.t, 10) {
		n = 1 + boolInt(P(g.t, 20))
	}
	for i := 0; i < n; i++ {
		tk = append(toks{"-"}, tk...)
	}
	if n == 1 {
		if o.K == "lit" {
			return tk, &Operand{K: "lit", Lit: negLit(o.Lit)}
		}
		return tk, &Operand{K: "func", Fn: "mathNegate", Args: []*Operand{o}}
	}
	return tk, o
}

func negLit(l *Lit) *Lit {
	if l.T == "int" {
		i, _ := strconv.ParseInt(l.V, 10, 64)
		return &Lit{T: "int", V: strconv.FormatInt(-i, 10)}
	}
	f, _ := strconv.ParseFloat(l.V, 64)
	return &Lit{T: "float64", V: strconv.FormatFloat(-f, 'g', -1, 64)}
}

// number writes a number literal with its sign.
func (g *filterGen) number(v CV) (toks, *Operand) {
	var tk toks
	l := &Lit{}
	neg := false
	if v.integ() && v.Big().IsInt64() && v.Big().Int64() != math.MinInt64 {
		i := v.Big().Int64()
		neg = i < 0
		if neg {
			i = -i
		}
		l.T, l.V = "int", strconv.FormatInt(i, 10)
		tk = toks{l.V}
	} else {
		f := v.Float()
		neg = f < 0
		f = math.Abs(f)
		s := strconv.FormatFloat(f, Pick(g.t, byte('e'), 'E', 'g'), -1, 64)
		if f < 1e15 && f > 1e-5 && B(g.t) {
			s = strconv.FormatFloat(f, 'f', -1, 64)
		}
		if !strings.ContainsAny(s, ".eE") {
			s += ".0"
		}
		if strings.HasPrefix(s, "0.") && P(g.t, 15) {
			s = s[1:]
		}
		l.T, l.V = "float64", strconv.FormatFloat(f, 'g', -1, 64)
		tk = toks{s}
	}
	o := &Operand{K: "lit", Lit: l}
	if neg {
		tk = append(toks{"-"}, tk...)
		o = &Operand{K: "lit", Lit: negLit(l)}
		if P(g.t, 5) {
			tk = append(toks{"-", "-"}, tk...)
		}
	} else if P(g.t, 4) {
		tk = append(toks{"-", "-"}, tk...)
	}
	return tk, o
}

func (g *filterGen) smallNumber() (toks, *Operand) {
	if P(g.t, 60) {
		return g.number(CVInt(int64(N(g.t, 21) - 5)))
	}
	return g.number(CVOfNumText(DrawNumText(g.t)))
}

func (g *filterGen) str(s string) (toks, *Operand) {
	q := strconv.Quote(s)
	if B(g.t) {
		q = strconv.QuoteToASCII(s)
	}
	return toks{q}, &Operand{K: "lit", Lit: &Lit{T: "str", V: s}}
}

func isNumNode(n *Node) bool { return n.K == '#' }

// fieldMath draws an arithmetic operation, or just a field.
func (g *filterGen) fieldMath(plain bool) (toks, *Operand) {
	if plain {
		tk, o := g.field(nil)
		return tk, o
	}
	t := g.t
	if P(t, 25) { // value op field
		tk, o := g.smallNumber()
		op := Pick(t, "+", "-", "*", "/", "%")
		ft, fo := g.negatedField()
		tk = append(append(tk, op), ft...)
		return tk, &Operand{K: "func", Fn: filterOps[op], Args: []*Operand{o, fo}}
	}
	tk, o := g.negatedField()
	n := N(t, 4)
	if P(t, 15) {
		n = 3 + N(t, 5)
	}
	ops := []string{}
	os := []*Operand{o}
	for i := 0; i < n; i++ {
		op := Pick(t, "+", "-", "*", "/", "%")
		var xt toks
		var x *Operand
		if P(t, 60) {
			xt, x = g.smallNumber()
		} else {
			xt, x = g.negatedField()
		}
		tk = append(append(tk, op), xt...)
		ops = append(ops, op)
		os = append(os, x)
	}
	// the products first, then the sums, from the left
	for _, level := range []string{"*/%", "+-"} {
		for i := 0; i < len(ops); {
			if !strings.Contains(level, ops[i]) {
				i++
				continue
			}
			os[i] = &Operand{K: "func", Fn: filterOps[ops[i]], Args: []*Operand{os[i], os[i+1]}}
			os = append(os[:i+1], os[i+2:]...)
			ops = append(ops[:i], ops[i+1:]...)
		}
	}
	return tk, os[0]
}

func (g *filterGen) negatedField() (toks, *Operand) {
	tk, o := g.field(isNumNode)
	return g.negate(tk, o)
}

func (g *filterGen) fn(d int) (toks, *Operand) {
	t := g.t
	var tk toks
	var o *Operand
	switch Weighted(t, 8, 3, 2, 1) {
	case 0:
		name := filterFn1Names[N(t, len(filterFn1Names))]
		at, a := g.arg(d)
		tk = append(append(toks{name, "("}, at...), ")")
		o = &Operand{K: "func", Fn: filterFn1[name], Args: []*Operand{a}}
	case 1:
		name := Pick(t, "POW", "ATAN2")
		at, a := g.arg(d)
		bt, b := g.arg(d)
		tk = append(append(toks{name, "("}, at...), ",")
		tk = append(append(tk, bt...), ")")
		o = &Operand{K: "func", Fn: filterFn2[name], Args: []*Operand{a, b}}
	case 2:
		name := Pick(t, "PI", "E")
		tk = toks{name, "(", ")"}
		o = &Operand{K: "lit", Lit: &Lit{T: "float64", V: strconv.FormatFloat(map[string]float64{"PI": math.Pi, "E": math.E}[name], 'g', -1, 64)}}
		if P(t, 10) {
			tk = append(toks{"-"}, tk...)
			o = &Operand{K: "func", Fn: "mathNegate", Args: []*Operand{o}}
		}
		return tk, o
	default:
		return g.date()
	}
	return g.negate(tk, o)
}

func (g *filterGen) date() (toks, *Operand) {
	var at toks
	var a *Operand
	if B(g.t) {
		at, a = g.str(timePool[N(g.t, len(timePool))])
	} else {
		at, a = g.field(func(n *Node) bool { return n.K == 's' && looksTime(n.Str) })
	}
	return append(append(toks{"DATE", "("}, at...), ")"), &Operand{K: "func", Fn: "date", Args: []*Operand{a}}
}

func (g *filterGen) arg(d int) (toks, *Operand) {
	switch Weighted(g.t, 6, 3, 2, 1) {
	case 1:
		return g.smallNumber()
	case 2:
		if d > 0 {
			return g.fn(d - 1)
		}
	case 3:
		return g.fieldMath(false)
	}
	tk, o := g.field(isNumNode)
	return tk, o
}

// lit draws a literal near the operand's value in the first sample.
func (g *filterGen) lit(o *Operand) (toks, *Operand) {
	t := g.t
	var n *Node
	if o != nil && o.K == "field" {
		if c := g.s.at(0, o.Path); len(c) > 0 {
			n = c[N(t, len(c))]
		}
	} else if o != nil && o.K == "func" && len(g.s.samples[0]) > 0 {
		ev := &Ev{}
		v, miss := ev.Value(o, Env{0: g.s.samples[0][0]})
		switch {
		case miss:
		case v.num() && !math.IsNaN(v.F) && !math.IsInf(v.F, 0):
			n = &Node{K: '#', Num: numText(v)}
		case v.T == TTime:
			return g.date()
		}
	}
	l := DrawLit(t, n, false)
	switch l.T {
	case "str":
		switch l.V {
		case "true", "TRUE", "false", "FALSE": // booleans even when quoted
			return toks{"TRUE"}, &Operand{K: "lit", Lit: &Lit{T: "true"}}
		}
		return g.str(l.V)
	case "true", "false":
		return toks{Pick(t, l.T, strings.ToUpper(l.T))}, &Operand{K: "lit", Lit: l}
	case "null":
		return g.number(CVInt(int64(N(t, 3))))
	}
	return g.number(l.CV())
}

// isLit says whether the operand is one literal (or the negation of PI() or E()).
func isLit(o *Operand) bool {
	for o.K == "func" && o.Fn == "mathNegate" {
		o = o.Args[0]
	}
	return o.K == "lit"
}

var cmpTexts = map[string][]string{"eq": {"=", "=="}, "ne": {"<>", "!="}, "lt": {"<"}, "le": {"<="}, "gt": {">"}, "ge": {">="}}

func (g *filterGen) leaf() (toks, *E) {
	t := g.t
	switch Weighted(t, 12, 3, 2, 2, 1) {
	case 1: // IS
		tk, o := g.field(nil)
		switch N(t, 4) {
		case 0:
			return append(tk, "IS", "MISSING"), &E{Op: "missing", L: o}
		case 1:
			return append(tk, "IS", "NOT", "MISSING"), &E{Op: "exists", L: o}
		}
		if P(t, 15) {
			tk, o = g.fn(1)
		} else if P(t, 50) {
			tk, o = g.field(func(n *Node) bool { return n.K == 'n' })
		}
		e := &E{Op: "eq", L: o, R: &Operand{K: "lit", Lit: &Lit{T: "null"}}}
		if B(t) {
			return append(tk, "IS", "NULL"), e
		}
		return append(tk, "IS", "NOT", "NULL"), &E{Op: "not", Kids: []*E{e}}
	case 2:
		tk, o := g.field(nil)
		return append(append(toks{"EXISTS", "("}, tk...), ")"), &E{Op: "exists", L: o}
	case 3:
		tk, o := g.field(func(n *Node) bool { return n.K == 's' })
		s := ""
		if c := g.s.at(0, o.Path); len(c) > 0 {
			s = c[0].Str
		}
		if P(t, 10) {
			s = DrawString(t)
			tk, o = g.str(s)
		}
		re := DrawRegex(t, s)
		if strings.Contains(re, "(?") { // could be one that needs PCRE
			re = "a"
		}
		rt, _ := g.str(re)
		tk = append(append(append(toks{"REGEXP_CONTAINS", "("}, tk...), ","), rt...)
		return append(tk, ")"), &E{Op: "like", L: o, Re: re}
	case 4:
		b := Pick(t, "true", "false")
		return toks{Pick(t, b, strings.ToUpper(b))}, &E{Op: b}
	}
	// comparison
	var lt, rt toks
	var l, r *Operand
	switch Weighted(t, 10, 4, 3) {
	case 0:
		lt, l = g.fieldMath(true)
	case 1:
		lt, l = g.fieldMath(false)
	case 2:
		lt, l = g.fn(2)
	}
	switch Weighted(t, 10, 3, 1, 2) {
	case 0:
		rt, r = g.lit(l)
	case 1:
		rt, r = g.fieldMath(true)
	case 2:
		rt, r = g.fieldMath(false)
	case 3:
		rt, r = g.fn(2)
	}
	if isLit(l) && isLit(r) { // two literals are outside the language's meaning
		rt, r = g.fieldMath(true)
	}
	op := Cmps[N(t, len(Cmps))]
	if P(t, 15) && rt[0] != "TRUE" && rt[0] != "true" && rt[0] != "FALSE" && rt[0] != "false" {
		lt, rt, l, r = rt, lt, r, l
	}
	tk := append(append(toks{}, lt...), cmpTexts[op][N(t, len(cmpTexts[op]))])
	return append(tk, rt...), &E{Op: op, L: l, R: r}
}

func (g *filterGen) cond() (toks, *E) {
	if P(g.t, 15) {
		tk, e := g.cond()
		return append(toks{"NOT"}, tk...), &E{Op: "not", Kids: []*E{e}}
	}
	return g.leaf()
}

func (g *filterGen) term(d int) (toks, *E) {
	if d > 0 && P(g.t, 35) {
		tk, e := g.or(d - 1)
		return append(append(toks{"("}, tk...), ")"), e
	}
	return g.cond()
}

func (g *filterGen) chain(word, op string, n int, sub func() (toks, *E)) (toks, *E) {
	tk, e := sub()
	if n == 1 {
		return tk, e
	}
	r := &E{Op: op, Kids: []*E{e}}
	for i := 1; i < n; i++ {
		kt, k := sub()
		tk = append(append(tk, word), kt...)
		r.Kids = append(r.Kids, k)
	}
	return tk, r
}

func (g *filterGen) and(d int) (toks, *E) {
	n := 1 + Weighted(g.t, 5, 3, 1)
	return g.chain("AND", "and", n, func() (toks, *E) { return g.term(d) })
}

func (g *filterGen) or(d int) (toks, *E) {
	n := 1 + Weighted(g.t, 5, 3, 1)
	return g.chain("OR", "or", n, func() (toks, *E) { return g.and(d) })
}

func wordy(c byte) bool {
	return c == '_' || c == '.' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
}

// join writes the tokens with spaces where they are needed, and more of them.
func (tk toks) join(t *T, comments bool) string {
	var b strings.Builder
	style := N(t, 3)
	for i, s := range tk {
		if i > 0 {
			need := wordy(tk[i-1][len(tk[i-1])-1]) && wordy(s[0]) && s != "." && tk[i-1] != "."
			switch {
			case style == 0 && s != "." && tk[i-1] != ".":
				b.WriteByte(' ')
			case need:
				b.WriteString(Pick(t, " ", " ", "  ", "\t", "\n"))
			case style == 2 && P(t, 20):
				b.WriteString(Pick(t, " ", "\n", "\t", "  "))
			}
			if comments && P(t, 2) {
				b.WriteString(Pick(t, " /* AND 1 */ ", " // x = 1\n"))
			}
		}
		b.WriteString(s)
	}
	return b.String()
}

// DrawFilter draws a text of the filter language and its meaning.
func DrawFilter(t *T, docs ...*Node) (string, *E) {
	g := &filterGen{t, newScope(docs)}
	tk, e := g.or(2)
	return tk.join(t, true), e
}

// DrawWideFilter draws a filter with many conditions.
func DrawWideFilter(t *T, doc *Node) (string, *E) {
	g := &filterGen{t, newScope([]*Node{doc})}
	op := Pick(t, "and", "or")
	word := strings.ToUpper(op)
	e := &E{Op: op}
	var tks []toks
	wideKids(t, op, WideCount(t), doc,
		func(i int) *E {
			tk, k := g.cond()
			if P(t, 10) {
				tk, k = g.or(1)
				tk = append(append(toks{"("}, tk...), ")")
			}
			tks, e.Kids = append(tks, tk), append(e.Kids, k)
			return k
		},
		func(i int) {
			tks[i], e.Kids[i] = append(toks{"NOT"}, tks[i]...), &E{Op: "not", Kids: []*E{e.Kids[i]}}
			if tks[i][1] == "(" {
				tks[i] = tks[i][1:] // NOT stands before a condition only
				e.Kids[i] = e.Kids[i].Kids[0]
			}
		})
	var tk toks
	for i, k := range tks {
		if i > 0 {
			tk = append(tk, word)
		}
		tk = append(tk, k...)
	}
	return tk.join(t, false), e
}

// FilterLiteral writes a number or a string in the filter language.
func FilterLiteral(t *T, s string, num bool) (string, *Operand) {
	g := &filterGen{t: t}
	if num {
		tk, o := g.number(CVOfNumText(s))
		return tk.join(t, true), o
	}
	tk, o := g.str(s)
	return tk.join(t, true), o
}
