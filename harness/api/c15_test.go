package gojsonsm_test

import (
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// TextDocs is a text of one of the languages, its meaning and documents.
type TextDocs struct {
	Text string
	E    *vh.E
	Docs []string
}

// checkText matches the documents and compares with the meaning.
func checkText(c *vh.Ctx, x TextDocs, m gojsonsm.Matcher, again ...func(string) (gojsonsm.Matcher, error)) error {
	trues, falses := 0, 0
	for _, d := range x.Docs {
		want, ev := vh.EvalDoc(x.E, mustParse(d))
		if ev.Ambig {
			continue
		}
		m.Reset()
		got, err := m.Match(buf(d))
		if err != nil || got != want {
			return errf("%s\n gives %v %v, it means %v\n doc  %s\n expr %s", x.Text, got, err, want, short(d), x.E)
		}
		if want {
			trues++
		} else {
			falses++
		}
	}
	if trues+falses == 0 {
		c.Skip("no claim (rounding)")
	}
	c.LabelIf(trues > 0, "true")
	c.LabelIf(falses > 0, "false")
	if len(again) == 0 || len(x.Text)%4 != 0 {
		return nil
	}
	// The text means the same the next time, and the second matcher has nothing of the first one's.
	c.Label("parsed-again")
	m2, err := again[0](x.Text)
	if err != nil {
		return errf("%s\n is rejected the second time: %v", x.Text, err)
	}
	for _, d := range x.Docs {
		want, ev := vh.EvalDoc(x.E, mustParse(d))
		if ev.Ambig {
			continue
		}
		got, err := m2.Match(buf(d))
		if err != nil || got != want {
			return errf("%s\n parsed a second time\n gives %v %v, it means %v\n doc  %s\n expr %s", x.Text, got, err, want, short(d), x.E)
		}
		m2.Reset()
	}
	return nil
}

func textLabels(c *vh.Ctx, e *vh.E) {
	c.LabelIf(e.Has("or") && e.Has("and"), "and+or")
	c.LabelIf(e.Has("not"), "not")
	c.LabelIf(e.Has("exists") || e.Has("missing"), "exists/missing")
	c.LabelIf(e.Has("like"), "regex")
	fn, idx := false, false
	e.WalkAllOperands(func(o *vh.Operand) {
		fn = fn || o.K == "func"
		for _, p := range o.Path {
			_, i := vh.ArrayIndex(p)
			idx = idx || i
		}
	})
	c.LabelIf(fn, "functions")
	c.LabelIf(idx, "indexes")
}

func TestC15_meaning(t *testing.T) {
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C15", Name: "meaning", Cases: 90000,
		Rule: "the filter has at least two conditions, or a function",
		Gen: func(t *vh.T) TextDocs {
			base := vh.DrawDoc(t)
			if base.K == 'o' && vh.P(t, 6) {
				base.Keys = append(base.Keys, "META()")
				base.Vals = append(base.Vals, vh.DrawObject(t, 1, 3))
			}
			var x TextDocs
			x.Text, x.E = vh.DrawFilter(t, base)
			x.Docs = drawDocs(t, base, 3)
			return x
		},
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := gojsonsm.GetFilterExpressionMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v\n expr %s", x.Text, err, x.E)
			}
			fn := false
			x.E.WalkAllOperands(func(o *vh.Operand) { fn = fn || o.K == "func" })
			c.NonTrivial(x.E.Leaves() >= 2 || fn)
			textLabels(c, x.E)
			return checkText(c, x, m, gojsonsm.GetFilterExpressionMatcher)
		},
	})
}

func TestC15_wide(t *testing.T) {
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C15", Name: "wide", Cases: 4000,
		Rule: "every case: an expression of five conditions or more",
		Gen: func(t *vh.T) TextDocs {
			base := vh.DrawDoc(t)
			var x TextDocs
			x.Text, x.E = vh.DrawWideFilter(t, base)
			x.Docs = drawDocs(t, base, 3)
			return x
		},
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := gojsonsm.GetFilterExpressionMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v\n expr %s", x.Text, err, x.E)
			}
			c.NonTrivial(true)
			c.Label(x.E.Op)
			c.LabelIf(len(x.E.Kids) > 20, "20+conditions")
			return checkText(c, x, m, gojsonsm.GetFilterExpressionMatcher)
		},
	})
}

// TestC15_rejects: a filter with something left over, missing or not closed is no filter.
func TestC15_rejects(t *testing.T) {
	vh.Run(t, vh.Spec[Text]{
		Prop: "C15", Name: "rejects", Cases: 24000,
		Rule: "the filter it is made from has at least two conditions",
		Gen: func(t *vh.T) Text {
			s, e := vh.DrawFilter(t, vh.DrawDoc(t))
			pre, post := "", ""
			switch vh.N(t, 4) {
			case 0:
				pre = vh.Pick(t, "(", ")", "a = 1", "[0]", "\"ab\"")
			case 1:
				pre, post = "(", vh.Pick(t, "", ") )", ") a", "AND )")
			default:
				post = vh.Pick(t, ")", "a", "AND", "OR", "NOT", "a = 1", "( a = 1 )", "]", "\"ab\"", "1", "TRUE", "AND )", "OR AND a = 1", "=", "= 1", "< 2", "IS", "IS NULL", ",", "EXISTS ( a )")
			}
			if u := strings.ToUpper(strings.TrimSpace(s)); strings.HasSuffix(u, "TRUE") || strings.HasSuffix(u, "FALSE") {
				post += " ) )" // TRUE may be the left side of something
			}
			return Text{S: pre + " " + s + " " + post, N: e.Leaves()}
		},
		Check: func(c *vh.Ctx, x Text) error {
			c.NonTrivial(x.N >= 2)
			if _, err := gojsonsm.GetFilterExpressionMatcher(x.S); err == nil {
				return errf("accepted: %s", x.S)
			}
			return nil
		},
	})
}

// Text is a text made from a filter with N conditions.
type Text struct {
	S string
	N int
}

// drawLiterals draws a comparison of a field with a literal close to the field's value.
func drawLiterals(t *vh.T, ops map[string][]string, write func(*vh.T, string, bool) (string, *vh.Operand)) TextDocs {
	var a, b string
	num := vh.P(t, 70)
	if num {
		a = vh.DrawNumText(t)
		b = drawNearNum(t, a)
	} else {
		s := drawStrings(t)
		a, b = s.EA, s.B
	}
	op := vh.Pick(t, vh.Cmps...)
	lit, o := write(t, b, num)
	f := vh.Field(0, "x")
	return TextDocs{
		Text: "x " + vh.Pick(t, ops[op]...) + " " + lit,
		E:    &vh.E{Op: op, L: f, R: o},
		Docs: []string{`{"x":` + a + `}`},
	}
}

func TestC15_literals(t *testing.T) {
	ops := map[string][]string{}
	for k, v := range filterOps {
		ops[k] = []string{v}
	}
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C15", Name: "literals", Cases: 40000,
		Rule: "every case: value and literal are both numbers or both strings, and close",
		Gen:  func(t *vh.T) TextDocs { return drawLiterals(t, ops, vh.FilterLiteral) },
		Check: func(c *vh.Ctx, x TextDocs) error {
			if s := strings.ToLower(x.E.R.Lit.V); s == "true" || s == "false" {
				c.Skip("taken for booleans even when quoted")
				return nil
			}
			m, err := gojsonsm.GetFilterExpressionMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v", x.Text, err)
			}
			c.NonTrivial(true)
			c.Label(x.E.R.Lit.T)
			return checkText(c, x, m, gojsonsm.GetFilterExpressionMatcher)
		},
	})
}
