package gojsonsm_test

import (
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// simpleMatcher makes a matcher from a text of the simple parser's language.
func simpleMatcher(text string) (gojsonsm.Matcher, error) {
	e, err := gojsonsm.ParseSimpleExpression(text)
	if err != nil {
		return nil, err
	}
	if e == nil {
		return nil, errf("neither an expression nor an error")
	}
	var tr gojsonsm.Transformer
	return gojsonsm.NewFastMatcher(tr.Transform([]gojsonsm.Expression{e})), nil
}

func TestC17_meaning(t *testing.T) {
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C17", Name: "meaning", Cases: 400000,
		Rule: "the expression has at least two conditions, or a function",
		Gen: func(t *vh.T) TextDocs {
			base := vh.DrawDoc(t)
			var x TextDocs
			x.Text, x.E = vh.DrawSimple(t, base)
			x.Docs = drawDocs(t, base, 3)
			return x
		},
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := simpleMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v\n expr %s", x.Text, err, x.E)
			}
			fn := false
			x.E.WalkAllOperands(func(o *vh.Operand) { fn = fn || o.K == "func" })
			c.NonTrivial(x.E.Leaves() >= 2 || fn)
			textLabels(c, x.E)
			return checkText(c, x, m, simpleMatcher)
		},
	})
}

func TestC17_wide(t *testing.T) {
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C17", Name: "wide", Cases: 20000,
		Rule: "every case: an expression of five conditions or more",
		Gen: func(t *vh.T) TextDocs {
			base := vh.DrawDoc(t)
			var x TextDocs
			x.Text, x.E = vh.DrawWideSimple(t, base)
			x.Docs = drawDocs(t, base, 3)
			return x
		},
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := simpleMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v\n expr %s", x.Text, err, x.E)
			}
			c.NonTrivial(true)
			c.Label(x.E.Op)
			c.LabelIf(len(x.E.Kids) > 20, "20+conditions")
			return checkText(c, x, m, simpleMatcher)
		},
	})
}

// TestC17_rejects: a text with something left over, missing or not closed is no expression.
func TestC17_rejects(t *testing.T) {
	vh.Run(t, vh.Spec[Text]{
		Prop: "C17", Name: "rejects", Cases: 60000,
		Rule: "the expression it is made from has at least two conditions",
		Gen: func(t *vh.T) Text {
			s, e := vh.DrawSimple(t, vh.DrawDoc(t))
			pre, post := "", ""
			switch vh.N(t, 4) {
			case 0:
				pre = vh.Pick(t, "(", ")", "a == 1", "\"ab\"", "&&", "OR", "a", "LIKE", "1")
			case 1:
				pre, post = "(", vh.Pick(t, "", ") )", ") a", "&& )", ") == 1", ") EXISTS")
			default:
				post = vh.Pick(t, ")", "a", "&&", "||", "AND", "OR", "NOT", "a == 1", "( a == 1 )", "\"ab\"", "1", "&& )", "|| && a == 1", "==", "< 2", "IS", "IS NULL", "true", "&& a", "|| a <", "LIKE \"a\"",
					"&& ( a )", "|| ( a == 1", "&& a IS", "&& a NOT", "&& a NOT LIKE", "|| a LIKE", "&& a == \"b", "&& `a == 1", "== 1 == 2", "EXISTS")
			}
			if strings.HasSuffix(strings.TrimSpace(s), "true") || strings.HasSuffix(strings.TrimSpace(s), "false") {
				post += " ) )" // true may be the left side of something
			}
			return Text{S: strings.TrimSpace(pre + " " + s + " " + post), N: e.Leaves()}
		},
		Check: func(c *vh.Ctx, x Text) error {
			c.NonTrivial(x.N >= 2)
			if _, err := gojsonsm.ParseSimpleExpression(x.S); err == nil {
				return errf("accepted: %s", x.S)
			}
			return nil
		},
	})
}

func TestC17_literals(t *testing.T) {
	ops := map[string][]string{"eq": {"==", "="}, "ne": {"!="}, "lt": {"<"}, "le": {"<="}, "gt": {">"}, "ge": {">="}}
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C17", Name: "literals", Cases: 200000,
		Rule: "every case: value and literal are both numbers or both strings, and close",
		Gen:  func(t *vh.T) TextDocs { return drawLiterals(t, ops, vh.SimpleLiteral) },
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := simpleMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v", x.Text, err)
			}
			c.NonTrivial(true)
			c.Label(x.E.R.Lit.T)
			return checkText(c, x, m, simpleMatcher)
		},
	})
}

// TestC17_deep: conditions tens of parentheses down.
func TestC17_deep(t *testing.T) {
	vh.Run(t, vh.Spec[TextDocs]{
		Prop: "C17", Name: "deep", Cases: 15000,
		Rule: "an expression of five conditions or more",
		Gen: func(t *vh.T) TextDocs {
			base := vh.DrawDoc(t)
			var x TextDocs
			x.Text, x.E = vh.DrawDeepSimple(t, base)
			x.Docs = drawDocs(t, base, 3)
			return x
		},
		Check: func(c *vh.Ctx, x TextDocs) error {
			m, err := simpleMatcher(x.Text)
			if err != nil {
				return errf("%s\n is rejected: %v\n expr %s", x.Text, err, x.E)
			}
			c.NonTrivial(x.E.Leaves() > 4)
			c.LabelIf(x.E.Leaves() > 20, "20+conditions")
			return checkText(c, x, m, simpleMatcher)
		},
	})
}
