package gojsonsm_test

import (
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// AnyText is any text given to a parser, and documents for what comes out.
type AnyText struct {
	Text string
	Docs []string
}

// moderate cuts a text to where the parser's backtracking stays affordable.
func moderate(s string) string {
	if len(s) > 500 {
		s = s[:500]
	}
	for n := strings.Count(s, "("); n > 6; n-- {
		i := strings.LastIndex(s, "(")
		s = s[:i] + s[i+1:]
	}
	return s
}

func drawAnyText(t *vh.T, valid, loose func() string, vocab []string) string {
	switch vh.Weighted(t, 20, 110, 40, 20, 1, 60) {
	case 0:
		return valid()
	case 1:
		s := valid()
		if vh.P(t, 15) {
			o := valid()
			s = s[:vh.N(t, len(s)+1)] + o[vh.N(t, len(o)+1):]
		}
		s = vh.MutateText(t, s, vocab)
		return s
	case 2:
		return vh.Soup(t, vocab, 16)
	case 4:
		return vh.LongText(t, valid(), vocab)
	case 5:
		s := loose()
		if vh.P(t, 10) {
			s = vh.MutateText(t, s, vocab)
		}
		return s
	}
	return vh.DrawBytes(t, 40)
}

// useMatcher matches well-formed documents, which has to work.
func useMatcher(x AnyText, m gojsonsm.Matcher) error {
	for _, d := range x.Docs {
		m.Reset()
		got, err := m.Match(buf(d))
		if err != nil {
			return errf("%q\n is accepted but cannot be matched: %v\n doc %s", x.Text, err, short(d))
		}
		em, ok := m.(interface{ ExpressionMatched(int) bool })
		if ok && em.ExpressionMatched(0) != got {
			return errf("%q\n gives %v, its only expression does not\n doc %s", x.Text, got, short(d))
		}
	}
	return nil
}

func TestC16_texts(t *testing.T) {
	vh.Run(t, vh.Spec[AnyText]{
		Prop: "C16", Name: "texts", Cases: 150000,
		Rule: "the text has at least three bytes",
		Gen: func(t *vh.T) AnyText {
			base := vh.DrawDoc(t)
			if len(base.Keys) > 4 {
				base.Keys, base.Vals = base.Keys[:4], base.Vals[:4]
			}
			var x AnyText
			x.Text = drawAnyText(t, func() string { s, _ := vh.DrawFilter(t, base); return s },
				func() string { return vh.LooseText(t, base, false) }, vh.FilterVocab)
			x.Docs = drawDocs(t, base, 2)
			return x
		},
		Get: func(x AnyText) []byte { return []byte(x.Text) },
		Set: func(x AnyText, b []byte) AnyText { x.Text = moderate(string(b)); return x },
		Check: func(c *vh.Ctx, x AnyText) error {
			c.NonTrivial(len(x.Text) > 2)
			c.LabelIf(len(x.Text) > 300, "long")
			m, err := gojsonsm.GetFilterExpressionMatcher(x.Text)
			c.LabelIf(err == nil, "accepted")
			c.LabelIf(err != nil, "rejected")
			if err != nil {
				return nil
			}
			if m == nil {
				return errf("%q\n gives neither a matcher nor an error", x.Text)
			}
			if len(x.Text)%2 == 0 {
				// The same in two steps
				c.Label("two-steps")
				_, fe, err := gojsonsm.NewFilterExpressionParser(x.Text)
				if err != nil || fe == nil {
					return errf("%q\n gives a matcher, but is rejected when parsed: %v", x.Text, err)
				}
				_ = fe.String()
				e1, err1 := fe.OutputExpression()
				e2, err2 := fe.OutputExpression()
				if err1 != nil || err2 != nil || e1 == nil {
					return errf("%q\n gives a matcher, but no expression: %v %v", x.Text, err1, err2)
				}
				if a, b := e1.String(), e2.String(); a != b {
					return errf("%q\n gives different expressions\n %s\n %s", x.Text, a, b)
				}
			}
			return useMatcher(x, m)
		},
	})
}
