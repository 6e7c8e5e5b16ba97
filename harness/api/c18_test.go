package gojsonsm_test

import (
	"testing"

	"verif.local/vh"
)

func TestC18_texts(t *testing.T) {
	vh.Run(t, vh.Spec[AnyText]{
		Prop: "C18", Name: "texts", Cases: 400000,
		Rule: "the text has at least three bytes",
		Gen: func(t *vh.T) AnyText {
			base := vh.DrawDoc(t)
			if len(base.Keys) > 4 {
				base.Keys, base.Vals = base.Keys[:4], base.Vals[:4]
			}
			var x AnyText
			x.Text = drawAnyText(t, func() string { s, _ := vh.DrawSimple(t, base); return s },
				func() string { return vh.LooseText(t, base, true) }, vh.SimpleVocab)
			x.Docs = drawDocs(t, base, 2)
			return x
		},
		Get: func(x AnyText) []byte { return []byte(x.Text) },
		Set: func(x AnyText, b []byte) AnyText { x.Text = string(b); return x },
		Check: func(c *vh.Ctx, x AnyText) error {
			c.NonTrivial(len(x.Text) > 2)
			c.LabelIf(len(x.Text) > 300, "long")
			m, err := simpleMatcher(x.Text)
			c.LabelIf(err == nil, "accepted")
			c.LabelIf(err != nil, "rejected")
			if err != nil {
				return nil
			}
			return useMatcher(x, m)
		},
	})
}
