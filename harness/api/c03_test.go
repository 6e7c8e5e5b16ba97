package gojsonsm_test

import (
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// ListDocs is a list of expressions with documents.
type ListDocs struct {
	Es   []*vh.E
	Docs []string
}

func drawList(t *vh.T, opt vh.GenOpt, base *vh.Node, max int) []*vh.E {
	n := 1 + vh.N(t, max)
	var es []*vh.E
	for i := 0; i < n; i++ {
		switch vh.Weighted(t, 8, 2, 1) {
		case 1:
			es = append(es, &vh.E{Op: vh.Pick(t, "true", "false")})
		case 2:
			if len(es) > 0 {
				es = append(es, es[vh.N(t, len(es))])
				continue
			}
			fallthrough
		default:
			if opt.Loops && vh.N(t, 4) == 3 {
				es = append(es, opt.DrawLoop(t, base))
			} else {
				es = append(es, opt.DrawExpr(t, base))
			}
		}
	}
	return es
}

func checkList(c *vh.Ctx, es []*vh.E, docs []string) error {
	def := compile(es...)
	done := 0
	for _, d := range docs {
		n := mustParse(d)
		wants := make([]bool, len(es))
		any, ambig := false, false
		for i, e := range es {
			w, ev := vh.EvalDoc(e, n)
			wants[i] = w
			any = any || w
			ambig = ambig || ev.Ambig
		}
		if ambig {
			continue
		}
		done++
		m := gojsonsm.NewFastMatcher(def)
		got, err := m.Match(buf(d))
		if err != nil {
			return errf("Match fails on a well-formed document\n doc  %s\n exprs %v\n err  %v", short(d), es, err)
		}
		if got != any {
			return errf("Match gives %v, at least one true is %v\n doc  %s\n exprs %v\n each %v", got, any, short(d), es, wants)
		}
		nt, nf := 0, 0
		for i := range es {
			if m.ExpressionMatched(i) != wants[i] {
				return errf("ExpressionMatched(%d) gives %v, the expression is %v\n doc  %s\n exprs %v", i, !wants[i], wants[i], short(d), es)
			}
			if wants[i] {
				nt++
			} else {
				nf++
			}
		}
		c.LabelIf(nt > 0 && nf > 0, "mixed-results")
		c.LabelIf(nt == 0, "none-true")
		c.LabelIf(nt > 1, "several-true")
	}
	if done == 0 {
		c.Skip("no claim (rounding)")
	}
	return nil
}

func TestC03_list(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, MaxKids: 3}
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C03", Name: "list", Cases: 1000000,
		Rule: "two or more expressions, at least one not constant",
		Gen: func(t *vh.T) ListDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 2)
			return ListDocs{Es: drawList(t, opt, base, 5), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ListDocs) error {
			consts := 0
			for _, e := range x.Es {
				if e.Op == "true" || e.Op == "false" {
					consts++
				}
			}
			c.LabelIf(consts == len(x.Es), "all-constant")
			c.LabelIf(consts > 0 && consts < len(x.Es), "some-constant")
			c.LabelIf(len(x.Es) >= 4, "4+expressions")
			c.NonTrivial(len(x.Es) >= 2 && consts < len(x.Es))
			return checkList(c, x.Es, x.Docs)
		},
	})
}

func TestC03_wide(t *testing.T) {
	opt := vh.GenOpt{Depth: 1, Loops: true, Const: true, Like: true, GoLits: true, MaxKids: 2}
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C03", Name: "wide", Cases: 8000,
		Rule: "ten or more expressions",
		Gen: func(t *vh.T) ListDocs {
			base := vh.DrawWideDoc(t)
			docs := drawDocs(t, base, 2)
			return ListDocs{Es: drawList(t, opt, base, []int{15, 40, 120}[vh.N(t, 3)]), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ListDocs) error {
			c.LabelIf(len(x.Es) >= 64, "64+expressions")
			c.NonTrivial(len(x.Es) >= 10)
			return checkList(c, x.Es, x.Docs)
		},
	})
}
