package gojsonsm_test

import (
	"reflect"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// sprinkle puts constants into the expression.
func sprinkle(t *vh.T, e *vh.E, pct int) *vh.E {
	if vh.P(t, pct) {
		return &vh.E{Op: vh.Pick(t, "true", "false")}
	}
	c := *e
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, sprinkle(t, k, pct))
	}
	if (e.Op == "and" || e.Op == "or") && vh.P(t, pct) {
		c.Kids = append(c.Kids, &vh.E{Op: vh.Pick(t, "true", "false")})
	}
	return &c
}

// andOrConst finds a constant within ANDs and ORs reached through ANDs and ORs only.
func andOrConst(e gojsonsm.Expression, top bool) bool {
	var kids []gojsonsm.Expression
	switch x := e.(type) {
	case gojsonsm.TrueExpr, gojsonsm.FalseExpr:
		return !top
	case gojsonsm.AndExpr:
		kids = x
	case gojsonsm.OrExpr:
		kids = x
	}
	for _, k := range kids {
		if andOrConst(k, false) {
			return true
		}
	}
	return false
}

func TestC22_compact(t *testing.T) {
	opt := vh.GenOpt{Depth: 4, Loops: true, Const: true, Like: true, GoLits: true, MaxKids: 4}
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C22", Name: "compact", Cases: 700000,
		Rule: "the expression has a constant within another condition, and a condition on the document",
		Gen: func(t *vh.T) ListDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 2)
			var e *vh.E
			if vh.P(t, 30) {
				e = opt.DrawLoop(t, base)
			} else {
				e = opt.DrawExpr(t, base)
			}
			return ListDocs{Es: []*vh.E{sprinkle(t, e, vh.Pick(t, 2, 10, 25))}, Docs: docs}
		},
		Check: checkCompact,
	})
}

func checkCompact(c *vh.Ctx, x ListDocs) error {
	e := x.Es[0]
	inner := false
	e.Walk(func(k *vh.E) {
		for _, s := range k.Kids {
			if s.Op == "true" || s.Op == "false" {
				inner = true
				c.Label("constant-in-" + k.Op)
			}
		}
	})
	c.NonTrivial(inner && e.Leaves() > 0)
	orig := conv(e)
	got := gojsonsm.CompactExpression(orig)
	if want := conv(e); !reflect.DeepEqual(orig, want) {
		return errf("CompactExpression modifies its argument\n %#v\n it was %#v", orig, want)
	}
	if andOrConst(got, true) {
		return errf("CompactExpression leaves a constant within AND or OR\n of  %v\n got %v", e, got)
	}
	if again := gojsonsm.CompactExpression(got); !reflect.DeepEqual(got, again) {
		return errf("CompactExpression of its own result differs\n %#v\n %#v", got, again)
	}
	switch got.(type) {
	case gojsonsm.TrueExpr, gojsonsm.FalseExpr:
		c.LabelIf(e.Leaves() > 0, "becomes-constant")
	default:
		c.LabelIf(!reflect.DeepEqual(got, orig), "becomes-smaller")
	}
	var tr gojsonsm.Transformer
	def := tr.Transform([]gojsonsm.Expression{got})
	done := 0
	for _, d := range x.Docs {
		want, ev := vh.EvalDoc(e, mustParse(d))
		if ev.Ambig {
			continue
		}
		done++
		m, err := gojsonsm.NewFastMatcher(def).Match(buf(d))
		if err != nil {
			return errf("Match fails on a well-formed document\n doc  %s\n expr %v\n err  %v", short(d), e, err)
		}
		if m != want {
			return errf("the compacted expression gives %v, the expression is %v\n doc  %s\n expr %v\n compacted %v", m, want, short(d), e, got)
		}
	}
	if done == 0 {
		c.Skip("no claim (rounding)")
	}
	return nil
}

// drawWideExpr draws an expression with an AND or OR of many conditions.
func drawWideExpr(t *vh.T, opt vh.GenOpt, base *vh.Node, loops bool) *vh.E {
	opt.Depth = vh.Pick(t, 0, 0, 1)
	e := vh.DrawWide(t, vh.Pick(t, "and", "or"), base, func() *vh.E {
		if loops && vh.P(t, 10) {
			return opt.DrawLoop(t, base)
		}
		return opt.DrawExpr(t, base)
	}, vh.Negate)
	switch vh.N(t, 5) {
	case 0:
		return vh.Negate(e)
	case 1:
		return &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{opt.DrawExpr(t, base), e}}
	}
	return e
}

func TestC22_wide(t *testing.T) {
	opt := vh.GenOpt{Loops: true, Like: true, GoLits: true, MaxKids: 4}
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C22", Name: "wide", Cases: 20000,
		Rule: "an AND or OR of five conditions or more, with a constant within another condition",
		Gen: func(t *vh.T) ListDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 2)
			e := drawWideExpr(t, opt, base, true)
			for n := vh.N(t, 4); n > 0; n-- { // constants that change nothing
				e.Walk(func(k *vh.E) {
					if len(k.Kids) < 5 {
						return
					}
					i := vh.N(t, len(k.Kids)+1)
					k.Kids = append(k.Kids[:i:i], append([]*vh.E{{Op: map[string]string{"and": "true", "or": "false"}[k.Op]}}, k.Kids[i:]...)...)
				})
			}
			return ListDocs{Es: []*vh.E{sprinkle(t, e, vh.Pick(t, 0, 0, 1))}, Docs: docs}
		},
		Check: checkCompact,
	})
}

// TestC22_deep: constants tens of levels deep.
func TestC22_deep(t *testing.T) {
	opt := vh.GenOpt{Loops: true, Like: true, GoLits: true, MaxKids: 3}
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C22", Name: "deep", Cases: 20000,
		Rule: "the expression has a constant within another condition, and a condition on the document",
		Gen: func(t *vh.T) ListDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 2)
			e := drawDeepExpr(t, opt, base, true)
			if vh.B(t) { // without NOT, which is left alone with all below it
				for p := &e; ; {
					if (*p).Op == "not" {
						*p = (*p).Kids[0]
					} else if len((*p).Kids) > 0 && !(*p).IsLoop() {
						p = &(*p).Kids[vh.N(t, len((*p).Kids))]
					} else {
						break
					}
				}
			}
			return ListDocs{Es: []*vh.E{sprinkle(t, e, vh.Pick(t, 1, 3, 10))}, Docs: docs}
		},
		Check: checkCompact,
	})
}
