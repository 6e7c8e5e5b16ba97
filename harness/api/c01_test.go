package gojsonsm_test

import (
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// ExprDocs is an expression with documents to match it against.
type ExprDocs struct {
	E    *vh.E
	Docs []string
}

// drawDocs draws a few related documents: the first one, mutations of it, unrelated ones.
func drawDocs(t *vh.T, base *vh.Node, max int) []string {
	st := vh.DrawStyle(t)
	docs := []string{vh.Encode(t, base, st)}
	n := vh.N(t, max)
	cur := base
	for i := 0; i < n; i++ {
		switch vh.Weighted(t, 6, 1) {
		case 0:
			cur = vh.Mutate(t, cur)
		default:
			cur = vh.DrawDoc(t)
		}
		docs = append(docs, vh.Encode(t, cur, st))
	}
	return docs
}

func checkMatch(c *vh.Ctx, e *vh.E, docs []string) error {
	def := compile(e)
	trues, falses, skipped := 0, 0, 0
	for _, d := range docs {
		want, ev := vh.EvalDoc(e, mustParse(d))
		if ev.Ambig {
			skipped++
			continue
		}
		m := gojsonsm.NewFastMatcher(def)
		got, err := m.Match(buf(d))
		if err != nil {
			return errf("Match fails on a well-formed document\n doc  %s\n expr %s\n err  %v", short(d), e, err)
		}
		if got != want {
			return errf("Match gives %v, the expression is %v of the document\n doc  %s\n expr %s", got, want, short(d), e)
		}
		if want {
			trues++
		} else {
			falses++
		}
		c.LabelIf(ev.Exec > 0, "comparison-executed")
		c.LabelIf(ev.Invalid, "collated")
		c.LabelIf(ev.Raw, "raw-compare")
	}
	if trues+falses == 0 {
		c.Skip("no claim (rounding)")
		return nil
	}
	c.LabelIf(trues > 0, "true")
	c.LabelIf(falses > 0, "false")
	c.LabelIf(trues > 0 && falses > 0, "both-outcomes")
	return nil
}

// shapeLabels classifies the expression.
func shapeLabels(c *vh.Ctx, e *vh.E) {
	leaves := e.Leaves()
	c.LabelIf(leaves >= 3, "3+leaves")
	c.LabelIf(leaves >= 6, "6+leaves")
	c.LabelIf(e.Has("not"), "not")
	c.LabelIf(e.Has("exists") || e.Has("missing"), "exists/missing")
	c.LabelIf(e.Has("true") || e.Has("false"), "constant-inside")
	c.LabelIf(e.Has("like"), "like")
	ff, idx, fn := false, false, false
	var paths [][]string
	e.Walk(func(x *vh.E) {
		if x.L != nil && x.R != nil && x.L.K == "field" && x.R.K == "field" {
			ff = true
		}
		x.WalkOperands(func(o *vh.Operand) {
			if o.K == "field" {
				paths = append(paths, o.Path)
				for _, p := range o.Path {
					if _, ok := vh.ArrayIndex(p); ok {
						idx = true
					}
				}
			}
			if o.K == "func" {
				fn = true
			}
		})
	})
	c.LabelIf(ff, "field-field")
	c.LabelIf(idx, "array-index")
	c.LabelIf(fn, "function")
	over := false
	for i := range paths {
		for j := range paths {
			if i != j && len(paths[i]) < len(paths[j]) {
				p := true
				for k := range paths[i] {
					p = p && paths[i][k] == paths[j][k]
				}
				over = over || p
			}
		}
	}
	c.LabelIf(over, "path-and-subpath")
}

func TestC01_match(t *testing.T) {
	opt := vh.GenOpt{Depth: 4, Const: true, Time: true, GoLits: true, Root: true, MaxKids: 4}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C01", Name: "match", Cases: 2500000,
		Rule: "the expression has at least two conditions on the document, and some comparison or existence test saw a present field",
		Gen: func(t *vh.T) ExprDocs {
			base := vh.DrawDoc(t)
			docs := drawDocs(t, base, 4)
			return ExprDocs{E: opt.DrawExpr(t, base), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			shapeLabels(c, x.E)
			present := false
			for _, d := range x.Docs {
				n := mustParse(d)
				x.E.Walk(func(e *vh.E) {
					e.WalkOperands(func(o *vh.Operand) {
						present = present || o.K == "field" && n.Resolve(o.Path) != nil
					})
				})
			}
			c.NonTrivial(x.E.Leaves() >= 2 && present)
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

func TestC01_wide(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Const: true, Time: true, GoLits: true, MaxKids: 24, Like: true, Funcs: true}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C01", Name: "wide", Cases: 16000,
		Rule: "the expression has ten conditions on the document or more",
		Gen: func(t *vh.T) ExprDocs {
			base := vh.DrawWideDoc(t)
			docs := drawDocs(t, base, 4)
			e := opt.DrawExpr(t, base)
			for i := vh.N(t, 3); i > 0; i-- {
				e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{e, opt.DrawExpr(t, base)}}
			}
			return ExprDocs{E: e, Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			shapeLabels(c, x.E)
			l := x.E.Leaves()
			c.LabelIf(l >= 30, "30+leaves")
			c.LabelIf(l >= 100, "100+leaves")
			c.NonTrivial(l >= 10)
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// pad inserts long insignificant parts into one or more of the documents.
func pad(t *vh.T, docs []string) []string {
	for i := range docs {
		if i == 0 || vh.B(t) {
			docs[i] = vh.PadText(t, docs[i])
		}
	}
	return docs
}

// TestC01_big: documents of tens of kilobytes.
func TestC01_big(t *testing.T) {
	opt := vh.GenOpt{Depth: 3, GoLits: true, MaxKids: 4}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C01", Name: "big", Cases: 8000,
		Rule: "the expression has at least two conditions on the document, and a document is longer than 30000 bytes",
		Gen: func(t *vh.T) ExprDocs {
			base := vh.DrawDoc(t)
			docs := pad(t, drawDocs(t, base, 2))
			return ExprDocs{E: opt.DrawExpr(t, base), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			shapeLabels(c, x.E)
			c.NonTrivial(x.E.Leaves() >= 2 && len(x.Docs[0]) > 30000)
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// drawDeepExpr draws a condition tens of levels down in others.
func drawDeepExpr(t *vh.T, opt vh.GenOpt, base *vh.Node, loops bool) *vh.E {
	opt.Depth = vh.N(t, 2)
	leaf := func() *vh.E {
		if loops && vh.P(t, 8) {
			return opt.DrawLoop(t, base)
		}
		return opt.DrawExpr(t, base)
	}
	e := leaf()
	opt.Depth = 0
	return vh.Deepen(t, e, vh.N(t, vh.Pick(t, 12, 40, 150)), base, leaf)
}

// TestC01_deep: conditions nested tens of levels deep.
func TestC01_deep(t *testing.T) {
	opt := vh.GenOpt{Time: true, GoLits: true, MaxKids: 3, Like: true, Funcs: true}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C01", Name: "deep", Cases: 30000,
		Rule: "the expression has ten conditions on the document or more",
		Gen: func(t *vh.T) ExprDocs {
			base := vh.DrawDoc(t)
			docs := drawDocs(t, base, 3)
			return ExprDocs{E: drawDeepExpr(t, opt, base, false), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			shapeLabels(c, x.E)
			l := x.E.Leaves()
			c.LabelIf(l >= 30, "30+leaves")
			c.NonTrivial(l >= 10)
			return checkMatch(c, x.E, x.Docs)
		},
	})
}
