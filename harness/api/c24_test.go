package gojsonsm_test

import (
	"reflect"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// countStats counts what is in the expression.
func countStats(s *gojsonsm.ExpressionStats, e *vh.E, depth int) {
	if depth > s.MaxLoopDepth {
		s.MaxLoopDepth = depth
	}
	e.WalkOperands(func(o *vh.Operand) {
		switch o.K {
		case "field":
			s.NumFields++
		case "lit":
			s.NumValues++
		}
	})
	inner := depth
	switch {
	case e.Op == "and":
		s.NumAnds++
	case e.Op == "or":
		s.NumOrs++
	case e.IsLoop():
		s.NumLoops++
		if depth == 1 {
			s.NumNestedLoops++
		}
		inner++
	}
	for _, k := range e.Kids {
		countStats(s, k, inner)
	}
}

func TestC24_scan(t *testing.T) {
	opt := vh.GenOpt{Depth: 4, Loops: true, Const: true, Funcs: true, Time: true, Like: true, GoLits: true, MaxKids: 5, Root: true}
	vh.Run(t, vh.Spec[*vh.E]{
		Prop: "C24", Name: "scan", Cases: 600000,
		Rule: "the expression has two conditions or more, or a loop",
		Gen: func(t *vh.T) *vh.E {
			base := drawLoopDoc(t)
			e := opt.DrawExpr(t, base)
			if vh.P(t, 60) {
				e = opt.DrawLoop(t, base)
			}
			for n := vh.Weighted(t, 6, 2, 1, 1); n > 0; n-- { // deeper nesting, and siblings of loops
				switch vh.N(t, 4) {
				case 0:
					e = &vh.E{Op: vh.Pick(t, "any", "every", "anyevery"), Var: 100 + n, In: vh.Field(0, "a"), Kids: []*vh.E{e}}
				case 1:
					e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{opt.DrawLoop(t, base), e, opt.DrawLoop(t, base)}}
				case 2:
					e = &vh.E{Op: "not", Kids: []*vh.E{e}}
				default:
					e = &vh.E{Op: vh.Pick(t, "any", "every", "anyevery"), Var: 100 + n, In: vh.Field(0, "a"),
						Kids: []*vh.E{{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{e, opt.DrawLoop(t, base)}}}}
				}
			}
			return sprinkle(t, e, vh.Pick(t, 0, 0, 5))
		},
		Check: checkScan,
	})
}

func checkScan(c *vh.Ctx, x *vh.E) error {
	var want, got gojsonsm.ExpressionStats
	countStats(&want, x, 0)
	c.NonTrivial(x.Leaves() >= 2 || want.NumLoops > 0)
	c.LabelIf(want.MaxLoopDepth >= 3, "3+levels")
	c.LabelIf(want.NumNestedLoops > 0, "nested")
	e := conv(x)
	if err := got.Scan(e); err != nil {
		return errf("Scan fails: %v\n expr %v", err, x)
	}
	if got != want {
		return errf("Scan gives\n%v\n the expression has\n%v\n expr %v", got, want, x)
	}
	if w := conv(x); !reflect.DeepEqual(e, w) {
		return errf("Scan modifies the expression %v", x)
	}
	_ = got.String()
	return nil
}

func TestC24_wide(t *testing.T) {
	opt := vh.GenOpt{Loops: true, Funcs: true, Time: true, Like: true, GoLits: true, MaxKids: 5, Root: true}
	vh.Run(t, vh.Spec[*vh.E]{
		Prop: "C24", Name: "wide", Cases: 15000,
		Rule: "the expression has an AND or OR of five conditions or more",
		Gen: func(t *vh.T) *vh.E {
			return drawWideExpr(t, opt, drawLoopDoc(t), true)
		},
		Check: checkScan,
	})
}

// TestC24_deep: loops, connectives and functions nested in each other tens of levels deep,
// functions with any number of parameters.
func TestC24_deep(t *testing.T) {
	opt := vh.GenOpt{Loops: true, Funcs: true, Time: true, Like: true, GoLits: true, MaxKids: 3, Root: true}
	vh.Run(t, vh.Spec[*vh.E]{
		Prop: "C24", Name: "deep", Cases: 40000,
		Rule: "loops are nested three levels or more, or a function has three parameters or more",
		Gen: func(t *vh.T) *vh.E {
			base := drawLoopDoc(t)
			var operand func(d int) *vh.Operand
			operand = func(d int) *vh.Operand {
				if d == 0 || vh.P(t, 30) {
					if vh.B(t) {
						return &vh.Operand{K: "lit", Lit: vh.DrawLit(t, nil, true)}
					}
					return vh.Field(vh.N(t, 3), vh.DrawKey(t))
				}
				o := &vh.Operand{K: "func", Fn: vh.Fn1Names[vh.N(t, len(vh.Fn1Names))]}
				for n := vh.Pick(t, 1, 1, 2, 3, 0, 5, 9); n > 0; n-- {
					o.Args = append(o.Args, operand(d-1))
				}
				return o
			}
			e := opt.DrawExpr(t, base)
			if vh.P(t, 60) {
				e = &vh.E{Op: vh.Pick(t, vh.Cmps...), L: operand(3), R: operand(2)}
			}
			loops := vh.Pick(t, 30, 60, 90)
			for n := vh.N(t, vh.Pick(t, 6, 14, 70)); n > 0; n-- {
				switch {
				case vh.P(t, loops):
					in := vh.Field(0, "a")
					if vh.P(t, 10) {
						in = operand(1)
					}
					e = &vh.E{Op: vh.Pick(t, "any", "every", "anyevery"), Var: 100 + n, In: in, Kids: []*vh.E{e}}
				case vh.P(t, 30):
					e = &vh.E{Op: "not", Kids: []*vh.E{e}}
				default:
					e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{e}}
					for k := vh.N(t, 2); k > 0; k-- {
						e.Kids = append(e.Kids, opt.DrawExpr(t, base))
					}
					if len(e.Kids) > 1 && vh.B(t) {
						e.Kids[0], e.Kids[1] = e.Kids[1], e.Kids[0]
					}
				}
			}
			return e
		},
		Check: func(c *vh.Ctx, x *vh.E) error {
			many := false
			x.Walk(func(e *vh.E) {
				e.WalkAllOperands(func(o *vh.Operand) { many = many || len(o.Args) > 2 })
			})
			c.LabelIf(many, "3+parameters")
			c.LabelIf(loopDepth(x) > 10, "10+levels")
			if err := checkScan(c, x); err != nil {
				return err
			}
			c.NonTrivial(many || loopDepth(x) > 2)
			return nil
		},
	})
}
