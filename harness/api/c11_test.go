package gojsonsm_test

import (
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

var crossPool = []string{"true", "false", "1", "0", "-1", "2", "1.0", "0.5", "2019", "2019-03-04", "2019-03-04T00:00:00Z", "True", "FALSE", "null",
	"", "1e0", "01", " 1", "1E+00", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "a", "t", "+1", "2019-13-01", "9007199254740993",
	"NaN", "inf", "-Infinity"}

// drawCross draws a value of any type, many of which convert to one another.
func drawCross(t *vh.T) *vh.Node {
	switch vh.Weighted(t, 4, 5, 2, 2, 2, 1, 1) {
	case 0:
		return &vh.Node{K: '#', Num: vh.DrawNumText(t)}
	case 1:
		if vh.P(t, 60) {
			return &vh.Node{K: 's', Str: crossPool[vh.N(t, len(crossPool))]}
		}
		if vh.B(t) {
			return &vh.Node{K: 's', Str: vh.DrawNumText(t)}
		}
		return &vh.Node{K: 's', Str: vh.DrawString(t)}
	case 2:
		return &vh.Node{K: 't'}
	case 3:
		return &vh.Node{K: 'f'}
	case 4:
		return &vh.Node{K: 'n'}
	case 5:
		return vh.DrawArray(t, 1, 2)
	}
	return vh.DrawObject(t, 1, 2)
}

// drawNearLists draws two lists or objects that differ in one place or not at all.
func drawNearLists(t *vh.T) (a, b *vh.Node) {
	if vh.B(t) {
		a = vh.DrawArray(t, 3, 6)
	} else {
		a = vh.DrawObject(t, 3, 5)
	}
	if vh.P(t, 20) {
		return a, a.Clone()
	}
	return a, vh.NearCopy(t, a)
}

// Cross is a comparison of two values.
type Cross struct {
	A, B string  // the document's x and y
	L    *vh.Lit // literal related to one of them
	Tm   string  // or a date literal
	Date bool    // x goes through the date function
}

func TestC11_match(t *testing.T) {
	vh.Run(t, vh.Spec[Cross]{
		Prop: "C11", Name: "match", Cases: 300000,
		Rule: "the two operands are of different types",
		Gen: func(t *vh.T) Cross {
			a, b := drawCross(t), drawCross(t)
			if vh.P(t, 5) {
				// long lists and objects that differ in one place, or not at all
				a, b = drawNearLists(t)
			}
			x := Cross{A: vh.Plain(a), B: vh.Plain(b)}
			if vh.P(t, 15) {
				x.Tm = vh.Pick(t, "2019-03-04", "2019", "2019-03-04T00:00:00Z", "1970-01-01", "2019-03-04T01:00:00+01:00")
			} else {
				n := drawCross(t)
				for n.K == 'a' || n.K == 'o' {
					n = drawCross(t)
				}
				x.L, _ = vh.LitOfNode(t, n, true)
			}
			x.Date = vh.P(t, 10)
			return x
		},
		Check: func(c *vh.Ctx, x Cross) error {
			doc := `{"x":` + x.A + `,"y":` + x.B + `}`
			n := mustParse(doc)
			lit := &vh.Operand{K: "lit", Lit: x.L}
			if x.L == nil {
				lit = &vh.Operand{K: "time", S: x.Tm}
			}
			fx := vh.Field(0, "x")
			fy := vh.Field(0, "y")
			if x.Date {
				fx = &vh.Operand{K: "func", Fn: "date", Args: []*vh.Operand{fx}}
				c.Label("date()")
			}
			for _, p := range []struct {
				what string
				l, r *vh.Operand
			}{{"fields", fx, fy}, {"field-literal", fx, lit}, {"literal-field", lit, fy}, {"field-literal 2", fy, lit}} {
				res := map[string]bool{}
				for _, op := range vh.Cmps {
					for swap := 0; swap < 2; swap++ {
						e := &vh.E{Op: op, L: p.l, R: p.r}
						if swap == 1 {
							e = &vh.E{Op: flipOp(op), L: p.r, R: p.l}
						}
						want, ev := vh.EvalDoc(e, n)
						var tr gojsonsm.Transformer
						m := gojsonsm.NewFastMatcher(tr.Transform([]gojsonsm.Expression{conv(e)}))
						got, st, err := m.MatchWithStatus(buf(doc))
						if err != nil {
							return errf("%s: %v\n doc %s\n expr %s", p.what, err, doc, e)
						}
						if swap == 0 {
							res[op] = got
						} else if got != res[op] {
							return errf("%s: swapping the operands does not negate the order: %v, swapped %v\n doc %s\n expr %s", p.what, res[op], got, doc, e)
						}
						if ev.Ambig {
							continue
						}
						if got != want {
							return errf("%s: gives %v, by the rules %v\n doc %s\n expr %s", p.what, got, want, doc, e)
						}
						if (st&gojsonsm.MatcherCollateUsed != 0) != ev.Invalid {
							return errf("%s: status %d, collation %v\n doc %s\n expr %s", p.what, st, ev.Invalid, doc, e)
						}
						c.LabelIf(ev.Invalid, "collated")
						c.LabelIf(!ev.Invalid, "compared")
					}
				}
				k := 0
				for _, op := range []string{"lt", "gt"} {
					if res[op] {
						k++
					}
				}
				if k == 2 || res["lt"] && res["ge"] || res["gt"] && res["le"] || res["eq"] && k > 0 || res["eq"] == res["ne"] ||
					res["le"] == res["gt"] || res["ge"] == res["lt"] {
					return errf("%s: the operators contradict each other: %v\n doc %s\n literal %v %s", p.what, res, doc, x.L, x.Tm)
				}
			}
			a, b := n.Get("x"), n.Get("y")
			c.NonTrivial(a.K != b.K)
			c.Label(string(a.K) + string(b.K))
			return nil
		},
	})
}

// TestC11_values: the order of values in every representation, both ways round.
func TestC11_values(t *testing.T) {
	type pair struct{ A, B FV }
	draw := func(t *vh.T) FV {
		switch vh.Weighted(t, 6, 6, 1, 1, 1, 2, 1, 1, 1) {
		case 0:
			if vh.P(t, 4) {
				return FV{"float", vh.Pick(t, "NaN", "+Inf", "-Inf")}
			}
			return drawNumFV(t)
		case 1:
			s := drawCross(t).Str
			switch vh.N(t, 3) {
			case 0:
				return FV{"str", s}
			case 1:
				return FV{"bin", s}
			}
			e := vh.EncodeString(t, s, vh.B(t))
			return FV{"jstr", e[1 : len(e)-1]}
		case 2:
			return FV{K: "null"}
		case 3:
			return FV{K: "true"}
		case 4:
			return FV{K: "false"}
		case 5:
			return FV{"time", vh.Pick(t, "2019-03-04", "2019", "2019-03-04T00:00:00Z", "1970-01-01", "2019-03-04T01:00:00+01:00")}
		case 6:
			return FV{"arr", vh.Plain(vh.DrawArray(t, 1, 2))}
		case 7:
			return FV{"obj", vh.Plain(vh.DrawObject(t, 1, 2))}
		}
		return FV{K: vh.Pick(t, "invalid", "missing")}
	}
	vh.Run(t, vh.Spec[pair]{
		Prop: "C11", Name: "values", Cases: 1200000,
		Rule: "the two values are of different types",
		Gen: func(t *vh.T) pair {
			if vh.P(t, 5) {
				a, b := drawNearLists(t)
				k := "arr"
				if a.K == 'o' {
					k = "obj"
				}
				return pair{FV{k, vh.Plain(a)}, FV{k, vh.Plain(b)}}
			}
			return pair{draw(t), draw(t)}
		},
		Check: func(c *vh.Ctx, x pair) error {
			c.Label(x.A.K)
			c.NonTrivial(x.A.K != x.B.K)
			a, b := x.A.val(), x.B.val()
			r, ok := a.Compare(b)
			r2, ok2 := b.Compare(a)
			if sgn(r) != -sgn(r2) || ok != ok2 {
				return errf("Compare(%v, %v) = %d, %v but swapped %d, %v", x.A, x.B, r, ok, r2, ok2)
			}
			eq, eok := a.Equals(b)
			if eq && !(r == 0 && ok) || !eq && r == 0 && ok || eok != ok {
				return errf("Equals(%v, %v) = %v, %v but Compare gives %d, %v", x.A, x.B, eq, eok, r, ok)
			}
			if x.A.K == x.B.K && (x.A.K == "arr" || x.A.K == "obj") {
				c.LabelIf(x.A.V != x.B.V, "lists or objects that differ")
				if same := x.A.V == x.B.V; eq != same {
					return errf("Equals(%v, %v) = %v", x.A, x.B, eq)
				}
			}
			r3, ok3 := a.Collate(b)
			if ok3 {
				return errf("Collate(%v, %v) claims a valid comparison", x.A, x.B)
			}
			if nan := func(f FV) bool { return f.K == "float" && f.V == "NaN" }; nan(x.A) && x.B.num() && (ok || nan(x.B) != (r == 0) || r > 0) {
				return errf("Compare(%v, %v) = %d, %v", x.A, x.B, r, ok)
			}
			ta, tb := rank(x.A), rank(x.B)
			if ta != tb && sgn(r3) != sgn(ta-tb) {
				return errf("Collate(%v, %v) = %d against the collation order", x.A, x.B, r3)
			}
			return nil
		},
	})
}

// rank is the place of the value's type in the collation order.
func rank(f FV) int {
	for i, k := range [][]string{{"invalid"}, {"missing"}, {"null"}, {"false"}, {"true"}, {"int", "uint", "float", "jint", "juint", "jfloat"},
		{"str", "bin", "jstr"}, {"time"}, {"arr"}, {"obj"}} {
		for _, n := range k {
			if n == f.K {
				return i
			}
		}
	}
	panic("HARNESS: rank " + f.K)
}
