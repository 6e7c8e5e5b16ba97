package gojsonsm_test

import (
	"strconv"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Strings are two strings with an encoding of each.
type Strings struct {
	A, B   string
	EA, EB string // JSON string literals
}

// drawNear draws a string related to the first one.
func drawNear(t *vh.T, a string) string {
	r := []rune(a)
	switch vh.N(t, 7) {
	case 0:
		return a
	case 1:
		return a + string(vh.DrawRune(t))
	case 2:
		return string(r[:vh.N(t, len(r)+1)])
	case 3:
		if len(r) == 0 {
			return "a"
		}
		r[vh.N(t, len(r))] = vh.DrawRune(t)
		return string(r)
	case 4:
		p := vh.N(t, len(r)+1)
		return string(r[:p]) + string(vh.DrawRune(t)) + string(r[p:])
	case 5:
		return strings.ToUpper(a)
	}
	return vh.DrawString(t)
}

func drawStrings(t *vh.T) Strings {
	var s Strings
	s.A = vh.DrawString(t)
	s.B = drawNear(t, s.A)
	s.EA = vh.EncodeString(t, s.A, vh.B(t))
	s.EB = vh.EncodeString(t, s.B, vh.B(t))
	return s
}

// drawLongStrings draws strings of up to some thousand bytes that differ late or not at all.
func drawLongStrings(t *vh.T) Strings {
	unit := vh.DrawString(t) + "x"
	if len(unit) > 80 {
		unit = "xy"
	}
	n := []int{64, 128, 256, 512, 1024, 4096}[vh.N(t, 6)] + vh.N(t, 80) - 8
	a := strings.Repeat(unit, n/len(unit)+1)
	var s Strings
	s.A = a
	tail := vh.DrawString(t)
	s.A, s.B = a+tail, a+drawNear(t, tail)
	if vh.P(t, 20) {
		s.B = drawNear(t, s.A)
	}
	s.EA = vh.EncodeString(t, s.A, vh.P(t, 20))
	s.EB = vh.EncodeString(t, s.B, vh.P(t, 20))
	return s
}

func strLabels(c *vh.Ctx, s Strings) {
	c.NonTrivial(s.A != "" && s.B != "")
	c.LabelIf(s.A == s.B, "equal")
	c.LabelIf(s.A == s.B && s.EA != s.EB, "equal-differently-written")
	c.LabelIf(len(s.A) > 64 || len(s.B) > 64, "longer-than-64")
	c.LabelIf(len(s.A) > 1024 && len(s.B) > 1024, "longer-than-1024")
	c.LabelIf(strings.Contains(s.EA+s.EB, `\`), "escapes")
	c.LabelIf(strings.HasPrefix(s.A, s.B) != strings.HasPrefix(s.B, s.A), "prefix")
	for _, r := range s.A + s.B {
		if r > 0xffff {
			c.Label("astral")
			break
		}
	}
}

func TestC09_match(t *testing.T) { runStrings(t, "match", 240000, drawStrings) }

// TestC09_long: long strings.
func TestC09_long(t *testing.T) { runStrings(t, "long", 6000, drawLongStrings) }

func runStrings(t *testing.T, name string, cases int, gen func(t *vh.T) Strings) {
	vh.Run(t, vh.Spec[Strings]{
		Prop: "C09", Name: name, Cases: cases,
		Rule: "neither string is empty",
		Gen:  gen,
		Check: func(c *vh.Ctx, s Strings) error {
			strLabels(c, s)
			want := strings.Compare(s.A, s.B)
			doc := `{"x":` + s.EA + `,"y":` + s.EB + `}`
			mustParse(doc)
			for _, op := range vh.Cmps {
				w := opHolds(op, want)
				for _, v := range []struct {
					what string
					l, r gojsonsm.Expression
					op   string
				}{
					{"document against document", fld("x"), fld("y"), op},
					{"document against literal", fld("x"), gojsonsm.ValueExpr{Value: s.B}, op},
					{"literal against document", gojsonsm.ValueExpr{Value: s.A}, fld("y"), op},
					{"document against literal, swapped", fld("y"), gojsonsm.ValueExpr{Value: s.A}, flipOp(op)},
				} {
					got, st, err := runOp(v.op, v.l, v.r, doc)
					if err != nil {
						return errf("%s: %v\n doc %s", v.what, err, doc)
					}
					if got != w {
						return errf("%s: %q %s %q gives %v\n doc %s", v.what, s.A, op, s.B, got, doc)
					}
					if st != 0 {
						return errf("%s: status %d for two strings\n doc %s", v.what, st, doc)
					}
				}
			}
			return nil
		},
	})
}

var jsonNames = map[string]string{"eq": "equals", "ne": "notequals", "lt": "lessthan", "le": "lessequals", "gt": "greaterthan", "ge": "greaterequals"}
var filterOps = map[string]string{"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}

// TestC09_literals: literals that come out of JSON expressions and filter text.
func TestC09_literals(t *testing.T) {
	type litCase struct {
		S  Strings
		Op string
		Go string // the literal as Go-escaped text for the filter
	}
	vh.Run(t, vh.Spec[litCase]{
		Prop: "C09", Name: "literals", Cases: 70000,
		Rule: "neither string is empty",
		Gen: func(t *vh.T) litCase {
			l := litCase{S: drawStrings(t), Op: vh.Pick(t, vh.Cmps...)}
			if vh.B(t) {
				l.Go = strconv.Quote(l.S.B)
			} else {
				l.Go = strconv.QuoteToASCII(l.S.B)
			}
			return l
		},
		Check: func(c *vh.Ctx, x litCase) error {
			s := x.S
			strLabels(c, s)
			want := opHolds(x.Op, strings.Compare(s.A, s.B))
			doc := `{"x":` + s.EA + `}`
			e, err := gojsonsm.ParseJsonExpression(buf(`["` + jsonNames[x.Op] + `",["field","x"],["value",` + s.EB + `]]`))
			if err != nil {
				return errf("the JSON expression is rejected: %v (literal %s)", err, s.EB)
			}
			got, _, err := runExpr(e, doc)
			if err != nil || got != want {
				return errf("JSON expression: %q %s %q (written %s) gives %v %v\n doc %s", s.A, x.Op, s.B, s.EB, got, err, doc)
			}
			switch strings.ToLower(s.B) {
			case "true", "false": // the filter language takes these for booleans even when quoted
				return nil
			}
			m, err := gojsonsm.GetFilterExpressionMatcher("x " + filterOps[x.Op] + " " + x.Go)
			if err != nil {
				return errf("the filter is rejected: %v (literal %s)", err, x.Go)
			}
			got, err = m.Match(buf(doc))
			if err != nil || got != want {
				return errf("filter: %q %s %q (written %s) gives %v %v\n doc %s", s.A, x.Op, s.B, x.Go, got, err, doc)
			}
			return nil
		},
	})
}

// TestC09_values: comparison and conversion of string values in every representation.
func TestC09_values(t *testing.T) {
	type valCase struct {
		A, B FV
	}
	draw := func(t *vh.T, s, enc string) FV {
		switch vh.N(t, 3) {
		case 0:
			return FV{"str", s}
		case 1:
			return FV{"bin", s}
		}
		return FV{"jstr", enc[1 : len(enc)-1]}
	}
	vh.Run(t, vh.Spec[valCase]{
		Prop: "C09", Name: "values", Cases: 800000,
		Rule: "neither string is empty",
		Gen: func(t *vh.T) valCase {
			s := drawStrings(t)
			if vh.P(t, 1) {
				s = drawLongStrings(t)
			}
			return valCase{draw(t, s.A, s.EA), draw(t, s.B, s.EB)}
		},
		Check: func(c *vh.Ctx, x valCase) error {
			a, b := x.A.val(), x.B.val()
			sa, sb := x.A.cv().S, x.B.cv().S
			c.Label(x.A.K + "-" + x.B.K)
			c.NonTrivial(sa != "" && sb != "")
			want := strings.Compare(sa, sb)
			if r, ok := a.Compare(b); sgn(r) != want || !ok {
				return errf("Compare(%v, %v) = %d, %v; the strings are %q and %q", x.A, x.B, r, ok, sa, sb)
			}
			if r, ok := a.Equals(b); r != (want == 0) || !ok {
				return errf("Equals(%v, %v) = %v, %v; the strings are %q and %q", x.A, x.B, r, ok, sa, sb)
			}
			if s, ok := a.AsString(); s != sa || !ok {
				return errf("AsString of %v is %q, want %q", x.A, s, sa)
			}
			bin, err := a.ToBinString()
			if err != nil {
				return errf("ToBinString of %v: %v", x.A, err)
			}
			js, err := a.ToJsonString()
			if err != nil {
				return errf("ToJsonString of %v: %v", x.A, err)
			}
			for _, v := range []gojsonsm.FastVal{bin, js} {
				if s, ok := v.AsString(); s != sa || !ok {
					return errf("a conversion of %v is %q, want %q", x.A, s, sa)
				}
				if r, ok := v.Compare(b); sgn(r) != want || !ok {
					return errf("a conversion of %v compares to %v with %d %v, want %d", x.A, x.B, r, ok, want)
				}
			}
			return nil
		},
	})
}
