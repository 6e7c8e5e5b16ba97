package gojsonsm_test

import (
	"math"
	"strconv"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

var fastFn1 = map[string]func(gojsonsm.FastVal) gojsonsm.FastVal{
	"mathAbs": gojsonsm.FastValMathAbs, "mathRound": gojsonsm.FastValMathRound, "mathCeil": gojsonsm.FastValMathCeil,
	"mathFloor": gojsonsm.FastValMathFloor, "mathNegate": gojsonsm.FastValMathNeg, "mathSqrt": gojsonsm.FastValMathSqrt,
	"mathAcos": gojsonsm.FastValMathAcos, "mathAsin": gojsonsm.FastValMathAsin, "mathAtan": gojsonsm.FastValMathAtan,
	"mathCos": gojsonsm.FastValMathCos, "mathSin": gojsonsm.FastValMathSin, "mathTan": gojsonsm.FastValMathTan,
	"mathExp": gojsonsm.FastValMathExp, "mathLn": gojsonsm.FastValMathLn, "mathLog": gojsonsm.FastValMathLog,
	"mathDegrees": gojsonsm.FastValMathDegrees, "mathRadians": gojsonsm.FastValMathRadians,
}

var fastFn2 = map[string]func(a, b gojsonsm.FastVal) gojsonsm.FastVal{
	"mathAdd": gojsonsm.FastValMathAdd, "mathSubract": gojsonsm.FastValMathSub, "mathMultiply": gojsonsm.FastValMathMul,
	"mathDivide": gojsonsm.FastValMathDiv, "mathModulo": gojsonsm.FastValMathMod, "mathPow": gojsonsm.FastValMathPow,
	"mathAtan2": gojsonsm.FastValMathAtan2,
}

// FnCall is one call of a function.
type FnCall struct {
	Fn   string
	Args []FV
}

// drawNearFV draws a second operand that makes the interesting cases likely.
func drawNearFV(t *vh.T, a FV) FV {
	if a.num() && vh.P(t, 40) {
		return numFV(t, drawNearNum(t, a.V))
	}
	switch vh.N(t, 6) {
	case 0:
		return numFV(t, vh.Pick(t, "0", "1", "-1", "2", "-2", "0.0", "-0", "0.5", "10", "3"))
	case 1: // around the square root of the largest integers
		return numFV(t, strconv.FormatInt(int64(vh.Pick(t, 3037000499, 4294967296, 4294967295, -3037000500))+int64(vh.N(t, 3)-1), 10))
	}
	return drawNumFV(t)
}

func drawNonNum(t *vh.T) FV {
	switch vh.N(t, 8) {
	case 0:
		return FV{"str", vh.Pick(t, "1", "", "abc", "2.5", "-3", "0")}
	case 1:
		return FV{"bin", vh.Pick(t, "1", "", "abc", "2.5", "-3", "0")}
	case 2:
		return FV{"jstr", vh.Pick(t, "1", "", "abc", `\"`, "2.5", "-3", "0")}
	case 3:
		return FV{K: "null"}
	case 4:
		return FV{K: vh.Pick(t, "true", "false")}
	case 5:
		return FV{"arr", vh.Pick(t, "[]", "[1]")}
	case 6:
		return FV{"time", "2019-03-04"}
	}
	return FV{K: vh.Pick(t, "invalid", "missing")}
}

func TestC12_values(t *testing.T) {
	vh.Run(t, vh.Spec[FnCall]{
		Prop: "C12", Name: "values", Cases: 1600000,
		Rule: "all the arguments are numbers and the function has a defined result",
		Gen: func(t *vh.T) FnCall {
			x := FnCall{}
			n := 1
			if vh.P(t, 70) {
				n = 2
				x.Fn = vh.Fn2Names[vh.N(t, len(vh.Fn2Names))]
			} else {
				x.Fn = vh.Fn1Names[vh.N(t, len(vh.Fn1Names))]
			}
			if vh.P(t, 15) {
				// around where the functions bend, overflow and underflow
				x.Args = append(x.Args, numFV(t, strconv.FormatFloat(float64(vh.N(t, 2000001)-1000000)/vh.Pick(t, 1000.0, 1e6), 'f', -1, 64)))
			} else {
				x.Args = append(x.Args, drawNumFV(t))
			}
			if n == 2 {
				x.Args = append(x.Args, drawNearFV(t, x.Args[0]))
			}
			if vh.P(t, 8) {
				x.Args[vh.N(t, n)] = drawNonNum(t)
			}
			return x
		},
		Check: func(c *vh.Ctx, x FnCall) error {
			num := true
			var cvs []vh.CV
			for _, a := range x.Args {
				num = num && a.num()
				cvs = append(cvs, a.cv())
			}
			want := vh.CallFn(x.Fn, cvs)
			var res gojsonsm.FastVal
			if f, ok := fastFn1[x.Fn]; ok {
				res = f(x.Args[0].val())
			} else {
				res = fastFn2[x.Fn](x.Args[0].val(), x.Args[1].val())
			}
			c.Label(x.Fn)
			c.LabelIf(!num, "non-numeric argument")
			got, ok := numCV(res)
			if !ok {
				return errf("%s%v = %v, which is no number", x.Fn, x.Args, res)
			}
			if want.Any {
				c.Skip("integer result beyond 64 bits")
				return nil
			}
			if !vh.SameNum(got, want.V) {
				return errf("%s%v = %v, want %+v", x.Fn, x.Args, res, want.V)
			}
			c.LabelIf(want.V.T == vh.TInvalid, "invalid result")
			c.NonTrivial(num && want.V.T != vh.TInvalid)
			return nil
		},
	})
}

// FnDoc is a function of the fields of a document compared to a literal.
type FnDoc struct {
	Doc string
	F   *vh.Operand
	L   *vh.Lit
}

func TestC12_match(t *testing.T) {
	vh.Run(t, vh.Spec[FnDoc]{
		Prop: "C12", Name: "match", Cases: 400000,
		Rule: "the function's arguments are numbers, its value is finite and it is compared to a number",
		Gen: func(t *vh.T) FnDoc {
			keys := []string{"x", "y", "z"}
			var x FnDoc
			o := &vh.Node{K: 'o', Keys: keys}
			for range keys {
				v := &vh.Node{K: '#', Num: vh.DrawNumText(t)}
				switch {
				case vh.P(t, 6):
					v = vh.DrawScalar(t)
				case vh.P(t, 40):
					v.Num = vh.Pick(t, "0", "1", "-1", "2", "3", "0.5", "10", "-7", "100")
				}
				o.Vals = append(o.Vals, v)
			}
			x.Doc = vh.Plain(o)
			var mk func(d int) *vh.Operand
			mk = func(d int) *vh.Operand {
				if d == 0 {
					switch vh.Weighted(t, 6, 3, 1) {
					case 0:
						return vh.Field(0, keys[vh.N(t, 3)])
					case 1:
						l, _ := vh.LitOfNode(t, &vh.Node{K: '#', Num: vh.DrawNumText(t)}, true)
						return &vh.Operand{K: "lit", Lit: l}
					}
					return &vh.Operand{K: "lit", Lit: &vh.Lit{T: "int", V: vh.Pick(t, "0", "1", "2", "-1", "10")}}
				}
				if vh.P(t, 45) {
					return &vh.Operand{K: "func", Fn: vh.Fn1Names[vh.N(t, len(vh.Fn1Names))], Args: []*vh.Operand{mk(d - 1)}}
				}
				a, b := mk(d-1), mk(vh.N(t, d))
				if vh.B(t) {
					a, b = b, a
				}
				return &vh.Operand{K: "func", Fn: vh.Fn2Names[vh.N(t, len(vh.Fn2Names))], Args: []*vh.Operand{a, b}}
			}
			x.F = mk(1 + vh.N(t, 3))
			ev := &vh.Ev{}
			v, _ := ev.Value(x.F, vh.Env{0: o})
			txt := vh.DrawNumText(t)
			if !math.IsNaN(v.F) && !math.IsInf(v.F, 0) && v.T != vh.TInvalid && vh.P(t, 80) {
				txt = strconv.FormatFloat(v.Float(), 'e', -1, 64)
				switch v.T {
				case vh.TInt, vh.TUint:
					txt = v.Big().String()
				}
				if vh.P(t, 40) {
					txt = drawNearNum(t, txt)
				}
			}
			x.L, _ = vh.LitOfNode(t, &vh.Node{K: '#', Num: txt}, true)
			return x
		},
		Check: checkFnDoc,
	})
}

func checkFnDoc(c *vh.Ctx, x FnDoc) error {
	n := mustParse(x.Doc)
	lit := &vh.Operand{K: "lit", Lit: x.L}
	claims := 0
	ev := &vh.Ev{}
	v, _ := ev.Value(x.F, vh.Env{0: n})
	c.NonTrivial(!ev.Ambig && v.T != vh.TInvalid && !math.IsNaN(v.F) && !math.IsInf(v.F, 0))
	c.LabelIf(v.T == vh.TInvalid, "invalid value")
	c.LabelIf(v.T == vh.TFloat, "float value")
	c.LabelIf(v.T == vh.TInt || v.T == vh.TUint, "integer value")
	for _, op := range vh.Cmps {
		for sw := 0; sw < 2; sw++ {
			e := &vh.E{Op: op, L: x.F, R: lit}
			if sw == 1 {
				e.L, e.R = lit, x.F
			}
			want, ev := vh.EvalDoc(e, n)
			m := gojsonsm.NewFastMatcher(compile(e))
			got, st, err := m.MatchWithStatus(buf(x.Doc))
			if err != nil {
				return errf("%v\n doc %s\n expr %s", err, x.Doc, e)
			}
			if ev.Ambig {
				continue
			}
			claims++
			if got != want {
				return errf("%s gives %v, by its definition %v (function value %+v)\n doc %s", e, got, want, v, x.Doc)
			}
			if v.T == vh.TInvalid && st == 0 {
				return errf("%s: the function has no value but the status is 0\n doc %s", e, x.Doc)
			}
		}
	}
	if claims == 0 {
		c.Skip("integer result beyond 64 bits, or rounding")
	}
	return nil
}

// TestC12_deep: functions of functions, tens of levels deep.
func TestC12_deep(t *testing.T) {
	vh.Run(t, vh.Spec[FnDoc]{
		Prop: "C12", Name: "deep", Cases: 30000,
		Rule: "the function's arguments are numbers, its value is finite and it is compared to a number",
		Gen: func(t *vh.T) FnDoc {
			var x FnDoc
			num := func() string { return vh.Pick(t, "0", "1", "-1", "2", "3", "5", "-7", "100", "0.5", "1.5") }
			o := &vh.Node{K: 'o', Keys: []string{"x", "y"}, Vals: []*vh.Node{{K: '#', Num: num()}, {K: '#', Num: num()}}}
			x.Doc = vh.Plain(o)
			leaf := func() *vh.Operand {
				if vh.B(t) {
					return vh.Field(0, vh.Pick(t, "x", "y"))
				}
				l, _ := vh.LitOfNode(t, &vh.Node{K: '#', Num: num()}, true)
				return &vh.Operand{K: "lit", Lit: l}
			}
			x.F = leaf()
			for n := 3 + vh.N(t, vh.Pick(t, 10, 40, 100)); n > 0; n-- {
				if vh.P(t, 30) {
					x.F = &vh.Operand{K: "func", Fn: vh.Pick(t, "mathAbs", "mathNegate", "mathFloor", "mathCeil", "mathRound"), Args: []*vh.Operand{x.F}}
					continue
				}
				as := []*vh.Operand{x.F, leaf()}
				if vh.P(t, 35) {
					as[0], as[1] = as[1], as[0]
				}
				x.F = &vh.Operand{K: "func", Fn: vh.Pick(t, "mathAdd", "mathAdd", "mathSubract", "mathSubract", "mathMultiply"), Args: as}
			}
			ev := &vh.Ev{}
			v, _ := ev.Value(x.F, vh.Env{0: o})
			txt := num()
			if !math.IsNaN(v.F) && !math.IsInf(v.F, 0) && v.T != vh.TInvalid && vh.P(t, 80) {
				txt = strconv.FormatFloat(v.Float(), 'e', -1, 64)
				switch v.T {
				case vh.TInt, vh.TUint:
					txt = v.Big().String()
				}
				if vh.P(t, 40) {
					txt = drawNearNum(t, txt)
				}
			}
			x.L, _ = vh.LitOfNode(t, &vh.Node{K: '#', Num: txt}, true)
			return x
		},
		Check: checkFnDoc,
	})
}
