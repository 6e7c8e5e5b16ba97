package gojsonsm_test

import (
	"math"
	"math/big"
	"strconv"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// draw10 draws a number, rarely one beyond float64.
func draw10(t *vh.T) string {
	if vh.N(t, 40) == 39 {
		return vh.Pick(t, "1e400", "-1e400", "1e309", "-1.5e309", "1e5000", "1.7976931348623157e308", "-1.7976931348623157e308")
	}
	return vh.DrawNumText(t)
}

// beyond tells whether a number is beyond float64; the code may then call the
// outcome of a comparison undefined.
func beyond(s string) bool {
	_, inf := exact(s)
	return inf != 0
}

// drawNearNum draws a number related to the first one.
func drawNearNum(t *vh.T, a string) string {
	v := vh.CVOfNumText(a)
	switch vh.N(t, 7) {
	case 0:
		return a
	case 1, 2: // a neighbour
		if b := bigOf(a); b != nil {
			return new(big.Int).Add(b, big.NewInt(int64(vh.N(t, 5)-2))).String()
		}
		f := v.Float() + []float64{1, -1, 2e-7, -2e-7, 5e-8, -5e-8, 0.5}[vh.N(t, 7)]
		if math.IsInf(f, 0) {
			return a
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 3: // the same in another notation
		if math.Abs(v.Float()) < 1e18 {
			return strconv.FormatFloat(v.Float(), vh.Pick(t, byte('f'), 'e', 'E'), -1, 64)
		}
		return strconv.FormatFloat(v.Float(), 'e', -1, 64)
	case 4:
		if a[0] == '-' {
			return a[1:]
		}
		return "-" + a
	case 5: // wrapped around 2^64 or 2^63
		if b := bigOf(a); b != nil {
			return new(big.Int).Add(b, new(big.Int).Lsh(big.NewInt(1), uint(vh.Pick(t, 63, 64)))).String()
		}
	}
	return vh.DrawNumText(t)
}

// drawNear10 draws a number related to the first one, rarely one beyond float64.
func drawNear10(t *vh.T, a string) string {
	switch {
	case !beyond(a) && vh.N(t, 80) != 79:
		return drawNearNum(t, a)
	case vh.P(t, 80):
		return vh.Pick(t, "1e400", "-1e400", "1e300", "-1e300", "1e6000", a)
	}
	return draw10(t)
}

// exact is the mathematical value, or an infinity (sign) if it is beyond float64.
func exact(s string) (r *big.Rat, inf int) {
	f, _ := strconv.ParseFloat(s, 64)
	if math.IsInf(f, 0) {
		return nil, sgnf(f)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("HARNESS: number " + s)
	}
	return r, 0
}

func sgnf(f float64) int {
	switch {
	case f < 0:
		return -1
	case f > 0:
		return 1
	}
	return 0
}

// numOrder gives the permitted orders of two numbers: by mathematical value when
// both are integers of 64 bits, else within the tolerance and float64 rounding.
func numOrder(a, b string, fa, fb bool) (lo, hi int) {
	ra, ia := exact(a)
	rb, ib := exact(b)
	if ia != 0 || ib != 0 {
		if ia == ib {
			return -1, 1
		}
		return sgn(ia - ib), sgn(ia - ib)
	}
	r := ra.Cmp(rb)
	if !fa && !fb {
		return r, r
	}
	d, _ := new(big.Rat).Sub(ra, rb).Float64()
	x, _ := ra.Float64()
	y, _ := rb.Float64()
	round := math.Ldexp(math.Max(math.Abs(x), math.Abs(y)), -50)
	lo, hi = r, r
	if math.Abs(d) <= 1e-7*1.001+round { // may count as equal
		lo, hi = min(lo, 0), max(hi, 0)
	}
	if math.Abs(d) < 1e-7*0.999-round { // must count as equal
		return 0, 0
	}
	if math.Abs(d) <= round && round > 1e-7*0.999 && r == 0 {
		lo, hi = 0, 0
	}
	return
}

func isFloatText(s string) bool { return vh.CVOfNumText(s).T == vh.TFloat }

// litText is the exact value of a literal as text.
func litText(l *vh.Lit) string {
	if l.T == "float32" {
		return strconv.FormatFloat(float64(l.Go().(float32)), 'g', -1, 64)
	}
	return l.V
}

// Nums are two numbers as JSON text, with Go literals of the same values.
type Nums struct {
	A, B   string
	LA, LB *vh.Lit
}

func TestC10_match(t *testing.T) {
	vh.Run(t, vh.Spec[Nums]{
		Prop: "C10", Name: "match", Cases: 240000,
		Rule: "the numbers are not both of one digit",
		Gen: func(t *vh.T) Nums {
			var x Nums
			x.A = draw10(t)
			x.B = drawNear10(t, x.A)
			x.LA, _ = vh.LitOfNode(t, &vh.Node{K: '#', Num: x.A}, true)
			x.LB, _ = vh.LitOfNode(t, &vh.Node{K: '#', Num: x.B}, true)
			return x
		},
		Check: func(c *vh.Ctx, x Nums) error {
			c.NonTrivial(len(x.A)+len(x.B) > 2)
			fa, fb := isFloatText(x.A), isFloatText(x.B)
			c.LabelIf(fa && fb, "float-float")
			c.LabelIf(fa != fb, "float-integer")
			c.LabelIf(!fa && !fb, "integer-integer")
			c.LabelIf(x.LB.T[0] == 'u', "unsigned-literal")
			doc := `{"x":` + x.A + `,"y":` + x.B + `}`
			mustParse(doc)
			for _, op := range vh.Cmps {
				for _, v := range []struct {
					what   string
					l, r   gojsonsm.Expression
					op     string
					ta, tb string
				}{
					{"document against document", fld("x"), fld("y"), op, x.A, x.B},
					{"document against literal", fld("x"), gojsonsm.ValueExpr{Value: x.LB.Go()}, op, x.A, litText(x.LB)},
					{"literal against document", gojsonsm.ValueExpr{Value: x.LA.Go()}, fld("y"), op, litText(x.LA), x.B},
					{"document against literal, swapped", fld("y"), gojsonsm.ValueExpr{Value: x.LA.Go()}, flipOp(op), litText(x.LA), x.B},
				} {
					lf := func(l *vh.Lit, txt string) bool { return txt == litText(l) && l.T[0] == 'f' }
					lo, hi := numOrder(v.ta, v.tb, isFloatText(v.ta) || lf(x.LA, v.ta), isFloatText(v.tb) || lf(x.LB, v.tb))
					got, st, err := runOp(v.op, v.l, v.r, doc)
					if err != nil {
						return errf("%s: %v\n doc %s", v.what, err, doc)
					}
					if st != 0 && (beyond(v.ta) || beyond(v.tb)) {
						continue
					}
					ok := false
					for r := lo; r <= hi; r++ {
						ok = ok || got == opHolds(op, r)
					}
					if !ok {
						return errf("%s: %s %s %s gives %v\n doc %s literals %v %v", v.what, v.ta, op, v.tb, got, doc, *x.LA, *x.LB)
					}
					if st != 0 {
						return errf("%s: status %d for two numbers %s %s %s\n literals %v %v", v.what, st, v.ta, op, v.tb, *x.LA, *x.LB)
					}
				}
			}
			return nil
		},
	})
}

// TestC10_values: comparison and conversion of number values in every representation.
func TestC10_values(t *testing.T) {
	type pair struct{ A, B FV }
	vh.Run(t, vh.Spec[pair]{
		Prop: "C10", Name: "values", Cases: 1500000,
		Rule: "the numbers are not both of one digit",
		Gen: func(t *vh.T) pair {
			a := draw10(t)
			return pair{numFV(t, a), numFV(t, drawNear10(t, a))}
		},
		Check: func(c *vh.Ctx, x pair) error {
			c.NonTrivial(len(x.A.V)+len(x.B.V) > 2)
			c.Label(x.A.K + "-" + x.B.K)
			a, b := x.A.val(), x.B.val()
			ca := x.A.cv()
			fl := func(f FV) bool { return f.K == "float" || f.K == "jfloat" }
			lo, hi := numOrder(x.A.V, x.B.V, fl(x.A), fl(x.B))
			r, ok := a.Compare(b)
			far := beyond(x.A.V) || beyond(x.B.V)
			c.LabelIf(far, "beyond-float64")
			if !ok && !far || sgn(r) < lo || sgn(r) > hi {
				return errf("Compare(%v, %v) = %d, %v; want %d..%d", x.A, x.B, r, ok, lo, hi)
			}
			r2, ok := b.Compare(a)
			if !ok && !far || sgn(r2) != -sgn(r) {
				return errf("Compare(%v, %v) = %d but swapped %d, %v", x.A, x.B, r, r2, ok)
			}
			if eq, ok := a.Equals(b); eq != (r == 0 && ok) || !ok && !far {
				return errf("Equals(%v, %v) = %v, %v but Compare gives %d", x.A, x.B, eq, ok, r)
			}
			// conversions
			iv, iok := a.AsInt()
			uv, uok := a.AsUint()
			fv, fok := a.AsFloat()
			if !fok && !far || fv != ca.Float() {
				return errf("AsFloat(%v) = %v, %v", x.A, fv, fok)
			}
			if fl(x.A) {
				if iok || uok {
					return errf("a float converts to an integer: %v: %d %v %d %v", x.A, iv, iok, uv, uok)
				}
				return nil
			}
			big := ca.Big()
			if iok != big.IsInt64() || iok && iv != big.Int64() {
				return errf("AsInt(%v) = %d, %v", x.A, iv, iok)
			}
			if uok != big.IsUint64() || uok && uv != big.Uint64() {
				return errf("AsUint(%v) = %d, %v", x.A, uv, uok)
			}
			return nil
		},
	})
}
