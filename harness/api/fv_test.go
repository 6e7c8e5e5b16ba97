package gojsonsm_test

import (
	"math/big"
	"strconv"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// FV is a value made through the exported constructors.
type FV struct {
	K string // int uint float jint juint jfloat str bin jstr null true false time arr obj invalid missing
	V string `json:",omitempty"`
}

func (f FV) val() gojsonsm.FastVal {
	switch f.K {
	case "int":
		i, _ := strconv.ParseInt(f.V, 10, 64)
		return gojsonsm.NewIntFastVal(i)
	case "uint":
		u, _ := strconv.ParseUint(f.V, 10, 64)
		return gojsonsm.NewUintFastVal(u)
	case "float":
		x, _ := strconv.ParseFloat(f.V, 64)
		return gojsonsm.NewFloatFastVal(x)
	case "jint":
		return gojsonsm.NewJsonIntFastVal(buf(f.V))
	case "juint":
		return gojsonsm.NewJsonUintFastVal(buf(f.V))
	case "jfloat":
		return gojsonsm.NewJsonFloatFastVal(buf(f.V))
	case "str":
		return gojsonsm.NewStringFastVal(f.V)
	case "bin":
		return gojsonsm.NewBinStringFastVal(buf(f.V))
	case "jstr": // V is the text between the quotes
		return gojsonsm.NewJsonStringFastVal(buf(f.V))
	case "null":
		return gojsonsm.NewNullFastVal()
	case "true":
		return gojsonsm.NewBoolFastVal(true)
	case "false":
		return gojsonsm.NewBoolFastVal(false)
	case "time":
		tm, ok := vh.ParseTime(f.V)
		if !ok {
			panic("HARNESS: time " + f.V)
		}
		return gojsonsm.NewTimeFastVal(&tm)
	case "arr":
		return gojsonsm.NewArrayFastVal(buf(f.V))
	case "obj":
		return gojsonsm.NewObjectFastVal(buf(f.V))
	case "invalid":
		return gojsonsm.NewInvalidFastVal()
	case "missing":
		return gojsonsm.NewMissingFastVal()
	}
	panic("HARNESS: kind " + f.K)
}

func (f FV) cv() vh.CV {
	switch f.K {
	case "int":
		i, _ := strconv.ParseInt(f.V, 10, 64)
		return vh.CVInt(i)
	case "uint":
		u, _ := strconv.ParseUint(f.V, 10, 64)
		return vh.CVUint(u)
	case "jint":
		i, _ := strconv.ParseInt(f.V, 10, 64)
		return vh.CVInt(i)
	case "juint":
		u, _ := strconv.ParseUint(f.V, 10, 64)
		return vh.CVUint(u)
	case "float", "jfloat":
		x, _ := strconv.ParseFloat(f.V, 64)
		return vh.CVFloat(x)
	case "str", "bin":
		return vh.CVStr(f.V)
	case "jstr":
		return vh.CVStr(vh.DecodeString(`"` + f.V + `"`))
	case "null":
		return vh.CV{T: vh.TNull}
	case "true":
		return vh.CV{T: vh.TTrue}
	case "false":
		return vh.CV{T: vh.TFalse}
	case "time":
		tm, _ := vh.ParseTime(f.V)
		return vh.CV{T: vh.TTime, Tm: tm}
	case "arr":
		return vh.CV{T: vh.TArr, Raw: f.V}
	case "obj":
		return vh.CV{T: vh.TObj, Raw: f.V}
	case "invalid":
		return vh.CV{T: vh.TInvalid}
	case "missing":
		return vh.CV{T: vh.TMissing}
	}
	panic("HARNESS: kind " + f.K)
}

func (f FV) num() bool {
	switch f.K {
	case "int", "uint", "float", "jint", "juint", "jfloat":
		return true
	}
	return false
}

// drawNumFV draws a number in one of its representations.
func drawNumFV(t *vh.T) FV {
	return numFV(t, vh.DrawNumText(t))
}

func numFV(t *vh.T, txt string) FV {
	v := vh.CVOfNumText(txt)
	var ks []string
	switch v.T {
	case vh.TInt:
		ks = []string{"int", "jint"}
		if v.I >= 0 {
			ks = append(ks, "uint", "juint")
		}
		txt = strconv.FormatInt(v.I, 10)
	case vh.TUint:
		ks = []string{"uint", "juint"}
	default:
		if vh.P(t, 50) {
			return FV{"jfloat", txt}
		}
		return FV{"float", strconv.FormatFloat(v.F, 'g', -1, 64)}
	}
	if vh.P(t, 12) {
		return FV{vh.Pick(t, "float", "jfloat"), txt}
	}
	return FV{ks[vh.N(t, len(ks))], txt}
}

// numCV reads a number out of a value.
func numCV(v gojsonsm.FastVal) (vh.CV, bool) {
	switch {
	case v.Type() == gojsonsm.InvalidValue:
		return vh.CV{T: vh.TInvalid}, true
	case v.IsInt():
		i, ok := v.AsInt()
		return vh.CVInt(i), ok
	case v.IsUInt():
		u, ok := v.AsUint()
		return vh.CVUint(u), ok
	case v.IsFloat():
		f, ok := v.AsFloat()
		return vh.CVFloat(f), ok
	}
	return vh.CV{}, false
}

func bigOf(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

// opHolds says whether the comparison operator holds of an order.
func opHolds(op string, r int) bool {
	switch op {
	case "eq":
		return r == 0
	case "ne":
		return r != 0
	case "lt":
		return r < 0
	case "le":
		return r <= 0
	case "gt":
		return r > 0
	}
	return r >= 0
}

func flipOp(op string) string {
	switch op {
	case "lt":
		return "gt"
	case "le":
		return "ge"
	case "gt":
		return "lt"
	case "ge":
		return "le"
	}
	return op
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// runOp matches one comparison.
func runOp(op string, l, r gojsonsm.Expression, doc string) (bool, int, error) {
	var e gojsonsm.Expression
	switch op {
	case "eq":
		e = gojsonsm.EqualsExpr{Lhs: l, Rhs: r}
	case "ne":
		e = gojsonsm.NotEqualsExpr{Lhs: l, Rhs: r}
	case "lt":
		e = gojsonsm.LessThanExpr{Lhs: l, Rhs: r}
	case "le":
		e = gojsonsm.LessEqualsExpr{Lhs: l, Rhs: r}
	case "gt":
		e = gojsonsm.GreaterThanExpr{Lhs: l, Rhs: r}
	default:
		e = gojsonsm.GreaterEqualsExpr{Lhs: l, Rhs: r}
	}
	return runExpr(e, doc)
}

func runExpr(e gojsonsm.Expression, doc string) (bool, int, error) {
	var tr gojsonsm.Transformer
	m := gojsonsm.NewFastMatcher(tr.Transform([]gojsonsm.Expression{e}))
	return m.MatchWithStatus(buf(doc))
}

func fld(p ...string) gojsonsm.FieldExpr { return gojsonsm.FieldExpr{Path: p} }

// goQuote writes a Go string literal.
func goQuote(s string) string { return strconv.Quote(s) }

// simpleable says whether the simple parser can take the text between quotes.
func simpleable(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '!' || c > '~' || c == '"' || c == '\'' || c == '`' || c == '\\' || c == '(' || c == ')' || c == ',' || c == '|' || c == '&' {
			return false
		}
	}
	return true
}
