package gojsonsm_test

import (
	"encoding/json"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Conv is a value and how it is made: from a Go value (T) or by a constructor.
type Conv struct {
	F FV
	L *vh.Lit // a Go value given to NewFastVal, instead of F
}

func (x Conv) String() string {
	if x.L != nil {
		return "NewFastVal(" + x.L.T + ":" + x.L.V + ")"
	}
	return x.F.K + ":" + x.F.V
}

// kindsOf are the answers of the type predicates.
func kindsOf(v gojsonsm.FastVal) string {
	var s []string
	for _, p := range []struct {
		n string
		b bool
	}{{"missing", v.IsMissing()}, {"null", v.IsNull()}, {"binary", v.IsBinary()}, {"boolean", v.IsBoolean()}, {"integral", v.IsIntegral()}, {"int", v.IsInt()},
		{"uint", v.IsUInt()}, {"float", v.IsFloat()}, {"numeric", v.IsNumeric()}, {"string", v.IsString()}, {"time", v.IsTime()}} {
		if p.b {
			s = append(s, p.n)
		}
	}
	return strings.Join(s, " ")
}

func checkConv(c *vh.Ctx, x Conv) error {
	var v gojsonsm.FastVal
	var cv vh.CV
	k := x.F.K
	if x.L != nil {
		v = gojsonsm.NewFastVal(x.L.Go())
		cv = x.L.CV()
		k = strings.TrimRight(x.L.T, "0123456789")
	} else {
		v = x.F.val()
		cv = x.F.cv()
	}
	c.Label(k)
	wantKinds := map[string]string{"int": "integral int numeric", "jint": "integral int numeric", "uint": "integral uint numeric", "juint": "integral uint numeric",
		"float": "float numeric", "jfloat": "float numeric", "str": "string", "bin": "string", "jstr": "string", "null": "null", "true": "boolean", "false": "boolean",
		"time": "time", "arr": "", "obj": "", "invalid": "", "missing": "missing"}
	if got := kindsOf(v); got != wantKinds[k] {
		return errf("%v is called %q, it is %q", x, got, wantKinds[k])
	}
	before := v.String()

	// numbers
	i, iok := v.AsInt()
	u, uok := v.AsUint()
	f, fok := v.AsFloat()
	switch cv.T {
	case vh.TInt, vh.TUint:
		b := cv.Big()
		if iok != b.IsInt64() || iok && i != b.Int64() {
			return errf("AsInt of %v gives %d, %v", x, i, iok)
		}
		if uok != b.IsUint64() || uok && u != b.Uint64() {
			return errf("AsUint of %v gives %d, %v", x, u, uok)
		}
		if !fok || f != cv.Float() {
			return errf("AsFloat of %v gives %v, %v", x, f, fok)
		}
		if k == "int" && v.GetInt() != b.Int64() || k == "uint" && v.GetUint() != b.Uint64() {
			return errf("%v holds %d, %d", x, v.GetInt(), v.GetUint())
		}
	case vh.TFloat:
		if iok || uok {
			return errf("%v converts to an integer: %d %v, %d %v", x, i, iok, u, uok)
		}
		if math.IsInf(cv.F, 0) && k == "jfloat" {
			if fok && f != cv.F {
				return errf("AsFloat of %v gives %v", x, f)
			}
		} else if !fok || f != cv.F && !(f != f && cv.F != cv.F) {
			return errf("AsFloat of %v gives %v, %v", x, f, fok)
		}
		if k == "float" && v.GetFloat() != cv.F {
			return errf("%v holds %v", x, v.GetFloat())
		}
	case vh.TTrue, vh.TFalse:
		w := int64(0)
		if cv.T == vh.TTrue {
			w = 1
		}
		if !iok || !uok || !fok || i != w || u != uint64(w) || f != float64(w) {
			return errf("%v converts to %d %v, %d %v, %v %v", x, i, iok, u, uok, f, fok)
		}
	case vh.TStr:
		// a string without escapes that holds a number converts to it or not at all
		if n, err := strconv.ParseInt(cv.S, 10, 64); iok && (err != nil || n != i) {
			return errf("AsInt of %v gives %d", x, i)
		}
		if n, err := strconv.ParseUint(cv.S, 10, 64); uok && (err != nil || n != u) {
			return errf("AsUint of %v gives %d", x, u)
		}
		if n, err := strconv.ParseFloat(cv.S, 64); fok && (err != nil || n != f && !(n != n && f != f)) {
			return errf("AsFloat of %v gives %v", x, f)
		}
	default:
		if iok || uok || fok {
			return errf("%v converts to a number: %d %v, %d %v, %v %v", x, i, iok, u, uok, f, fok)
		}
	}

	// booleans
	b, bok := v.AsBoolean()
	switch cv.T {
	case vh.TInt, vh.TUint, vh.TFloat:
		if !(math.IsInf(cv.Float(), 0) && k == "jfloat") && (!bok || b != (cv.Float() != 0)) {
			return errf("AsBoolean of %v gives %v, %v", x, b, bok)
		}
	case vh.TTrue, vh.TFalse:
		if !bok || b != (cv.T == vh.TTrue) {
			return errf("AsBoolean of %v gives %v, %v", x, b, bok)
		}
	case vh.TStr:
		if bok && !strings.EqualFold(cv.S, strconv.FormatBool(b)) {
			return errf("AsBoolean of %v gives %v", x, b)
		}
		if k == "jstr" && !bok && (strings.EqualFold(x.F.V, "true") || strings.EqualFold(x.F.V, "false")) {
			return errf("AsBoolean of %v fails", x)
		}
	default:
		if bok {
			return errf("AsBoolean of %v gives %v", x, b)
		}
	}

	// strings
	s, sok := v.AsString()
	switch cv.T {
	case vh.TInt, vh.TUint:
		if !sok || s != cv.Big().String() && s != x.F.V {
			return errf("AsString of %v gives %q, %v", x, s, sok)
		}
	case vh.TFloat:
		n, err := strconv.ParseFloat(s, 64)
		if !sok || !math.IsInf(cv.F, 0) && (err != nil || math.Abs(n-cv.F) > 1e-6+math.Abs(cv.F)*1e-15) {
			return errf("AsString of %v gives %q, %v", x, s, sok)
		}
	case vh.TTrue, vh.TFalse:
		if !sok || s != strconv.FormatBool(cv.T == vh.TTrue) {
			return errf("AsString of %v gives %q, %v", x, s, sok)
		}
	case vh.TStr:
		if !sok || s != cv.S {
			return errf("AsString of %v gives %q, %v, it is %q", x, s, sok, cv.S)
		}
	default:
		if sok {
			return errf("AsString of %v gives %q", x, s)
		}
	}
	bin, berr := v.ToBinString()
	js, jerr := v.ToJsonString()
	if cv.T == vh.TStr {
		c.LabelIf(strings.ContainsAny(cv.S, "\"\\"), "with-quote-or-backslash")
		if berr != nil || jerr != nil {
			return errf("%v converts to strings with %v, %v", x, berr, jerr)
		}
		if got, ok := bin.AsString(); !ok || got != cv.S {
			return errf("ToBinString of %v is %q, it is %q", x, got, cv.S)
		}
		if got, ok := js.AsString(); !ok || got != cv.S {
			return errf("ToJsonString of %v is %q, it is %q", x, got, cv.S)
		}
		back, err := js.ToBinString()
		if err != nil {
			return errf("ToBinString of ToJsonString of %v: %v", x, err)
		}
		if r, ok := back.Compare(bin); r != 0 || !ok {
			return errf("%v differs from its JSON form by %d, %v", x, r, ok)
		}
		again, err := bin.ToJsonString()
		if err != nil {
			return errf("ToJsonString of ToBinString of %v: %v", x, err)
		}
		if r, ok := again.Compare(v); r != 0 || !ok {
			return errf("%v differs from its binary form as JSON by %d, %v", x, r, ok)
		}
	} else {
		if berr == nil && cv.T != vh.TTrue && cv.T != vh.TFalse {
			return errf("ToBinString of %v succeeds", x)
		}
		if (jerr == nil) != (cv.T == vh.TTrue || cv.T == vh.TFalse) {
			return errf("ToJsonString of %v: %v", x, jerr)
		}
		if jerr == nil {
			if got, ok := js.AsString(); !ok || got != strconv.FormatBool(cv.T == vh.TTrue) {
				return errf("ToJsonString of %v is %q", x, got)
			}
		}
	}

	// times and patterns
	tm, tok := v.AsTime()
	switch cv.T {
	case vh.TTime:
		if !tok || !tm.Equal(cv.Tm) || !v.GetTime().Equal(cv.Tm) {
			return errf("AsTime of %v gives %v, %v", x, tm, tok)
		}
	case vh.TStr:
		if w, ok := vh.ParseTime(cv.S); ok != tok || ok && !tm.Equal(w) {
			return errf("AsTime of %v gives %v, %v", x, tm, tok)
		}
	default:
		if tok {
			return errf("AsTime of %v gives %v", x, tm)
		}
	}
	if _, ok := v.AsRegex(); ok {
		return errf("AsRegex of %v succeeds", x)
	}
	if got := v.String(); got != before {
		return errf("converting %v changes it from %s to %s", x, before, got)
	}
	return nil
}

func TestC27_convert(t *testing.T) {
	vh.Run(t, vh.Spec[Conv]{
		Prop: "C27", Name: "convert", Cases: 700000,
		Rule: "the value is a number of two characters or more, a non-empty string, or a time",
		Gen: func(t *vh.T) Conv {
			if vh.P(t, 30) {
				if vh.P(t, 25) {
					return Conv{L: &vh.Lit{T: vh.Pick(t, "true", "false", "null")}}
				}
				return Conv{L: vh.DrawLit(t, nil, true)}
			}
			if vh.P(t, 35) {
				return Conv{F: drawNumFV(t)}
			}
			var f FV
			switch vh.Weighted(t, 10, 2, 2, 2, 2) {
			case 0:
				s := vh.DrawString(t)
				if vh.P(t, 20) {
					s += vh.Pick(t, "\"", "\\", "\n", "\x00", "\x1f", "\x7f", "\u2028", "😀", "/", "</", "\t", "\\u0041")
				}
				switch vh.N(t, 3) {
				case 0:
					f = FV{K: "str", V: s}
				case 1:
					f = FV{K: "bin", V: s}
				case 2:
					q := vh.Encode(t, &vh.Node{K: 's', Str: s}, vh.DrawStyle(t))
					f = FV{K: "jstr", V: q[strings.IndexByte(q, '"')+1 : strings.LastIndexByte(q, '"')]}
				}
			case 1:
				f = FV{K: vh.Pick(t, "str", "bin", "jstr"), V: vh.Pick(t, "true", "TRUE", "False", "tRuE", "fals", "truee", "T|ue", "|rue", "yes", "fa|se", "0", "-1", "12", "1.5", "1e3", "99999999999999999999", "-9223372036854775808",
					"18446744073709551615", " 1", "+1", "NaN", "0x1f", "0b11", "1_000", "007", "0o17", "0x1p4", "Infinity", "-0", "1.", ".5", "1e", "18446744073709551616", "9223372036854775808", "2019-03-04", "2019", "2019-03-04T05:06:07Z", "2019-13", "")}
			case 2:
				f = FV{K: vh.Pick(t, "null", "true", "false", "invalid", "missing")}
			case 3:
				f = FV{K: "time", V: vh.Pick(t, "2019-03-04", "2019", "2019-03-04T05:06:07.5+01:00", "1999-12-31T23:59:59Z")}
			case 4:
				f = FV{K: vh.Pick(t, "arr", "obj"), V: vh.Pick(t, "[]", "[1]", "{}", `{"a":1}`)}
			}
			return Conv{F: f}
		},
		Check: func(c *vh.Ctx, x Conv) error {
			n := len(x.F.V)
			if x.L != nil {
				n = len(x.L.V)
			}
			c.NonTrivial(n > 1 || n == 1 && !x.F.num())
			return checkConv(c, x)
		},
	})
}

// Made is a value of a type that only Go has.
type Made struct {
	Bin  []byte
	Re   string
	Time string
}

func TestC27_made(t *testing.T) {
	vh.Run(t, vh.Spec[Made]{
		Prop: "C27", Name: "made", Cases: 60000,
		Rule: "all",
		Gen: func(t *vh.T) Made {
			return Made{Bin: []byte(vh.DrawBytes(t, 8)), Re: vh.DrawRegex(t, vh.DrawString(t)), Time: vh.Pick(t, "2019-03-04T05:06:07Z", "2020-02-29", "1999", "2019-03-04T05:06:07.000000001-08:00")}
		},
		Check: func(c *vh.Ctx, x Made) error {
			c.NonTrivial(true)
			b := gojsonsm.NewFastVal(x.Bin)
			if !b.IsBinary() || kindsOf(b) != "binary" || b.Type() != gojsonsm.BinaryValue {
				return errf("NewFastVal of bytes is called %q", kindsOf(b))
			}
			re := regexp.MustCompile(x.Re)
			r := gojsonsm.NewFastVal(re)
			if got, ok := r.AsRegex(); !ok || got.(*regexp.Regexp) != re || kindsOf(r) != "" || r.Type() != gojsonsm.RegexValue {
				return errf("NewFastVal of a pattern gives %v, %v", got, ok)
			}
			tm, _ := vh.ParseTime(x.Time)
			v := gojsonsm.NewFastVal(&tm)
			if got, ok := v.AsTime(); !ok || !got.Equal(tm) || !v.IsTime() {
				return errf("NewFastVal of a time gives %v, %v", got, ok)
			}
			for _, o := range []gojsonsm.FastVal{b, r, v} {
				if _, ok := o.AsInt(); ok {
					return errf("%v converts to an integer", o)
				}
				if _, ok := o.AsUint(); ok {
					return errf("%v converts to an integer", o)
				}
				if _, ok := o.AsFloat(); ok {
					return errf("%v converts to a float", o)
				}
				if _, ok := o.AsBoolean(); ok {
					return errf("%v converts to a boolean", o)
				}
			}
			for _, o := range []interface{}{[]int{1}, struct{}{}, time.Second, map[string]int{}, json.Number("1"), &x} {
				if v := gojsonsm.NewFastVal(o); v.Type() != gojsonsm.InvalidValue {
					return errf("NewFastVal of a %T is a %v", o, v)
				}
			}
			return nil
		},
	})
}
