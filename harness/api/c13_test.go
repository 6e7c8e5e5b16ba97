package gojsonsm_test

import (
	"fmt"
	"hash/crc32"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// drawDate writes a date near the given instant in one of the notations.
func drawDate(t *vh.T, base time.Time) string {
	tm := base
	switch vh.N(t, 11) {
	case 10: // where counts of seconds or nanoseconds wrap around, and calendar cycles
		var d time.Time
		switch vh.N(t, 4) {
		case 0:
			sg := int64(1 - 2*vh.N(t, 2))
			d = time.Unix(tm.Unix()+sg*18446744073, int64(tm.Nanosecond())+sg*709551616)
		case 1:
			sg := int64(1 - 2*vh.N(t, 2))
			d = time.Unix(tm.Unix()+sg<<uint(vh.Pick(t, 31, 32)), int64(tm.Nanosecond()))
		case 2:
			d = tm.AddDate(vh.Pick(t, 100, -100, 400, -400, 28, -28), 0, 0)
		case 3:
			d = time.Date(tm.Year()-tm.Year()%100+vh.N(t, 100), tm.Month(), 1+vh.N(t, 28), 0, 0, 0, 0, time.UTC)
		}
		if d = d.UTC(); d.Year() >= 1 && d.Year() < 9999 {
			tm = d
		}
	case 0, 1:
	case 2:
		tm = tm.Add(time.Duration(vh.N(t, 3)-1) * time.Nanosecond)
	case 3:
		tm = tm.Add(time.Duration(vh.N(t, 3)-1) * time.Second)
	case 4:
		tm = tm.Add(time.Duration(vh.N(t, 5)-2) * time.Hour)
	case 5:
		tm = tm.AddDate(0, 0, vh.N(t, 3)-1)
	case 6:
		tm = tm.AddDate(0, vh.N(t, 3)-1, 0)
	case 7:
		tm = tm.AddDate(vh.N(t, 3)-1, 0, 0)
	case 8:
		tm = tm.Truncate(24 * time.Hour)
	case 9:
		tm = time.Date(tm.Year(), time.January, 1, 0, 0, 0, 0, time.UTC)
	}
	return writeDate(t, tm)
}

func writeDate(t *vh.T, tm time.Time) string {
	tm = tm.UTC()
	y := tm.Year()
	short := y >= 1900 && y < 2100
	switch vh.Weighted(t, 5, 1, 1, 2, 1) {
	case 1:
		if short {
			return tm.Format("2006")
		}
	case 2:
		if short {
			return tm.Format("2006-01")
		}
	case 3:
		if short {
			return tm.Format("2006-01-02")
		}
	case 4:
		if short {
			return tm.Format("2006-01-02") + strings.Repeat(" ", 1+vh.N(t, 3)) + tm.Format("15:04:05")
		}
	}
	off := vh.Pick(t, 0, 0, 3600, -8*3600, 5*3600+1800, 14*3600, -12*3600, 23*3600+59*60, -23*3600-59*60, 60, -60, 13*3600+45*60)
	l := tm.In(time.FixedZone("", off))
	if l.Year() < 0 || l.Year() > 9999 {
		l, off = tm, 0
	}
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", l.Year(), int(l.Month()), l.Day(), l.Hour(), l.Minute(), l.Second())
	if ns := l.Nanosecond(); ns != 0 || vh.P(t, 15) {
		f := fmt.Sprintf("%09d", ns)
		if vh.B(t) {
			f = strings.TrimRight(f, "0")
			if f == "" {
				f = "0"
			}
		}
		s += "." + f
	}
	if off == 0 && !vh.P(t, 20) {
		return s + "Z"
	}
	sg := "+"
	if off < 0 || off == 0 && vh.B(t) {
		sg, off = "-", -off
	}
	return s + fmt.Sprintf("%s%02d:%02d", sg, off/3600, off/60%60)
}

func drawInstant(t *vh.T) time.Time {
	y := 1900 + vh.N(t, 200)
	switch vh.N(t, 8) {
	case 0:
		y = vh.Pick(t, 1900, 2000, 2019, 2020, 2100, 1969, 1970, 1600, 400, 9998, 2, 2099, 1899, 1999)
	case 1:
		y = 4 * (475 + vh.N(t, 50))
	}
	m := 1 + vh.N(t, 12)
	d := 1 + vh.N(t, vh.DaysIn(y, m))
	switch vh.N(t, 4) {
	case 0:
		d = vh.DaysIn(y, m)
	case 1:
		m, d = 2, vh.DaysIn(y, 2)
	}
	tm := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
	if vh.B(t) {
		tm = tm.Add(time.Duration(vh.N(t, 86400)) * time.Second)
	}
	if vh.P(t, 30) {
		tm = tm.Add(time.Duration(vh.Pick(t, 1, 500000000, 999999999, 1000, 123456789, 100000000)))
	}
	return tm
}

// Dates are two dates in some notation.
type Dates struct {
	A, B string
	Esc  bool // the document has escapes
}

func (x Dates) doc() string {
	e := func(s string) string {
		q := vh.PlainString(s)
		if x.Esc {
			q = strings.Replace(q, "0", `\u0030`, 1)
			q = strings.Replace(q, "-", `\u002d`, 1)
		}
		return q
	}
	return `{"x":` + e(x.A) + `,"y":` + e(x.B) + `}`
}

func date(e gojsonsm.Expression) gojsonsm.Expression {
	return gojsonsm.FuncExpr{FuncName: gojsonsm.DateFunc, Params: []gojsonsm.Expression{e}}
}

func TestC13_order(t *testing.T) {
	vh.Run(t, vh.Spec[Dates]{
		Prop: "C13", Name: "order", Cases: 200000,
		Rule: "the dates are written differently",
		Gen: func(t *vh.T) Dates {
			i := drawInstant(t)
			return Dates{writeDate(t, i), drawDate(t, i), vh.P(t, 20)}
		},
		Check: func(c *vh.Ctx, x Dates) error {
			ta, ok1 := vh.ParseDateFunc(x.A)
			tb, ok2 := vh.ParseDateFunc(x.B)
			if !ok1 || !ok2 {
				panic("HARNESS: generated date is none: " + x.A + " " + x.B)
			}
			want := ta.Compare(tb)
			c.NonTrivial(x.A != x.B)
			c.LabelIf(want == 0 && x.A != x.B, "equal-differently-written")
			c.LabelIf(len(x.A) != len(x.B), "different-notations")
			doc := x.doc()
			_, lit := vh.ParseTime(x.B) // the date function knows one notation more than literals
			for _, op := range vh.Cmps {
				w := opHolds(op, want)
				type v struct {
					what string
					l, r gojsonsm.Expression
				}
				vs := []v{
					{"date function of both fields", date(fld("x")), date(fld("y"))},
					{"date function of a field and of a literal", date(fld("x")), date(gojsonsm.ValueExpr{Value: x.B})},
				}
				if lit {
					vs = append(vs, v{"date function of a field against a date literal", date(fld("x")), gojsonsm.TimeExpr{Time: x.B}})
				}
				if _, ok := vh.ParseTime(x.A); ok && lit {
					vs = append(vs, v{"a field against a date literal", fld("x"), gojsonsm.TimeExpr{Time: x.B}})
				}
				for _, v := range vs {
					for sw := 0; sw < 2; sw++ {
						o, l, r := op, v.l, v.r
						if sw == 1 {
							o, l, r = flipOp(op), v.r, v.l
						}
						got, st, err := runOp(o, l, r, doc)
						if err != nil {
							return errf("%s: %v\n doc %s", v.what, err, doc)
						}
						if got != w || st != 0 {
							return errf("%s (swapped %d): %s %s %s gives %v status %d", v.what, sw, x.A, op, x.B, got, st)
						}
					}
				}
			}
			return nil
		},
	})
}

// drawDateText draws a text that is a date or nearly one.
func drawDateText(t *vh.T) string {
	s := writeDate(t, drawInstant(t))
	switch vh.Weighted(t, 4, 4, 3, 1, 1, 1) {
	case 1: // a number out of its range
		var at []int
		for i := 0; i+1 < len(s); i++ {
			if isDig(s[i]) && isDig(s[i+1]) && (i == 0 || !isDig(s[i-1])) {
				at = append(at, i)
			}
		}
		i := at[vh.N(t, len(at))]
		s = s[:i] + vh.Pick(t, "00", "13", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99") + s[i+2:]
	case 2:
		n := 1 + vh.N(t, 2)
		for ; n > 0; n-- {
			i := vh.N(t, len(s)+1)
			ch := vh.Pick(t, "0", "1", "9", "-", "/", ".", " ", ":", "T", "Z", "t", "z", "+", "x", "a", "\n", "é")
			switch vh.N(t, 3) {
			case 0:
				s = s[:i] + ch + s[i:]
			case 1:
				if i < len(s) {
					s = s[:i] + s[i+1:]
				}
			case 2:
				if i < len(s) {
					s = s[:i] + ch + s[i+1:]
				}
			}
		}
	case 3:
		s = strings.Replace(s, "-", vh.Pick(t, "/", ".", " ", "–", ""), 1+vh.N(t, 2))
	case 4:
		s = vh.DrawString(t)
	case 5:
		s = s[:vh.N(t, len(s)+1)]
	}
	return s
}

func isDig(c byte) bool { return c >= '0' && c <= '9' }

// lenient: texts beyond RFC 3339 that Go's time package takes, no claim.
func lenient(s string) bool {
	if strings.Contains(s, ",") {
		return true
	}
	if i := strings.IndexByte(s, 'T'); i >= 0 && len(s) > i+2 && isDig(s[i+1]) && !isDig(s[i+2]) {
		return true // one-digit hour
	}
	if i := strings.LastIndexAny(s, "+-"); i > 10 && len(s) == i+6 && (s[i+1:i+3] >= "24" || s[i+4:] >= "60") {
		return true // zone offset out of range
	}
	return false
}

// TestC13_accept: a text counts as a date exactly when it denotes an instant.
func TestC13_accept(t *testing.T) {
	type accCase struct {
		S   string
		Esc bool
	}
	vh.Run(t, vh.Spec[accCase]{
		Prop: "C13", Name: "accept", Cases: 80000,
		Rule: "the text is a date or within a few characters of one",
		Gen:  func(t *vh.T) accCase { return accCase{drawDateText(t), vh.P(t, 20)} },
		Get:  func(x accCase) []byte { return []byte(x.S) },
		Set:  func(x accCase, b []byte) accCase { x.S = strings.ToValidUTF8(string(b), ""); return x },
		Check: func(c *vh.Ctx, x accCase) error {
			tm, isLit := vh.ParseTime(x.S)
			ftm, isFn := vh.ParseDateFunc(x.S)
			c.NonTrivial(len(x.S) >= 3)
			c.LabelIf(isLit, "literal")
			c.LabelIf(isFn && !isLit, "function only")
			c.LabelIf(!isFn, "no date")
			if lenient(x.S) {
				c.Skip("beyond RFC 3339 but taken by Go's time package")
				return nil
			}
			// literals
			enc := vh.PlainString(x.S)
			e, err := gojsonsm.ParseJsonExpression(buf(`["equals",["field","x"],["time",` + enc + `]]`))
			if (err == nil) != isLit {
				return errf("JSON date literal %q: error %v, but it is a date: %v", x.S, err, isLit)
			}
			fe, ferr := gojsonsm.GetFilterExpressionMatcher("x = DATE(" + goQuote(x.S) + ")")
			if (ferr == nil) != isLit {
				return errf("filter DATE(%q): error %v, but it is a date: %v", x.S, ferr, isLit)
			}
			if simpleable(x.S) {
				for _, f := range []string{`x == DATE("%s")`, `x = DATE('%s')`, `DATE(x) <= DATE("%s") AND x <= DATE('%s')`, `x LIKE 'x' || x = DATE('%s')`} {
					text := strings.ReplaceAll(f, "%s", x.S)
					se, serr := gojsonsm.ParseSimpleExpression(text)
					if (serr == nil) != isLit {
						return errf("simple %s: error %v, but it is a date: %v", text, serr, isLit)
					}
					if serr == nil {
						got, st, err := runExpr(se, `{"x":`+vh.PlainString(tm.UTC().Format(time.RFC3339Nano))+`}`)
						if !got || st != 0 || err != nil {
							return errf("simple %s gives %v %d %v for the same instant", text, got, st, err)
						}
					}
				}
				pick := int(crc32.ChecksumIEEE([]byte(x.S)) % 3) // one of them, they are slow
				for _, f := range []string{`x = DATE('%s')`, `DATE("%s") = x`, `NOT x < DATE('%s')`}[pick : pick+1] {
					if strings.Contains(f, "'") && utf8.RuneCountInString(x.S) < 2 {
						continue // a single character in single quotes is a name
					}
					text := strings.ReplaceAll(f, "%s", x.S)
					if _, err := gojsonsm.GetFilterExpressionMatcher(text); (err == nil) != isLit {
						return errf("filter %s: error %v, but it is a date: %v", text, err, isLit)
					}
				}
				c.Label("simple")
			}
			if isLit {
				same := `{"x":` + vh.PlainString(tm.UTC().Format(time.RFC3339Nano)) + `}`
				got, st, err := runExpr(e, same)
				if !got || st != 0 || err != nil {
					return errf("x equals the date literal %q gives %v %d %v for the same instant %s", x.S, got, st, err, same)
				}
				got, err = fe.Match(buf(same))
				if !got || err != nil {
					return errf("filter x = DATE(%q) gives %v %v for the same instant %s", x.S, got, err, same)
				}
				fe.Reset()
				got, err = fe.Match(buf(`{"x":` + vh.PlainString(tm.UTC().Add(time.Second).Format(time.RFC3339Nano)) + `}`))
				if got || err != nil {
					return errf("filter x = DATE(%q) gives %v %v one second later", x.S, got, err)
				}
			}
			// document strings
			if x.Esc && !strings.Contains(enc, `\`) {
				enc = strings.Replace(enc, "1", `\u0031`, 1)
				enc = strings.Replace(enc, ":", `\u003a`, 1)
			}
			doc := `{"x":` + enc + `}`
			ref := gojsonsm.TimeExpr{Time: "2019-03-04"}
			if isFn {
				ref = gojsonsm.TimeExpr{Time: ftm.UTC().Format(time.RFC3339Nano)}
			}
			got, st, err := runOp("eq", date(fld("x")), ref, doc)
			if err != nil || got != isFn || (st == 0) != isFn {
				return errf("date(x) equals %v gives %v %d %v, x is a date: %v\n doc %s", ref, got, st, err, isFn, doc)
			}
			got, st, err = runOp("eq", fld("x"), ref, doc)
			if err != nil || got != isLit || (st == 0) != isLit {
				return errf("x equals the date %v gives %v %d %v, x is a date: %v\n doc %s", ref, got, st, err, isLit, doc)
			}
			return nil
		},
	})
}
