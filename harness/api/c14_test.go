package gojsonsm_test

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// drawPattern draws a pattern that has a fair chance of matching s.
func drawPattern(t *vh.T, s string, d int) string {
	sub := func() string { return drawPattern(t, s, d-1) }
	if d > 0 && vh.P(t, 55) {
		switch vh.N(t, 8) {
		case 0:
			return sub() + sub()
		case 1:
			return "(?:" + sub() + "|" + sub() + ")"
		case 2:
			return "(" + sub() + ")" + vh.Pick(t, "*", "+", "?", "{2}", "{0,2}", "*?", "+?")
		case 3:
			return "^" + sub()
		case 4:
			return sub() + "$"
		case 5:
			return "^(?:" + sub() + ")$"
		case 6:
			return sub() + ".*" + sub()
		case 7:
			return vh.Pick(t, "(?i)", "(?s)", "(?m)", `\b`, `\B`, "") + sub()
		}
	}
	return vh.DrawRegex(t, s)
}

// Re is a string with an encoding of it and a pattern.
type Re struct {
	S, E string
	Re   string
	Y    string // another value, JSON
}

func drawRe(t *vh.T) Re {
	var x Re
	x.S = vh.DrawString(t)
	x.E = vh.EncodeString(t, x.S, vh.B(t))
	x.Re = drawPattern(t, x.S, 3)
	x.Y = vh.Plain(vh.DrawValue(t, 2))
	if vh.P(t, 30) { // a value whose raw text matches
		x.Re = vh.Pick(t, "1", "true", "^null$", "[", "", ".", "a", `^\[`, "^-?[0-9.]+$", "false", "e")
		if x.Re == "[" {
			x.Re = `\[|\{`
		}
		x.Y = vh.Pick(t, "1", "-1.5", "true", "false", "null", `["a"]`, `{"a":1}`, "[]", "{}", "18446744073709551615")
	}
	return x
}

func pcre(re string) bool {
	for _, p := range []string{"(?=", "(?!", "(?<", "(?>"} {
		if strings.Contains(re, p) {
			return true
		}
	}
	return false
}

// simpleText says whether the simple parser takes the text in quotes as it is.
func simpleText(s string) bool {
	if s == "" || strings.TrimSpace(s) != s || strings.Contains(s, "  ") {
		return false
	}
	for _, c := range s {
		if c < ' ' || c == '"' || c == '\'' || c == '`' || c > '~' {
			return false
		}
	}
	return true
}

func TestC14_match(t *testing.T) {
	vh.Run(t, vh.Spec[Re]{
		Prop: "C14", Name: "match", Cases: 50000,
		Rule:  "the string is not empty and the pattern valid",
		Gen:   drawRe,
		Check: checkRe,
	})
}

func checkRe(c *vh.Ctx, x Re) error {
	re, err := regexp.Compile(x.Re)
	if err != nil {
		c.Skip("pattern invalid")
		return nil
	}
	c.NonTrivial(x.S != "")
	doc := `{"x":` + x.E + `,"y":` + x.Y + `}`
	y := mustParse(x.Y)
	want := map[string]bool{"x": re.MatchString(x.S), "y": y.K == 's' && re.MatchString(y.Str), "nope": false}
	c.LabelIf(want["x"], "matches")
	c.LabelIf(!want["x"], "does not match")
	c.LabelIf(strings.Contains(x.E, `\`), "escapes")
	c.LabelIf(y.K != 's', "non-string")
	pat := vh.PlainString(x.Re)
	for f, w := range want {
		run := func(what string, e gojsonsm.Expression, w bool) error {
			got, _, err := runExpr(e, doc)
			if err != nil || got != w {
				return errf("%s: field %s, pattern %q gives %v %v, want %v\n doc %s", what, f, x.Re, got, err, w, doc)
			}
			return nil
		}
		like := gojsonsm.LikeExpr{Lhs: fld(f), Rhs: gojsonsm.RegexExpr{Regex: x.Re}}
		if err := run("LikeExpr", like, w); err != nil {
			return err
		}
		if err := run("not LikeExpr", gojsonsm.NotExpr{SubExpr: like}, !w); err != nil {
			return err
		}
		je, err := gojsonsm.ParseJsonExpression(buf(`["like",["field","` + f + `"],["regex",` + pat + `]]`))
		if err != nil {
			return errf("JSON pattern %q: %v", x.Re, err)
		}
		if err := run("JSON", je, w); err != nil {
			return err
		}
		if !pcre(x.Re) {
			m, err := gojsonsm.GetFilterExpressionMatcher("REGEXP_CONTAINS(" + f + ", " + goQuote(x.Re) + ")")
			if err != nil {
				return errf("filter pattern %q: %v", x.Re, err)
			}
			got, err := m.Match(buf(doc))
			if err != nil || got != w {
				return errf("filter REGEXP_CONTAINS(%s, %q) gives %v %v, want %v\n doc %s", f, x.Re, got, err, w, doc)
			}
			if simpleText(x.Re) {
				c.Label("simple parser")
				se, err := gojsonsm.ParseSimpleExpression(f + ` LIKE "` + x.Re + `"`)
				if err != nil {
					return errf("simple pattern %q: %v", x.Re, err)
				}
				if err := run("simple LIKE", se, w); err != nil {
					return err
				}
				se, err = gojsonsm.ParseSimpleExpression(f + ` NOT LIKE "` + x.Re + `"`)
				if err != nil {
					return errf("simple pattern %q: %v", x.Re, err)
				}
				if err := run("simple NOT LIKE", se, !w); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// drawLongRe draws a long string, and a pattern for its end or for all of it.
func drawLongRe(t *vh.T) Re {
	s := drawLongStrings(t)
	x := Re{S: s.A, E: s.EA, Y: "1"}
	i := len(x.S) - vh.N(t, 12)
	for i > 0 && i < len(x.S) && x.S[i]&0xc0 == 0x80 {
		i--
	}
	tail, head := x.S[i:], x.S[:i]
	q := regexp.QuoteMeta
	switch vh.N(t, 7) {
	case 0:
		x.Re = q(tail) + "$"
	case 1:
		x.Re = "^(?s).*" + q(tail) + "$"
	case 2:
		x.Re = "^" + q(head)
	case 3:
		x.Re = "^" + q(x.S) + "$"
	case 4:
		x.Re = drawPattern(t, tail, 2) + "$"
	case 5:
		x.Re = `(?s)^.{900}.*` + drawPattern(t, tail, 1)
	case 6:
		x.Re = q(x.S[:0]) + drawPattern(t, x.S, 2)
	}
	if vh.P(t, 30) {
		x.Re = vh.MutateText(t, x.Re, []string{"x", ".", "a", "$", "^"})
	}
	x.Re = strings.ToValidUTF8(x.Re, "")
	return x
}

// TestC14_long: long strings and patterns.
func TestC14_long(t *testing.T) {
	vh.Run(t, vh.Spec[Re]{
		Prop: "C14", Name: "long", Cases: 1500,
		Rule:  "the string is not empty and the pattern valid",
		Gen:   drawLongRe,
		Check: checkRe,
	})
}

// TestC14_patterns: a pattern is accepted exactly when it is valid.
func TestC14_patterns(t *testing.T) {
	type patCase struct{ Re string }
	vh.Run(t, vh.Spec[patCase]{
		Prop: "C14", Name: "patterns", Cases: 60000,
		Rule: "the pattern is invalid, or valid with an operator",
		Gen: func(t *vh.T) patCase {
			re := drawPattern(t, vh.DrawString(t), 3)
			for n := vh.N(t, 3); n > 0; n-- {
				i := vh.N(t, len(re)+1)
				ins := vh.Pick(t, "(", ")", "[", "]", "*", "+", "?", "{", "}", "{3,2}", `\`, "(?", "(?P<n>", "[z-a]", "**", "(?z)", `\Q`, `\p{Nope}`, `\x{110000}`, "a{1001}", "\\1", "|", "^", "$")
				if vh.P(t, 25) && i < len(re) {
					re = re[:i] + re[i+1:]
				} else {
					re = re[:i] + ins + re[i:]
				}
			}
			return patCase{strings.ToValidUTF8(re, "")}
		},
		Get: func(x patCase) []byte { return []byte(x.Re) },
		Set: func(x patCase, b []byte) patCase { x.Re = strings.ToValidUTF8(string(b), ""); return x },
		Check: func(c *vh.Ctx, x patCase) error {
			_, perr := syntax.Parse(x.Re, syntax.Perl)
			valid := perr == nil
			c.LabelIf(valid, "valid")
			c.LabelIf(!valid, "invalid")
			c.NonTrivial(!valid || strings.ContainsAny(x.Re, `*+?[({|\`))
			e, err := gojsonsm.ParseJsonExpression(buf(`["like",["field","x"],["regex",` + vh.PlainString(x.Re) + `]]`))
			if (err == nil) != valid {
				return errf("JSON pattern %q: error %v, syntax error %v", x.Re, err, perr)
			}
			if valid {
				if _, _, err := runExpr(e, `{"x":"a"}`); err != nil {
					return errf("pattern %q: %v", x.Re, err)
				}
			}
			if pcre(x.Re) {
				return nil // the parsers say that these need another build
			}
			_, err = gojsonsm.GetFilterExpressionMatcher("REGEXP_CONTAINS(x, " + goQuote(x.Re) + ")")
			if (err == nil) != valid {
				return errf("filter pattern %q: error %v, syntax error %v", x.Re, err, perr)
			}
			if simpleText(x.Re) {
				c.Label("simple parser")
				_, err = gojsonsm.ParseSimpleExpression(`x LIKE "` + x.Re + `"`)
				if (err == nil) != valid {
					return errf("simple pattern %q: error %v, syntax error %v", x.Re, err, perr)
				}
			}
			return nil
		},
	})
}
