package gojsonsm_test

import (
	"encoding/json"
	"reflect"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Encoded is an expression and an encoding of it as JSON.
type Encoded struct {
	E    *vh.E
	Text string
}

var jsonOpt = vh.GenOpt{Depth: 3, Root: true, Loops: true, Funcs: true, Time: true, Like: true, MaxKids: 4}

// drawJsonExpr draws an expression that has a JSON form.
func drawJsonExpr(t *vh.T, base *vh.Node) (*vh.E, string) {
	for i := 0; i < 3; i++ {
		var e *vh.E
		if vh.P(t, 40) {
			e = jsonOpt.DrawLoop(t, base)
		} else {
			e = jsonOpt.DrawExpr(t, base)
		}
		if s, ok := e.JSON(); ok {
			return e, s
		}
	}
	e := &vh.E{Op: "exists", L: vh.Field(0, "a")}
	s, _ := e.JSON()
	return e, s
}

func TestC19_roundtrip(t *testing.T) {
	vh.Run(t, vh.Spec[Encoded]{
		Prop: "C19", Name: "roundtrip", Cases: 400000,
		Rule: "the expression has at least two conditions, or a function",
		Gen: func(t *vh.T) Encoded {
			e, s := drawJsonExpr(t, vh.DrawDoc(t))
			if vh.P(t, 30) { // variables need not have small numbers
				k := vh.Pick(t, 127, 128, 255, 1000, 65536, 1<<31, 1<<40)
				e.Walk(func(x *vh.E) { x.Var *= k })
				seen := map[*vh.Operand]bool{}
				e.WalkAllOperands(func(o *vh.Operand) {
					if !seen[o] {
						seen[o] = true
						o.Root *= k
					}
				})
				s, _ = e.JSON()
			}
			n := mustParse(s)
			if vh.P(t, 30) {
				writeRoots(t, n)
			}
			return Encoded{E: e, Text: vh.Encode(t, n, vh.DrawStyle(t))}
		},
		Check: checkEncoded,
	})
}

func checkEncoded(c *vh.Ctx, x Encoded) error {
	fn := false
	x.E.WalkAllOperands(func(o *vh.Operand) { fn = fn || o.K == "func" })
	c.NonTrivial(x.E.Leaves() >= 2 || fn)
	textLabels(c, x.E)
	x.E.Walk(func(e *vh.E) { c.LabelIf(e.IsLoop(), "loops") })
	b := buf(x.Text)
	got, err := gojsonsm.ParseJsonExpression(b)
	if err != nil {
		return errf("%s\n is rejected: %v", x.Text, err)
	}
	if string(b) != x.Text {
		return errf("%s\n is modified: %s", x.Text, b)
	}
	for i := range b {
		b[i] = '#' // the text is the caller's
	}
	if len(x.Text)%4 == 0 {
		c.Label("parsed-again")
		again, err := gojsonsm.ParseJsonExpression(buf(x.Text))
		if err != nil || !reflect.DeepEqual(got, again) {
			return errf("%s\n is parsed as %#v\n and then as  %#v, %v", x.Text, got, again, err)
		}
	}
	if want := conv(x.E); !reflect.DeepEqual(got, want) {
		return errf("%s\n is parsed as %#v\n it is     %#v", x.Text, got, want)
	}
	return nil
}

func TestC19_wide(t *testing.T) {
	vh.Run(t, vh.Spec[Encoded]{
		Prop: "C19", Name: "wide", Cases: 15000,
		Rule: "the expression has at least two conditions",
		Gen: func(t *vh.T) Encoded {
			opt := jsonOpt
			base := vh.DrawDoc(t)
			e := drawWideExpr(t, opt, base, true)
			s, ok := e.JSON()
			for i := 0; !ok && i < 4; i++ {
				opt.Funcs, opt.Time = false, false
				e = drawWideExpr(t, opt, base, i < 2)
				s, ok = e.JSON()
			}
			if !ok {
				e, s = drawJsonExpr(t, base)
			}
			return Encoded{E: e, Text: vh.Encode(t, mustParse(s), vh.DrawStyle(t))}
		},
		Check: checkEncoded,
	})
}

// writeRoots writes out the document's own number in some of the fields that leave it out.
func writeRoots(t *vh.T, n *vh.Node) {
	if len(n.Arr) > 1 && n.Arr[0].K == 's' && n.Arr[0].Str == "field" && n.Arr[1].K == 's' && vh.B(t) {
		n.Arr = append([]*vh.Node{n.Arr[0], {K: '#', Num: "0"}}, n.Arr[1:]...)
	}
	for _, k := range n.Arr {
		writeRoots(t, k)
	}
}

// drawNode finds a place in the tree.
func mutateTree(t *vh.T, v interface{}) interface{} {
	a, ok := v.([]interface{})
	if !ok || vh.P(t, 20) {
		return drawJsonPart(t, v)
	}
	if len(a) == 0 {
		return []interface{}{drawJsonPart(t, nil)}
	}
	a = append([]interface{}(nil), a...)
	i := vh.N(t, len(a))
	switch vh.Weighted(t, 8, 1, 1, 1, 1, 1) {
	case 1:
		return append(a[:i], a[i+1:]...)
	case 2:
		return append(a, a[i])
	case 3:
		j := vh.N(t, len(a))
		a[i], a[j] = a[j], a[i]
		return a
	case 4:
		return append(a[:i:i], append([]interface{}{drawJsonPart(t, nil)}, a[i:]...)...)
	case 5:
		return a[:i]
	}
	a[i] = mutateTree(t, a[i])
	return a
}

var jsonWords = []string{"value", "field", "func", "not", "or", "and", "anyin", "everyin", "anyeveryin", "exists", "notexists", "equals", "notequals",
	"lessthan", "lessequals", "greaterthan", "greaterequals", "like", "regex", "time", "pcre", "", "true", "NOT", "a", "date", "mathAbs", "mathAdd", "mathPow", "mathPi", "mathRound",
	"[0]", "[-1]", "[", "(", "2019", "2019-02-30", "(?=a)", "[99999999999999999999]", "\u0000", "é"}

// drawJsonPart draws any JSON value, often one with words of the language.
func drawJsonPart(t *vh.T, old interface{}) interface{} {
	switch vh.N(t, 9) {
	case 0:
		return vh.Pick[interface{}](t, nil, true, false, 0.0, 1.0, -1.0, 1.5, 2.0, 1e300, 4294967296.0, -0.5)
	case 1:
		return map[string]interface{}{jsonWords[vh.N(t, len(jsonWords))]: old}
	case 2:
		return []interface{}{}
	case 3:
		return []interface{}{jsonWords[vh.N(t, len(jsonWords))], old}
	case 4:
		return []interface{}{jsonWords[vh.N(t, len(jsonWords))]}
	case 5:
		return []interface{}{jsonWords[vh.N(t, 20)], []interface{}{"field", "a"}, []interface{}{"value", 1.0}}
	case 6:
		return []interface{}{jsonWords[vh.N(t, 20)], 1.0, []interface{}{"field", "a"}, []interface{}{"exists", []interface{}{"field", 1.0}}}
	}
	return jsonWords[vh.N(t, len(jsonWords))]
}

func TestC19_any(t *testing.T) {
	vh.Run(t, vh.Spec[AnyText]{
		Prop: "C19", Name: "any", Cases: 800000,
		Rule: "the input is JSON",
		Gen: func(t *vh.T) AnyText {
			base := vh.DrawDoc(t)
			if len(base.Keys) > 4 {
				base.Keys, base.Vals = base.Keys[:4], base.Vals[:4]
			}
			_, s := drawJsonExpr(t, base)
			x := AnyText{Docs: drawDocs(t, base, 2)}
			switch vh.Weighted(t, 8, 2, 1, 1) {
			case 0:
				var v interface{}
				if err := json.Unmarshal([]byte(s), &v); err != nil {
					panic("HARNESS: " + err.Error())
				}
				for n := 1 + vh.N(t, 3); n > 0; n-- {
					v = mutateTree(t, v)
				}
				b, err := json.Marshal(v)
				if err != nil {
					panic("HARNESS: " + err.Error())
				}
				s = string(b)
			case 1:
				s = vh.MutateText(t, s, []string{"[", "]", ",", "\"", "\"field\"", "\"and\"", "null", "{}", "1", "1e400", "-", "\"\\ud800\"", "[]", "\"value\""})
			case 2:
				s = vh.Encode(t, vh.DrawValue(t, 2), vh.DrawStyle(t))
			case 3:
				s = vh.DrawBytes(t, 30)
			}
			x.Text = s
			return x
		},
		Get: func(x AnyText) []byte { return []byte(x.Text) },
		Set: func(x AnyText, b []byte) AnyText { x.Text = string(b); return x },
		Check: func(c *vh.Ctx, x AnyText) error {
			c.NonTrivial(json.Valid([]byte(x.Text)))
			b := buf(x.Text)
			e, err := gojsonsm.ParseJsonExpression(b)
			c.LabelIf(err == nil, "accepted")
			c.LabelIf(err != nil, "rejected")
			if err != nil {
				return nil
			}
			if e == nil {
				return errf("%q\n gives neither an expression nor an error", x.Text)
			}
			if !json.Valid([]byte(x.Text)) {
				return errf("%q\n is accepted and no JSON", x.Text)
			}
			_ = e.String()
			var tr gojsonsm.Transformer
			return useMatcher(x, gojsonsm.NewFastMatcher(tr.Transform([]gojsonsm.Expression{e})))
		},
	})
}

// jsonNodes lists the expressions an encoding consists of, itself first.
func jsonNodes(n *vh.Node) []*vh.Node {
	out := []*vh.Node{n}
	for _, k := range n.Arr[1:] {
		if k.K == 'a' {
			out = append(out, jsonNodes(k)...)
		}
	}
	return out
}

// spoilEncoding turns the encoding of an expression into one of none, and says how.
func spoilEncoding(t *vh.T, root *vh.Node) string {
	str := func(s string) *vh.Node { return &vh.Node{K: 's', Str: s} }
	num := func(s string) *vh.Node { return &vh.Node{K: '#', Num: s} }
	arr := func(a ...*vh.Node) *vh.Node { return &vh.Node{K: 'a', Arr: a} }
	scalar := func() *vh.Node {
		switch vh.N(t, 5) {
		case 0:
			return str(vh.Pick(t, "a", "field", ""))
		case 1:
			return num("1")
		case 2:
			return &vh.Node{K: 'n'}
		case 3:
			return &vh.Node{K: 't'}
		}
		return &vh.Node{K: 'o', Keys: []string{"field"}, Vals: []*vh.Node{str("a")}}
	}
	condition := func() *vh.Node {
		f := arr(str("field"), str("a"))
		switch vh.N(t, 4) {
		case 0:
			return arr(str("exists"), f)
		case 1:
			return arr(str("not"), arr(str("exists"), f))
		case 2:
			return arr(str("or"), arr(str("equals"), f, f))
		}
		return arr(str("anyin"), num("77"), f, arr(str("exists"), arr(str("field"), num("77"))))
	}
	nodes := jsonNodes(root)
	n := nodes[vh.N(t, len(nodes))]
	op := n.Arr[0].Str
	if vh.P(t, 12) {
		n.Arr[0] = str(vh.Pick(t, "", "nand", "Equals", "EQUALS", "equal", "true", "pcre", " and", "fields"))
		return "unknown-operator"
	}
	if vh.P(t, 4) {
		n.Arr[0] = vh.Pick(t, num("1"), &vh.Node{K: 'n'}, arr(str(op)))
		return "operator-no-string"
	}
	last := len(n.Arr) - 1
	switch op {
	case "and", "or":
		if vh.B(t) {
			n.Arr = n.Arr[:1]
			return "no-operands"
		}
		n.Arr[1+vh.N(t, last)] = scalar()
		return "scalar-operand"
	case "not":
		if vh.B(t) {
			n.Arr = n.Arr[:1]
			return "no-operands"
		}
		n.Arr[1] = scalar()
		return "scalar-operand"
	case "exists", "notexists", "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like":
		switch vh.N(t, 3) {
		case 0:
			n.Arr = n.Arr[:last]
			return "missing-operand"
		case 1:
			n.Arr[1+vh.N(t, last)] = scalar()
			return "scalar-operand"
		}
		n.Arr[1+vh.N(t, last)] = condition()
		return "condition-as-operand"
	case "anyin", "everyin", "anyeveryin":
		switch vh.N(t, 4) {
		case 0:
			n.Arr = n.Arr[:1+vh.N(t, last)]
			return "missing-operand"
		case 1:
			n.Arr[1] = vh.Pick(t, num("0"), num("-1"), num("1.5"), str("1"), &vh.Node{K: 'n'}, &vh.Node{K: 't'}, arr(num("1")))
			return "bad-variable"
		case 2:
			n.Arr[2] = vh.Pick(t, scalar(), condition(), arr(str("value"), str("a")), arr(str("value"), num("1")),
				arr(str("func"), str("mathAbs"), arr(str("field"), str("a"))))
			return "loop-over-no-field"
		}
		n.Arr[3] = scalar()
		return "scalar-operand"
	case "field":
		if vh.B(t) {
			*n = *arr(str("field"), num(vh.Pick(t, "999", "-1", "0.5", "1e300")), str("a"))
			return "unbound-variable"
		}
		n.Arr = append(n.Arr, vh.Pick(t, num("1"), &vh.Node{K: 'n'}, arr(str("a")), &vh.Node{K: 't'}))
		if last == 0 && n.Arr[1].K == '#' {
			n.Arr[1] = &vh.Node{K: 'n'}
		}
		return "bad-path"
	case "value", "regex", "time":
		if vh.B(t) || op == "value" {
			n.Arr = n.Arr[:1]
			return "missing-operand"
		}
		if op == "regex" {
			n.Arr[1] = vh.Pick(t, str("("), str("[a"), str("*"), str("a**"), str("(?=a)"), str("\\"), num("1"), &vh.Node{K: 'n'}, arr(str("a")))
			return "bad-pattern"
		}
		n.Arr[1] = vh.Pick(t, str(""), str("2019-13"), str("2019-02-30"), str("a"), str("2019-03-04T25:00:00Z"), num("2019"), &vh.Node{K: 'n'})
		return "bad-date"
	case "func":
		switch vh.N(t, 5) {
		case 0:
			n.Arr[1] = vh.Pick(t, str(""), str("mathPi"), str("MathAbs"), str("abs"), str("DATE"), num("1"), &vh.Node{K: 'n'})
			return "bad-function"
		case 1:
			n.Arr = n.Arr[:last]
			return "missing-parameter"
		case 2:
			n.Arr = append(n.Arr, n.Arr[2])
			return "extra-parameter"
		case 3:
			n.Arr[2+vh.N(t, last-1)] = scalar()
			return "scalar-operand"
		}
		n.Arr[2+vh.N(t, last-1)] = condition()
		return "condition-as-operand"
	}
	panic("HARNESS: " + op)
}

// TestC19_rejects: encodings of no expression are rejected.
func TestC19_rejects(t *testing.T) {
	type bad struct{ Text, How string }
	vh.Run(t, vh.Spec[bad]{
		Prop: "C19", Name: "rejects", Cases: 300000,
		Rule: "a valid encoding is changed at one place so that it is none of any expression",
		Gen: func(t *vh.T) bad {
			_, s := drawJsonExpr(t, vh.DrawDoc(t))
			n := mustParse(s)
			how := spoilEncoding(t, n)
			return bad{vh.Encode(t, n, vh.DrawStyle(t)), how}
		},
		Check: func(c *vh.Ctx, x bad) error {
			c.NonTrivial(true)
			c.Label(x.How)
			if e, err := gojsonsm.ParseJsonExpression(buf(x.Text)); err == nil {
				return errf("%s\n is accepted (%s) as %#v", x.Text, x.How, e)
			}
			return nil
		},
	})
}

// TestC19_deep: conditions nested tens of levels deep.
func TestC19_deep(t *testing.T) {
	vh.Run(t, vh.Spec[Encoded]{
		Prop: "C19", Name: "deep", Cases: 15000,
		Rule: "the expression has at least two conditions",
		Gen: func(t *vh.T) Encoded {
			opt := jsonOpt
			base := drawLoopDoc(t)
			e := drawDeepExpr(t, opt, base, true)
			s, ok := e.JSON()
			for i := 0; !ok && i < 4; i++ {
				opt.Funcs, opt.Time = false, false
				e = drawDeepExpr(t, opt, base, i < 2)
				s, ok = e.JSON()
			}
			if !ok {
				e, s = drawJsonExpr(t, base)
			}
			return Encoded{E: e, Text: vh.Encode(t, mustParse(s), vh.DrawStyle(t))}
		},
		Check: checkEncoded,
	})
}
