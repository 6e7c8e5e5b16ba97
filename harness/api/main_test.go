package gojsonsm_test

import (
	"fmt"
	"os"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

func TestMain(m *testing.M) {
	vh.StartWatchdog()
	os.Exit(m.Run())
}

func field(o *vh.Operand) gojsonsm.FieldExpr {
	return gojsonsm.FieldExpr{Root: gojsonsm.VariableID(o.Root), Path: append([]string(nil), o.Path...)}
}

func operand(o *vh.Operand) gojsonsm.Expression {
	switch o.K {
	case "field":
		return field(o)
	case "lit":
		return gojsonsm.ValueExpr{Value: o.Lit.Go()}
	case "time":
		return gojsonsm.TimeExpr{Time: o.S}
	case "func":
		f := gojsonsm.FuncExpr{FuncName: o.Fn}
		for _, a := range o.Args {
			f.Params = append(f.Params, operand(a))
		}
		return f
	}
	panic("HARNESS: operand " + o.K)
}

// conv builds the expression through the exported types.
func conv(e *vh.E) gojsonsm.Expression {
	switch e.Op {
	case "true":
		return gojsonsm.TrueExpr{}
	case "false":
		return gojsonsm.FalseExpr{}
	case "and":
		var a gojsonsm.AndExpr
		for _, k := range e.Kids {
			a = append(a, conv(k))
		}
		return a
	case "or":
		var a gojsonsm.OrExpr
		for _, k := range e.Kids {
			a = append(a, conv(k))
		}
		return a
	case "not":
		return gojsonsm.NotExpr{SubExpr: conv(e.Kids[0])}
	case "exists":
		return gojsonsm.ExistsExpr{SubExpr: operand(e.L)}
	case "missing":
		return gojsonsm.NotExistsExpr{SubExpr: operand(e.L)}
	case "eq":
		return gojsonsm.EqualsExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "ne":
		return gojsonsm.NotEqualsExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "lt":
		return gojsonsm.LessThanExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "le":
		return gojsonsm.LessEqualsExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "gt":
		return gojsonsm.GreaterThanExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "ge":
		return gojsonsm.GreaterEqualsExpr{Lhs: operand(e.L), Rhs: operand(e.R)}
	case "like":
		return gojsonsm.LikeExpr{Lhs: operand(e.L), Rhs: gojsonsm.RegexExpr{Regex: e.Re}}
	case "any":
		return gojsonsm.AnyInExpr{VarId: gojsonsm.VariableID(e.Var), InExpr: operand(e.In), SubExpr: conv(e.Kids[0])}
	case "every":
		return gojsonsm.EveryInExpr{VarId: gojsonsm.VariableID(e.Var), InExpr: operand(e.In), SubExpr: conv(e.Kids[0])}
	case "anyevery":
		return gojsonsm.AnyEveryInExpr{VarId: gojsonsm.VariableID(e.Var), InExpr: operand(e.In), SubExpr: conv(e.Kids[0])}
	}
	panic("HARNESS: op " + e.Op)
}

func convAll(es []*vh.E) []gojsonsm.Expression {
	var out []gojsonsm.Expression
	for _, e := range es {
		out = append(out, conv(e))
	}
	return out
}

func compile(es ...*vh.E) *gojsonsm.MatchDef {
	var tr gojsonsm.Transformer
	return tr.Transform(convAll(es))
}

// buf copies the document into a slice without spare capacity.
func buf(s string) []byte {
	b := make([]byte, len(s))
	copy(b, s)
	return b[:len(s):len(s)]
}

func mustParse(s string) *vh.Node {
	n, err := vh.ParseJSON(s)
	if err != nil {
		panic("HARNESS: generated document is not JSON: " + s)
	}
	return n
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func strList(ss []string) string { return strings.Join(ss, "\n") }
