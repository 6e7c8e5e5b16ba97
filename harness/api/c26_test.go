package gojsonsm_test

import (
	"reflect"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Lists are lists of expressions compiled one after the other by one transformer.
type Lists struct {
	Ls    [][]*vh.E
	Order []int
	Docs  []string
	Spoil bool
	Used  int `json:",omitempty"` // how often the transformer was used before
}

// spoil overwrites what an expression's slices and maps hold.
func spoil(e gojsonsm.Expression) {
	spoilAll := func(es []gojsonsm.Expression) {
		for i := range es {
			spoil(es[i])
			es[i] = gojsonsm.ValueExpr{Value: "spoilt"}
		}
	}
	switch e := e.(type) {
	case gojsonsm.AndExpr:
		spoilAll(e)
	case gojsonsm.OrExpr:
		spoilAll(e)
	case gojsonsm.NotExpr:
		spoil(e.SubExpr)
	case gojsonsm.AnyInExpr:
		spoil(e.InExpr)
		spoil(e.SubExpr)
	case gojsonsm.EveryInExpr:
		spoil(e.InExpr)
		spoil(e.SubExpr)
	case gojsonsm.AnyEveryInExpr:
		spoil(e.InExpr)
		spoil(e.SubExpr)
	case gojsonsm.FieldExpr:
		for i := range e.Path {
			e.Path[i] = "spoilt"
		}
	case gojsonsm.FuncExpr:
		spoilAll(e.Params)
	default:
		v := reflect.ValueOf(e)
		for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
			if sub, ok := v.Field(i).Interface().(gojsonsm.Expression); ok && sub != nil {
				spoil(sub)
			}
		}
	}
}

func TestC26_compile(t *testing.T) {
	opt := vh.GenOpt{Depth: 3, Loops: true, Const: true, Funcs: true, Time: true, Like: true, GoLits: true, MaxKids: 3, Root: true}
	vh.Run(t, vh.Spec[Lists]{
		Prop: "C26", Name: "compile", Cases: 220000,
		Rule: "two different lists or more, at least one with a condition on the document",
		Gen: func(t *vh.T) Lists {
			base := drawLoopDoc(t)
			x := Lists{Docs: drawDocs(t, base, 2), Spoil: vh.P(t, 40)}
			for n := 1 + vh.N(t, 4); n > 0; n-- {
				l := drawList(t, opt, base, 3)
				for i := range l {
					l[i] = sprinkle(t, l[i], vh.Pick(t, 0, 0, 10))
				}
				x.Ls = append(x.Ls, l)
			}
			for n := 1 + vh.N(t, 6); n > 0; n-- {
				x.Order = append(x.Order, vh.N(t, len(x.Ls)))
			}
			if vh.N(t, 200) == 199 {
				x.Used = vh.Pick(t, 100, 126, 254, 255, 256, 257, 300, 1000)
			}
			return x
		},
		Check: checkLists,
	})
}

func checkLists(c *vh.Ctx, x Lists) error {
	seen := map[int]bool{}
	some := false
	var used gojsonsm.Transformer
	type first struct {
		exprs []gojsonsm.Expression
		def   *gojsonsm.MatchDef
		str   string
		res   []string
	}
	firsts := make([]first, len(x.Ls))
	type made struct { // what the transformer gave while it was used again and again
		def *gojsonsm.MatchDef
		m   *gojsonsm.FastMatcher
		i   int
	}
	var earlier []made
	run := func(fresh func() *gojsonsm.FastMatcher, n int) []string {
		var out []string
		for _, d := range x.Docs {
			m := fresh()
			got, st, err := m.MatchWithStatus(buf(d))
			s := ""
			if got {
				s += "T"
			} else {
				s += "F"
			}
			if st != 0 {
				s += "c"
			}
			if err != nil {
				out = append(out, "error")
				continue
			}
			for i := 0; i < n; i++ {
				if m.ExpressionMatched(i) {
					s += "1"
				} else {
					s += "0"
				}
			}
			out = append(out, s)
		}
		return out
	}
	behaviour := func(def *gojsonsm.MatchDef, n int) []string {
		return run(func() *gojsonsm.FastMatcher { return gojsonsm.NewFastMatcher(def) }, n)
	}
	for i, l := range x.Ls {
		f := first{exprs: convAll(l)}
		var tr gojsonsm.Transformer
		f.def = tr.Transform(f.exprs)
		f.str = f.def.String()
		f.res = behaviour(f.def, len(l))
		firsts[i] = f
		for _, e := range l {
			some = some || e.Leaves() > 0
		}
	}
	for k := 0; k < x.Used; k++ {
		used.Transform(firsts[k%len(firsts)].exprs)
	}
	c.LabelIf(x.Used > 255, "transformer-used-256-times")
	for k, i := range x.Order {
		seen[i] = true
		f := firsts[i]
		def := used.Transform(f.exprs)
		if !reflect.DeepEqual(f.exprs, convAll(x.Ls[i])) {
			return errf("Transform modifies the expressions %v", x.Ls[i])
		}
		earlier = append(earlier, made{def, gojsonsm.NewFastMatcher(def), i})
		if s := def.String(); s != f.str {
			return errf("a used transformer (step %d) gives\n%s\n a new one\n%s\n of %v", k, s, f.str, x.Ls[i])
		}
		if r := behaviour(def, len(x.Ls[i])); !reflect.DeepEqual(r, f.res) {
			return errf("compiled by a used transformer (step %d) the matches are %v, by a new one %v\n of %v\n docs %s", k, r, f.res, x.Ls[i], strList(x.Docs))
		}
	}
	c.LabelIf(len(x.Order) > len(seen), "same-list-again")
	c.NonTrivial(len(seen) > 1 && some)
	if x.Spoil {
		// the definitions do not depend on what happens to the expressions afterwards
		for _, f := range firsts {
			for _, e := range f.exprs {
				spoil(e)
			}
		}
		c.Label("expressions-modified-later")
	}
	for k, e := range earlier {
		f := firsts[e.i]
		if s := e.def.String(); s != f.str {
			return errf("a definition (step %d) changes when its transformer compiles others\n%s\n was\n%s", k, s, f.str)
		}
		if r := behaviour(e.def, len(x.Ls[e.i])); !reflect.DeepEqual(r, f.res) {
			return errf("a definition (step %d) matches %v once its transformer has compiled others, before %v\n of %v\n docs %s", k, r, f.res, x.Ls[e.i], strList(x.Docs))
		}
		same := func() *gojsonsm.FastMatcher {
			e.m.Reset()
			return e.m
		}
		if r := run(same, len(x.Ls[e.i])); !reflect.DeepEqual(r, f.res) {
			return errf("a matcher (step %d) matches %v once the transformer of its definition has compiled others, a new one before %v\n of %v\n docs %s", k, r, f.res, x.Ls[e.i], strList(x.Docs))
		}
	}
	for i, f := range firsts { // later compilations leave earlier definitions alone
		if s := f.def.String(); s != f.str {
			return errf("a definition changes when others are compiled\n%s\n was\n%s", s, f.str)
		}
		if r := behaviour(f.def, len(x.Ls[i])); !reflect.DeepEqual(r, f.res) {
			return errf("a definition matches %v once others are compiled, before %v\n of %v\n docs %s", r, f.res, x.Ls[i], strList(x.Docs))
		}
	}
	return nil
}

// TestC26_wide: long lists and expressions of many conditions.
func TestC26_wide(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Funcs: true, Time: true, Like: true, GoLits: true, MaxKids: 3, Root: true}
	vh.Run(t, vh.Spec[Lists]{
		Prop: "C26", Name: "wide", Cases: 8000,
		Rule: "two different lists or more, at least one with a condition on the document",
		Gen: func(t *vh.T) Lists {
			base := drawLoopDoc(t)
			x := Lists{Docs: drawDocs(t, base, 2), Spoil: vh.P(t, 40)}
			for n := 2 + vh.N(t, 2); n > 0; n-- {
				var l []*vh.E
				switch vh.N(t, 3) {
				case 0:
					l = drawList(t, opt, base, 3)
				case 1:
					l = drawList(t, opt, base, vh.Pick(t, 12, 40))
				case 2:
					l = []*vh.E{drawWideExpr(t, opt, base, true)}
				}
				x.Ls = append(x.Ls, l)
			}
			for n := 2 + vh.N(t, 4); n > 0; n-- {
				x.Order = append(x.Order, vh.N(t, len(x.Ls)))
			}
			return x
		},
		Check: checkLists,
	})
}
