package gojsonsm_test

import (
	"reflect"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Encodings are several encodings of one value.
type Encodings struct {
	Es   []*vh.E
	Docs []string // Docs[0] is the plain one
}

// mentioned are the path elements of the expressions.
func mentioned(es []*vh.E) map[string]bool {
	m := map[string]bool{}
	for _, e := range es {
		e.Walk(func(x *vh.E) {
			x.WalkOperands(func(o *vh.Operand) {
				for _, p := range o.Path {
					m[p] = true
				}
			})
		})
	}
	return m
}

// reorder permutes the members of every object and adds members nobody refers to.
func reorder(t *vh.T, n *vh.Node, used map[string]bool, extra bool) *vh.Node {
	out := &vh.Node{K: n.K, Num: n.Num, Str: n.Str}
	for _, x := range n.Arr {
		out.Arr = append(out.Arr, reorder(t, x, used, extra))
	}
	if n.K != 'o' {
		return out
	}
	var keys []string
	var vals []*vh.Node
	have := map[string]bool{}
	for i, k := range n.Keys {
		have[k] = true
		keys = append(keys, k)
		vals = append(vals, reorder(t, n.Vals[i], used, extra))
	}
	if extra {
		for k := vh.N(t, 3); k > 0; k-- {
			key := vh.DrawKey(t)
			if vh.P(t, 30) {
				key = vh.DrawString(t)
			}
			if _, idx := vh.ArrayIndex(key); idx || have[key] || used[key] {
				continue
			}
			have[key] = true
			keys = append(keys, key)
			vals = append(vals, vh.DrawValue(t, 2))
		}
	}
	for _, i := range vh.Perm(t, len(keys)) {
		out.Keys = append(out.Keys, keys[i])
		out.Vals = append(out.Vals, vals[i])
	}
	return out
}

func TestC06_encoding(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 4}
	vh.Run(t, vh.Spec[Encodings]{
		Prop: "C06", Name: "encoding", Cases: 700000,
		Rule: "the encodings differ and some comparison or existence test saw a present field",
		Gen: func(t *vh.T) Encodings {
			base := vh.DrawDoc(t)
			if vh.B(t) {
				base = drawLoopDoc(t)
			}
			x := Encodings{Es: drawList(t, opt, base, 2)}
			if vh.P(t, 30) {
				x.Es = []*vh.E{vh.GenOpt{Like: true, GoLits: true, Time: true}.DrawExpr(t, base)}
			}
			used := mentioned(x.Es)
			if vh.P(t, 25) {
				base = vh.Mutate(t, base)
			}
			x.Docs = []string{vh.Plain(base)}
			for k := 1 + vh.N(t, 3); k > 0; k-- {
				x.Docs = append(x.Docs, vh.Encode(t, reorder(t, base, used, vh.P(t, 60)), vh.DrawStyle(t)))
			}
			return x
		},
		Check: checkEncodings,
	})
}

func checkEncodings(c *vh.Ctx, x Encodings) error {
	n := mustParse(x.Docs[0])
	exec := 0
	for _, e := range x.Es {
		_, ev := vh.EvalDoc(e, n)
		if ev.Raw {
			c.Skip("whole containers are compared by their text")
			return nil
		}
		exec += ev.Exec
	}
	single := len(x.Es) == 1 && x.Es[0].IsCmp()
	def := compile(x.Es...)
	var first outcome
	differ := false
	for i, d := range x.Docs {
		got := observe(gojsonsm.NewFastMatcher(def), buf(d), len(x.Es), "status")
		if !single {
			got.status = 0
		}
		if i == 0 {
			first = got
			continue
		}
		differ = differ || d != x.Docs[0]
		if !reflect.DeepEqual(got, first) {
			return errf("two encodings of one value differ: %+v, %+v\n 1st %s\n 2nd %s\n exprs %v", first, got, short(x.Docs[0]), short(d), x.Es)
		}
	}
	for _, e := range x.Es {
		shapeLabels(c, e)
		c.LabelIf(loopDepth(e) > 0, "loop")
	}
	c.LabelIf(single, "single-comparison")
	c.LabelIf(first.ok, "true")
	c.LabelIf(!first.ok, "false")
	c.NonTrivial(differ && exec > 0)
	return nil
}

// TestC06_wide: large objects and arrays, and many conditions.
func TestC06_wide(t *testing.T) {
	opt := vh.GenOpt{Loops: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 4}
	vh.Run(t, vh.Spec[Encodings]{
		Prop: "C06", Name: "wide", Cases: 25000,
		Rule: "the encodings differ and some comparison or existence test saw a present field",
		Gen: func(t *vh.T) Encodings {
			base := vh.DrawWideDoc(t)
			var x Encodings
			for n := 1 + vh.N(t, 2); n > 0; n-- {
				x.Es = append(x.Es, drawWideExpr(t, opt, base, true))
			}
			used := mentioned(x.Es)
			x.Docs = []string{vh.Plain(base)}
			for k := 1 + vh.N(t, 2); k > 0; k-- {
				x.Docs = append(x.Docs, vh.Encode(t, reorder(t, base, used, vh.P(t, 60)), vh.DrawStyle(t)))
			}
			return x
		},
		Check: checkEncodings,
	})
}

// TestC06_big: encodings that differ by tens of kilobytes.
func TestC06_big(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 4}
	vh.Run(t, vh.Spec[Encodings]{
		Prop: "C06", Name: "big", Cases: 8000,
		Rule: "the encodings differ and some comparison or existence test saw a present field",
		Gen: func(t *vh.T) Encodings {
			base := vh.DrawDoc(t)
			if vh.B(t) {
				base = drawLoopDoc(t)
			}
			x := Encodings{Es: drawList(t, opt, base, 2)}
			d := vh.Plain(base)
			x.Docs = []string{d}
			for k := 1 + vh.N(t, 2); k > 0; k-- {
				e := d
				if vh.B(t) {
					e = vh.Encode(t, reorder(t, base, mentioned(x.Es), false), vh.DrawStyle(t))
				}
				x.Docs = append(x.Docs, vh.PadText(t, e))
			}
			return x
		},
		Check: func(c *vh.Ctx, x Encodings) error {
			for _, e := range x.Es { // a loop would see what was inserted into elements only as an unmentioned member
				c.LabelIf(loopDepth(e) > 0, "loop-over-padded")
			}
			return checkEncodings(c, x)
		},
	})
}
