package gojsonsm_test

import (
	"testing"

	"verif.local/vh"
)

func loopDepth(e *vh.E) int {
	d := 0
	for _, k := range e.Kids {
		d = max(d, loopDepth(k))
	}
	if e.IsLoop() {
		d++
	}
	return d
}

// loopsReached says whether some loop target is a non-empty array in the document.
func loopsReached(e *vh.E, n *vh.Node) (reached, multi bool) {
	var rec func(e *vh.E, env vh.Env)
	rec = func(e *vh.E, env vh.Env) {
		if !e.IsLoop() {
			for _, k := range e.Kids {
				rec(k, env)
			}
			return
		}
		tgt := env[e.In.Root].Resolve(e.In.Path)
		if tgt == nil || tgt.K != 'a' || len(tgt.Arr) == 0 {
			return
		}
		reached = true
		multi = multi || len(tgt.Arr) > 1
		for _, el := range tgt.Arr {
			sub := vh.Env{}
			for k, v := range env {
				sub[k] = v
			}
			sub[e.Var] = el
			rec(e.Kids[0], sub)
		}
	}
	rec(e, vh.Env{0: n})
	return
}

func loopLabels(c *vh.Ctx, x ExprDocs) bool {
	shapeLabels(c, x.E)
	c.LabelIf(loopDepth(x.E) > 1, "nested")
	c.LabelIf(loopDepth(x.E) > 2, "nested-3")
	c.LabelIf(x.E.Has("any"), "any")
	c.LabelIf(x.E.Has("every"), "every")
	c.LabelIf(x.E.Has("anyevery"), "anyevery")
	reached, multi := false, false
	for _, d := range x.Docs {
		r, m := loopsReached(x.E, mustParse(d))
		reached, multi = reached || r, multi || m
	}
	c.LabelIf(reached, "loop-ran")
	c.LabelIf(multi, "several-elements")
	return multi
}

const loopRule = "some loop of the expression iterates over an array of two or more elements in some document"

func TestC02_loops(t *testing.T) {
	opt := vh.GenOpt{Depth: 3, Loops: true, Const: true, GoLits: false, Like: true, MaxKids: 3, Shadow: true}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "loops", Cases: 900000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 3)
			return ExprDocs{E: opt.DrawLoop(t, base), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.NonTrivial(loopLabels(c, x))
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

func TestC02_funcs(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, GoLits: true, Funcs: true, Time: true, Root: true, MaxKids: 3}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "funcs", Cases: 250000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs {
			base := drawLoopDoc(t)
			docs := drawDocs(t, base, 3)
			return ExprDocs{E: opt.DrawLoop(t, base), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.NonTrivial(loopLabels(c, x))
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// drawLoopDoc draws an object with arrays in it: of scalars, of objects with
// alike members, of arrays, of mixed values.
func drawLoopDoc(t *vh.T) *vh.Node {
	if vh.N(t, 12) == 11 {
		return vh.DrawDoc(t)
	}
	o := vh.DrawObject(t, 2, 2)
	k := 1 + vh.N(t, 2)
	for i := 0; i < k; i++ {
		key := vh.DrawKey(t)
		a := drawLoopArray(t, 2)
		if n := o.Get(key); n != nil {
			*n = *a
		} else {
			o.Keys = append(o.Keys, key)
			o.Vals = append(o.Vals, a)
		}
	}
	if len(o.Keys) > 1 && vh.B(t) {
		p := vh.Perm(t, len(o.Keys))
		ks, vs := make([]string, len(p)), make([]*vh.Node, len(p))
		for i, j := range p {
			ks[i], vs[i] = o.Keys[j], o.Vals[j]
		}
		o.Keys, o.Vals = ks, vs
	}
	return o
}

func drawLoopArray(t *vh.T, depth int) *vh.Node {
	a := &vh.Node{K: 'a'}
	l := []int{2, 3, 1, 0, 4, 2}[vh.N(t, 6)]
	mode := vh.Weighted(t, 3, 5, 2, 2)
	for i := 0; i < l; i++ {
		switch {
		case mode == 0 || depth == 0:
			a.Arr = append(a.Arr, smallScalar(t))
		case mode == 1:
			o := &vh.Node{K: 'o'}
			m := 1 + vh.N(t, 3)
			for j := 0; j < m; j++ {
				key := []string{"a", "b", "c", "d"}[vh.N(t, 4)]
				if o.Get(key) != nil {
					continue
				}
				var v *vh.Node
				if vh.N(t, 3) == 2 {
					v = drawLoopArray(t, depth-1)
				} else {
					v = smallScalar(t)
				}
				o.Keys = append(o.Keys, key)
				o.Vals = append(o.Vals, v)
			}
			a.Arr = append(a.Arr, o)
		case mode == 2:
			a.Arr = append(a.Arr, drawLoopArray(t, depth-1))
		default:
			a.Arr = append(a.Arr, vh.DrawValue(t, depth))
		}
	}
	return a
}

// smallScalar draws from few values so that elements coincide.
func smallScalar(t *vh.T) *vh.Node {
	switch vh.N(t, 6) {
	case 0, 1, 2:
		return &vh.Node{K: '#', Num: []string{"1", "2", "0", "1.0"}[vh.N(t, 4)]}
	case 3:
		return &vh.Node{K: 's', Str: []string{"a", "b", "1", "a\"b"}[vh.N(t, 4)]}
	case 4:
		return vh.DrawScalar(t)
	default:
		return &vh.Node{K: []byte("tfn")[vh.N(t, 3)]}
	}
}

func TestC02_wide(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Like: true, MaxKids: 5, Shadow: true}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "wide", Cases: 16000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs {
			base := drawLoopDoc(t)
			if base.K != 'o' {
				base = &vh.Node{K: 'o'}
			}
			if base.Get("a") == nil {
				base.Keys = append(base.Keys, "a")
				base.Vals = append(base.Vals, vh.DrawLongArray(t, []int{10, 60, 300}[vh.N(t, 3)]))
			}
			docs := drawDocs(t, base, 3)
			e := opt.DrawLoop(t, base)
			if n := vh.N(t, 9); n > 2 { // many loops
				e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{e}}
				for i := 0; i < n; i++ {
					e.Kids = append(e.Kids, opt.DrawLoop(t, base))
				}
			}
			return ExprDocs{E: e, Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.NonTrivial(loopLabels(c, x))
			for _, d := range x.Docs {
				c.LabelIf(len(d) > 1000, "long-document")
			}
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// TestC02_long: loops over lists of hundreds of elements that are alike, except for
// one or two anywhere in them.
func TestC02_long(t *testing.T) {
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "long", Cases: 40000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs {
			num := func(s string) *vh.Node { return &vh.Node{K: '#', Num: s} }
			lit := func(s string) *vh.Operand { return &vh.Operand{K: "lit", Lit: &vh.Lit{T: "int", V: s}} }
			inObj, nested := vh.B(t), vh.P(t, 30)
			var path []string
			if inObj {
				path = []string{"v"}
			}
			el := func(v *vh.Node) *vh.Node {
				if !inObj {
					return v
				}
				o := &vh.Node{K: 'o', Keys: []string{"v"}, Vals: []*vh.Node{v}}
				if vh.P(t, 10) {
					o.Keys, o.Vals = append(o.Keys, "w"), append(o.Vals, num("3"))
				}
				return o
			}
			list := func(max int) *vh.Node {
				n := 1 + vh.N(t, max)
				if vh.P(t, 50) {
					n = max - vh.N(t, max/8+1)
				}
				a := &vh.Node{K: 'a'}
				for i := 0; i < n; i++ {
					a.Arr = append(a.Arr, el(num("1")))
				}
				for k := vh.N(t, 3); k > 0; k-- {
					p := vh.N(t, n)
					if vh.B(t) {
						p = n - 1 - vh.N(t, min(n, 4))
					}
					v := num("2")
					if vh.P(t, 20) {
						v = smallScalar(t)
					}
					a.Arr[p] = el(v)
					if inObj && vh.P(t, 10) {
						a.Arr[p] = &vh.Node{K: 'o'}
					}
				}
				return a
			}
			kind := func() string { return vh.Pick(t, "any", "every", "anyevery") }
			cond := func(v int) *vh.E {
				return &vh.E{Op: vh.Pick(t, "eq", "ne", "lt", "ge"), L: vh.Field(v, path...), R: lit(vh.Pick(t, "1", "2"))}
			}
			max := []int{20, 70, 150, 300, 600}[vh.N(t, 5)]
			var a *vh.Node
			var e *vh.E
			if nested {
				a = &vh.Node{K: 'a'}
				for k := 1 + vh.N(t, max/10+1); k > 0; k-- {
					a.Arr = append(a.Arr, list(1+max/(k+1)))
				}
				e = &vh.E{Op: kind(), Var: 1, In: vh.Field(0, "a"), Kids: []*vh.E{{Op: kind(), Var: 2, In: vh.Field(1), Kids: []*vh.E{cond(2)}}}}
			} else {
				a = list(max)
				e = &vh.E{Op: kind(), Var: 1, In: vh.Field(0, "a"), Kids: []*vh.E{cond(1)}}
			}
			doc := &vh.Node{K: 'o', Keys: []string{"a", "b"}, Vals: []*vh.Node{a, num("1")}}
			if vh.B(t) {
				e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: []*vh.E{e, {Op: "eq", L: vh.Field(0, "b"), R: lit(vh.Pick(t, "1", "2"))}}}
			}
			return ExprDocs{E: e, Docs: []string{vh.Plain(doc)}}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.NonTrivial(loopLabels(c, x))
			c.LabelIf(len(x.Docs[0]) > 1000, "long-document")
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// TestC02_big: documents of tens of kilobytes.
func TestC02_big(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Like: true, MaxKids: 3, Shadow: true}
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "big", Cases: 8000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs {
			base := drawLoopDoc(t)
			docs := pad(t, drawDocs(t, base, 2))
			return ExprDocs{E: opt.DrawLoop(t, base), Docs: docs}
		},
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.NonTrivial(loopLabels(c, x))
			c.LabelIf(len(x.Docs[0]) > 65536, "over-65536-bytes")
			return checkMatch(c, x.E, x.Docs)
		},
	})
}

// drawDeepLoops draws loops within loops within loops, slow: such as the
// SlowMatcher knows.
func drawDeepLoops(t *vh.T, slow bool) ExprDocs {
	lit := "int"
	if slow {
		lit = "float64"
	}
	levels := 3 + vh.N(t, 9)
	inObj := slow || vh.B(t)
	num := func() *vh.Node { return &vh.Node{K: '#', Num: vh.Pick(t, "1", "1", "1", "2")} }
	budget := 150
	var list func(d int) *vh.Node
	elem := func(d int) *vh.Node {
		budget--
		if d == 0 && !inObj {
			return num()
		}
		if !inObj {
			return list(d)
		}
		o := &vh.Node{K: 'o'}
		if slow || !vh.P(t, 5) {
			o.Keys, o.Vals = append(o.Keys, "b"), append(o.Vals, num())
		}
		if d > 0 && (slow || !vh.P(t, 3)) {
			o.Keys, o.Vals = append(o.Keys, "a"), append(o.Vals, list(d))
		}
		if len(o.Keys) > 1 && vh.B(t) {
			o.Keys[0], o.Keys[1] = o.Keys[1], o.Keys[0]
			o.Vals[0], o.Vals[1] = o.Vals[1], o.Vals[0]
		}
		return o
	}
	list = func(d int) *vh.Node {
		a := &vh.Node{K: 'a'}
		for n := vh.Pick(t, 1, 2, 2, 3, 0); n > 0 && (budget > 0 || len(a.Arr) == 0); n-- {
			a.Arr = append(a.Arr, elem(d-1))
		}
		return a
	}
	var docs []string
	for n := 1 + vh.N(t, 3); n > 0; n-- {
		budget = 150
		o := &vh.Node{K: 'o', Keys: []string{"b", "a"}, Vals: []*vh.Node{num(), list(levels)}}
		docs = append(docs, vh.Encode(t, o, vh.DrawStyle(t)))
	}
	var in, b []string
	if inObj {
		in, b = []string{"a"}, []string{"b"}
	}
	cond := func(upto int) *vh.E {
		l := vh.Field(upto, b...)
		if upto == 0 {
			l = vh.Field(0, "b")
		}
		r := &vh.Operand{K: "lit", Lit: &vh.Lit{T: lit, V: vh.Pick(t, "1", "2")}}
		if inObj && vh.P(t, 35) { // with an outer one
			v := vh.N(t, upto+1)
			r = vh.Field(v, "b")
		}
		return &vh.E{Op: vh.Pick(t, "eq", "ne", "lt", "ge"), L: l, R: r}
	}
	e := cond(levels)
	for v := levels; v >= 1; v-- {
		f := vh.Field(v-1, in...)
		if v == 1 {
			f = vh.Field(0, "a")
		}
		op := "any"
		if !slow {
			op = vh.Pick(t, "any", "any", "every", "anyevery")
		}
		e = &vh.E{Op: op, Var: v, In: f, Kids: []*vh.E{e}}
		if !slow && vh.P(t, 12) {
			e = &vh.E{Op: "not", Kids: []*vh.E{e}}
		}
		if (inObj || v == 1) && vh.P(t, 30) {
			kids := []*vh.E{e, cond(v - 1)}
			if vh.B(t) {
				kids[0], kids[1] = kids[1], kids[0]
			}
			e = &vh.E{Op: vh.Pick(t, "and", "or"), Kids: kids}
		}
	}
	return ExprDocs{E: e, Docs: docs}
}

// TestC02_deep: loops within loops within loops.
func TestC02_deep(t *testing.T) {
	vh.Run(t, vh.Spec[ExprDocs]{
		Prop: "C02", Name: "deep", Cases: 40000, Rule: loopRule,
		Gen: func(t *vh.T) ExprDocs { return drawDeepLoops(t, false) },
		Check: func(c *vh.Ctx, x ExprDocs) error {
			c.LabelIf(loopDepth(x.E) > 5, "6+levels")
			c.NonTrivial(loopLabels(c, x))
			return checkMatch(c, x.E, x.Docs)
		},
	})
}
