package gojsonsm_test

import (
	"strconv"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// schema is the shape of a value: documents of one schema have the same fields
// with values of the same types.
type schema struct {
	k    byte // # s b n o a
	keys []string
	kids []*schema
}

func drawSchema(t *vh.T, depth int) *schema {
	w := []int{4, 4, 2, 1, 0, 0}
	if depth > 0 {
		w[4], w[5] = 3, 5
	}
	s := &schema{k: "#sbnoa"[vh.Weighted(t, w...)]}
	switch s.k {
	case 'o':
		s.fill(t, depth)
	case 'a':
		s.kids = []*schema{drawSchema(t, depth-1)}
	}
	return s
}

func (s *schema) fill(t *vh.T, depth int) {
	for n := 1 + vh.N(t, 3); n > 0; n-- {
		k := vh.DrawKey(t)
		for _, o := range s.keys {
			if o == k {
				k = ""
			}
		}
		if k == "" || k[0] == '[' {
			continue
		}
		s.keys = append(s.keys, k)
		s.kids = append(s.kids, drawSchema(t, depth-1))
	}
}

var schemaStrs = []string{"", "a", "b", "ab", "aa", "A", "é", "世", "a\"b", "\\", "\n", "😀", "true", "1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}

func schemaNum(t *vh.T) string {
	switch vh.N(t, 5) {
	case 3:
		return strconv.FormatFloat(float64(vh.N(t, 9)-4)*0.25, 'f', -1, 64)
	case 4:
		return vh.Pick(t, "9007199254740991", "-9007199254740991", "1e10", "-12E2", "0.5e1", "1048576.5", "-0", "4294967296")
	}
	return strconv.Itoa(vh.N(t, 7) - 2)
}

func (s *schema) draw(t *vh.T) *vh.Node {
	n := &vh.Node{K: s.k}
	switch s.k {
	case '#':
		n.Num = schemaNum(t)
	case 's':
		n.Str = vh.Pick(t, schemaStrs...)
		if vh.P(t, 20) {
			n.Str += vh.Pick(t, schemaStrs...)
		}
	case 'b':
		n.K = vh.Pick[byte](t, 't', 'f')
	case 'o':
		for _, i := range vh.Perm(t, len(s.keys)) {
			n.Keys = append(n.Keys, s.keys[i])
			n.Vals = append(n.Vals, s.kids[i].draw(t))
		}
		if vh.P(t, 15) {
			n.Keys = append(n.Keys, "zz"+strconv.Itoa(vh.N(t, 3)))
			n.Vals = append(n.Vals, vh.DrawValue(t, 1))
		}
	case 'a':
		for i := vh.Weighted(t, 1, 3, 3, 2); i > 0; i-- {
			n.Arr = append(n.Arr, s.kids[0].draw(t))
		}
	}
	return n
}

// place is a field an expression can use.
type place struct {
	v    int
	path []string
	s    *schema
}

func (s *schema) places(v int, path []string, out []place) []place {
	if len(path) > 0 || v != 0 {
		out = append(out, place{v, append([]string(nil), path...), s})
	}
	if s.k == 'o' {
		for i, k := range s.keys {
			out = s.kids[i].places(v, append(path[:len(path):len(path)], k), out)
		}
	}
	return out
}

func (p place) field() *vh.Operand { return vh.Field(p.v, p.path...) }

func scalarPlaces(ps []place, k byte) []place {
	var out []place
	for _, p := range ps {
		if p.s.k == k || k == 0 && p.s.k != 'o' && p.s.k != 'a' {
			out = append(out, p)
		}
	}
	return out
}

// schemaExpr draws a condition both matchers support; nil if there is none.
func schemaExpr(t *vh.T, ps []place, depth int, next *int) *vh.E {
	if depth < -3 {
		return nil
	}
	sc, ar := scalarPlaces(ps, 0), scalarPlaces(ps, 'a')
	kind := vh.Weighted(t, 5, 2, 2, 4)
	if depth <= 0 {
		kind = 0
	}
	if kind == 3 && len(ar) == 0 || kind == 0 && len(sc) == 0 && len(ar) > 0 {
		kind = 3 - kind
	}
	switch kind {
	case 1, 2:
		e := &vh.E{Op: vh.Pick(t, "and", "or")}
		for n := 1 + vh.N(t, 3); n > 0; n-- {
			k := schemaExpr(t, ps, depth-1, next)
			if k == nil {
				return nil
			}
			e.Kids = append(e.Kids, k)
		}
		return e
	case 3:
		p := ar[vh.N(t, len(ar))]
		*next++
		v, rest := *next, ps
		if vh.P(t, 25) { // hides an outer variable
			v = vh.N(t, *next) + 1
			rest = nil
			for _, q := range ps {
				if q.v != v {
					rest = append(rest, q)
				}
			}
		}
		body := schemaExpr(t, p.s.kids[0].places(v, nil, rest), depth-1, next)
		if body == nil {
			return nil
		}
		return &vh.E{Op: "any", Var: v, In: p.field(), Kids: []*vh.E{body}}
	}
	if len(sc) == 0 {
		return nil
	}
	p := sc[vh.N(t, len(sc))]
	if vh.P(t, 60) { // the latest variable, mostly
		p = sc[len(sc)-1-vh.N(t, (len(sc)+1)/2)]
	}
	e := &vh.E{Op: vh.Cmps[vh.N(t, 6)], L: p.field()}
	same := scalarPlaces(ps, p.s.k)
	if vh.P(t, 30) && len(same) > 1 {
		e.R = same[vh.N(t, len(same))].field()
	} else {
		of := p.s
		if of.k == 'n' && vh.B(t) { // null is less than anything else
			of = &schema{k: vh.Pick[byte](t, '#', 's', 'b')}
		}
		lit, _ := vh.LitOfNode(t, of.draw(t), false)
		e.R = &vh.Operand{K: "lit", Lit: lit}
	}
	if vh.P(t, 25) && (p.s.k != 'n' || e.R.K == "field" || e.R.Lit.T == "null") {
		e.L, e.R = e.R, e.L
	}
	return e
}

func TestC25_both(t *testing.T) {
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C25", Name: "both", Cases: 450000,
		Rule: "an expression has two conditions or a loop",
		Gen: func(t *vh.T) ListDocs {
			root := &schema{k: 'o'}
			root.fill(t, 3)
			if vh.P(t, 70) {
				root.keys = append(root.keys, "arr")
				root.kids = append(root.kids, &schema{k: 'a', kids: []*schema{drawSchema(t, 2)}})
			}
			var x ListDocs
			ps := root.places(0, nil, nil)
			next := 0
			for n := 1 + vh.Weighted(t, 3, 2, 1, 1); n > 0; n-- {
				e := schemaExpr(t, ps, 3, &next)
				if e == nil || vh.P(t, 4) {
					e = &vh.E{Op: vh.Pick(t, "true", "false")}
				}
				x.Es = append(x.Es, e)
			}
			for n := 1 + vh.N(t, 4); n > 0; n-- {
				d := vh.Encode(t, root.draw(t), vh.DrawStyle(t))
				if vh.P(t, 15) { // no document
					d = string(mutateBytes(t, []byte(d)))
					if _, err := vh.ParseJSON(d); err == nil {
						d = "{" + d
					}
				}
				x.Docs = append(x.Docs, d)
			}
			return x
		},
		Check: checkBoth,
	})
}

func checkBoth(c *vh.Ctx, x ListDocs) error {
	nt := false
	for _, e := range x.Es {
		loops := 0
		e.Walk(func(k *vh.E) {
			if k.IsLoop() {
				loops++
			}
		})
		nt = nt || e.Leaves() >= 2
		c.LabelIf(loops > 0, "loop")
		c.LabelIf(loops > 1, "loops")
	}
	c.NonTrivial(nt)
	c.LabelIf(len(x.Es) > 1, "several-expressions")
	slow := gojsonsm.NewSlowMatcher(convAll(x.Es))
	fast := gojsonsm.NewFastMatcher(compile(x.Es...))
	// A caller reads every document into the same memory.
	size := 0
	for _, d := range x.Docs {
		if len(d) > size {
			size = len(d)
		}
	}
	mem := make([]byte, size)
	reuse := func(d string) []byte {
		copy(mem, d)
		return mem[:len(d):len(d)]
	}
	for i, d := range x.Docs {
		n, bad := vh.ParseJSON(d)
		if bad != nil {
			if i > 0 {
				slow.Reset()
				fast.Reset()
			}
			if got, err := slow.Match(reuse(d)); err == nil {
				return errf("SlowMatcher gives %v on a document that is not JSON\n doc  %q\n exprs %v", got, d, x.Es)
			}
			_, _ = fast.Match(reuse(d))
			c.Label("malformed-document")
			continue
		}
		any := false
		wants := make([]bool, len(x.Es))
		for j, e := range x.Es {
			w, ev := vh.EvalDoc(e, n)
			if ev.Ambig || ev.Raw {
				return errf("HARNESS: outside the common domain: %v %s", e, d)
			}
			wants[j] = w
			any = any || w
		}
		c.LabelIf(any, "true")
		c.LabelIf(!any, "false")
		if i > 0 {
			slow.Reset()
			fast.Reset()
		}
		for j := range x.Es {
			if slow.ExpressionMatched(j) {
				return errf("SlowMatcher.ExpressionMatched(%d) gives true before document %d is matched\n exprs %v", j, i, x.Es)
			}
		}
		b := reuse(d)
		var got bool
		var err error
		if i%2 == 1 {
			got, _, err = slow.MatchWithStatus(b)
		} else {
			got, err = slow.Match(b)
		}
		if err != nil || got != any {
			return errf("SlowMatcher gives %v, %v on document %d, the answer is %v\n doc  %s\n exprs %v", got, err, i, any, short(d), x.Es)
		}
		if string(b) != d {
			return errf("SlowMatcher modifies the document\n doc  %s", short(d))
		}
		fg, err := fast.Match(b)
		if err != nil || fg != any {
			return errf("FastMatcher gives %v, %v on document %d, the answer is %v\n doc  %s\n exprs %v", fg, err, i, any, short(d), x.Es)
		}
		for j := range x.Es {
			if slow.ExpressionMatched(j) != wants[j] {
				return errf("SlowMatcher.ExpressionMatched(%d) gives %v on document %d, it is %v\n doc  %s\n exprs %v", j, !wants[j], i, wants[j], short(d), x.Es)
			}
			if fast.ExpressionMatched(j) != wants[j] {
				return errf("FastMatcher.ExpressionMatched(%d) gives %v on document %d, it is %v\n doc  %s\n exprs %v", j, !wants[j], i, wants[j], short(d), x.Es)
			}
		}
	}
	return nil
}

// TestC25_wide: many conditions and long arrays.
func TestC25_wide(t *testing.T) {
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C25", Name: "wide", Cases: 20000,
		Rule: "an expression has two conditions or a loop",
		Gen: func(t *vh.T) ListDocs {
			root := &schema{k: 'o'}
			root.fill(t, 2)
			elem := drawSchema(t, 1)
			root.keys = append(root.keys, "long", "num")
			root.kids = append(root.kids, &schema{k: 'a', kids: []*schema{elem}}, &schema{k: '#'})
			var docs []*vh.Node
			for n := 1 + vh.N(t, 2); n > 0; n-- {
				d := root.draw(t)
				long := d.Get("long") // most of the elements are alike
				long.Arr = nil
				pool := []*vh.Node{elem.draw(t), elem.draw(t)}
				for m := vh.N(t, vh.Pick(t, 20, 60, 300)); m > 0; m-- {
					long.Arr = append(long.Arr, pool[vh.N(t, 2)].Clone())
				}
				if len(long.Arr) > 0 {
					for m := vh.N(t, 3); m > 0; m-- {
						i := vh.N(t, len(long.Arr))
						if vh.B(t) {
							i = len(long.Arr) - 1
						}
						long.Arr[i] = elem.draw(t)
					}
				}
				docs = append(docs, d)
			}
			ps := root.places(0, nil, nil)
			next := 0
			draw := func() *vh.E {
				if e := schemaExpr(t, ps, vh.Pick(t, 0, 0, 0, 1), &next); e != nil {
					return e
				}
				lit, _ := vh.LitOfNode(t, &vh.Node{K: '#', Num: schemaNum(t)}, false)
				return &vh.E{Op: vh.Cmps[vh.N(t, 6)], L: vh.Field(0, "num"), R: &vh.Operand{K: "lit", Lit: lit}}
			}
			var x ListDocs
			for n := 1 + vh.Weighted(t, 3, 1, 1); n > 0; n-- {
				if vh.B(t) {
					x.Es = append(x.Es, vh.DrawWide(t, vh.Pick(t, "and", "or"), docs[0], draw, vh.FlipCmp))
					continue
				}
				next++
				v := next
				arr := place{0, []string{"long"}, nil}
				var body *vh.E
				if elems := docs[0].Get("long").Arr; len(elems) > 0 && vh.B(t) { // an element's own value
					sc := scalarPlaces(elem.places(v, nil, nil), 0)
					if len(sc) > 0 {
						p := sc[vh.N(t, len(sc))]
						if at := elems[len(elems)-1-vh.N(t, len(elems))].Resolve(p.path); at != nil {
							lit, _ := vh.LitOfNode(t, at, false)
							body = &vh.E{Op: vh.Pick(t, "eq", "eq", "ge", "le", "lt", "gt"), L: p.field(), R: &vh.Operand{K: "lit", Lit: lit}}
						}
					}
				}
				if body == nil {
					body = schemaExpr(t, elem.places(v, nil, ps), vh.N(t, 2), &next)
				}
				if body == nil {
					body = draw()
				}
				x.Es = append(x.Es, &vh.E{Op: "any", Var: v, In: arr.field(), Kids: []*vh.E{body}})
			}
			for _, d := range docs {
				x.Docs = append(x.Docs, vh.Encode(t, d, vh.DrawStyle(t)))
			}
			return x
		},
		Check: checkBoth,
	})
}

// TestC25_big: documents of tens of kilobytes.
func TestC25_big(t *testing.T) {
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C25", Name: "big", Cases: 3000,
		Rule: "an expression has two conditions or a loop",
		Gen: func(t *vh.T) ListDocs {
			root := &schema{k: 'o'}
			root.fill(t, 2)
			root.keys = append(root.keys, "arr")
			root.kids = append(root.kids, &schema{k: 'a', kids: []*schema{drawSchema(t, 2)}})
			var x ListDocs
			next := 0
			for n := 1 + vh.N(t, 3); n > 0; n-- {
				e := schemaExpr(t, root.places(0, nil, nil), 2, &next)
				if e == nil {
					e = &vh.E{Op: "false"}
				}
				x.Es = append(x.Es, e)
			}
			for n := 1 + vh.N(t, 2); n > 0; n-- {
				x.Docs = append(x.Docs, vh.PadText(t, vh.Encode(t, root.draw(t), vh.DrawStyle(t))))
			}
			return x
		},
		Check: checkBoth,
	})
}

// TestC25_deep: loops within loops within loops.
func TestC25_deep(t *testing.T) {
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C25", Name: "deep", Cases: 20000,
		Rule: "an expression has two conditions or a loop",
		Gen: func(t *vh.T) ListDocs {
			x := drawDeepLoops(t, true)
			return ListDocs{Es: []*vh.E{x.E}, Docs: x.Docs}
		},
		Check: checkBoth,
	})
}
