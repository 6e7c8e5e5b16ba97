package vh

import (
	"strconv"
	"strings"
)

// DrawWideDoc draws a large object: many members whose keys are prefixes of
// each other, a long array, a deep chain of objects and arrays.
func DrawWideDoc(t *T) *Node {
	o := &Node{K: 'o'}
	add := func(o *Node, k string, v *Node) {
		if o.Get(k) == nil {
			o.Keys = append(o.Keys, k)
			o.Vals = append(o.Vals, v)
		}
	}
	key := func() string {
		switch Weighted(t, 6, 2, 1) {
		case 0:
			return "k" + strconv.Itoa([]int{1, 2, 10, 11, 12, 20, 100, 101, 111, 1000}[N(t, 10)]+N(t, 8))
		case 1:
			return DrawKey(t)
		}
		return strings.Repeat("key", 1+N(t, 100)) + strconv.Itoa(N(t, 4))
	}
	n := 4 + N(t, 40)
	for i := 0; i < n; i++ {
		switch Weighted(t, 8, 1, 1) {
		case 0:
			add(o, key(), DrawScalar(t))
		case 1:
			add(o, key(), DrawObject(t, 2, 6))
		default:
			add(o, key(), DrawArray(t, 2, 6))
		}
	}
	for i := N(t, 3); i > 0; i-- {
		add(o, key(), DrawLongArray(t, []int{12, 40, 130, 320}[N(t, 4)]))
	}
	if B(t) { // a chain
		v := DrawScalar(t)
		for i := N(t, 40); i > 0; i-- {
			if N(t, 4) == 3 {
				a := &Node{K: 'a'}
				for j := N(t, 3); j > 0; j-- {
					a.Arr = append(a.Arr, DrawScalar(t))
				}
				a.Arr = append(a.Arr, v)
				v = a
			} else {
				c := &Node{K: 'o'}
				if P(t, 30) {
					add(c, DrawKey(t), DrawScalar(t))
				}
				add(c, "n", v)
				if P(t, 30) {
					add(c, DrawKey(t), DrawScalar(t))
				}
				v = c
			}
		}
		add(o, key(), v)
	}
	p := Perm(t, len(o.Keys))
	ks, vs := make([]string, len(p)), make([]*Node, len(p))
	for i, j := range p {
		ks[i], vs[i] = o.Keys[j], o.Vals[j]
	}
	o.Keys, o.Vals = ks, vs
	return o
}

// DrawLongArray draws an array of up to max elements that are alike except for a few.
func DrawLongArray(t *T, max int) *Node {
	a := &Node{K: 'a'}
	n := 1 + N(t, max)
	var pool []*Node
	for i := 1 + N(t, 2); i > 0; i-- {
		if B(t) {
			pool = append(pool, DrawObject(t, 2, 3))
		} else {
			pool = append(pool, DrawScalar(t))
		}
	}
	for i := 0; i < n; i++ {
		a.Arr = append(a.Arr, pool[i%len(pool)].Clone())
	}
	for i := N(t, 3); i > 0; i-- {
		a.Arr[N(t, n)] = DrawValue(t, 1)
	}
	return a
}

// WideCount draws the number of conditions of a wide expression.
func WideCount(t *T) int {
	return 5 + N(t, []int{10, 40, 120}[Weighted(t, 5, 4, 1)])
}

// wideKid makes n conditions, all but few of which leave the answer for the
// document to the others: they are true below AND, false below OR.
func wideKids(t *T, op string, n int, doc *Node, kid func(i int) *E, flip func(i int)) {
	free := -1
	if P(t, 70) {
		free = N(t, n)
		if B(t) {
			free = n - 1 - N(t, 1+n/8)
		}
	}
	for i := 0; i < n; i++ {
		e := kid(i)
		v, ev := EvalDoc(e, doc)
		if ev.Ambig {
			continue
		}
		if want := (op == "and") != (i == free); v != want {
			flip(i)
		}
	}
}

// DrawWide draws AND or OR over many conditions.
func DrawWide(t *T, op string, doc *Node, draw func() *E, neg func(*E) *E) *E {
	e := &E{Op: op}
	wideKids(t, op, WideCount(t), doc,
		func(i int) *E { e.Kids = append(e.Kids, draw()); return e.Kids[i] },
		func(i int) { e.Kids[i] = neg(e.Kids[i]) })
	return e
}

// Negate puts NOT in front, or takes it away.
func Negate(e *E) *E {
	if e.Op == "not" {
		return e.Kids[0]
	}
	return &E{Op: "not", Kids: []*E{e}}
}

var flipped = map[string]string{"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}

// FlipCmp reverses a comparison.
func FlipCmp(e *E) *E {
	if f, ok := flipped[e.Op]; ok {
		c := *e
		c.Op = f
		return &c
	}
	return e
}

// Deepen puts a condition n levels down in NOT, AND and OR. What it is joined with
// mostly leaves the answer for the document to the condition.
func Deepen(t *T, e *E, n int, doc *Node, sibling func() *E) *E {
	for ; n > 0; n-- {
		if P(t, 25) {
			e = &E{Op: "not", Kids: []*E{e}}
			continue
		}
		op := Pick(t, "and", "or")
		kids := []*E{e}
		for k := N(t, 3); k > 0; k-- {
			s := sibling()
			if v, ev := EvalDoc(s, doc); !ev.Ambig && v != (op == "and") && !P(t, 3) {
				s = Negate(s)
			}
			if B(t) {
				kids = append(kids, s)
			} else {
				kids = append([]*E{s}, kids...)
			}
		}
		e = &E{Op: op, Kids: kids}
	}
	return e
}
