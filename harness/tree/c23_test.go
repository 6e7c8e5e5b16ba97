package gojsonsm

import (
	"fmt"
	"os"
	"testing"

	"verif.local/vh"
)

func TestMain(m *testing.M) {
	vh.StartWatchdog()
	os.Exit(m.Run())
}

// Op is a step of a history. I picks one of the nodes the step can apply to.
type Op struct {
	K     string // mark resolve resetnode reset loop copy abandon
	I     int
	V     bool
	Iters [][]Op `json:",omitempty"` // the steps of each pass of a loop
}

// History is a tree, in preorder, and what is done to it.
type History struct {
	Tree []string
	Ops  []Op
}

var treeTypes = map[string]BinTreeNodeType{"leaf": nodeTypeLeaf, "or": nodeTypeOr, "and": nodeTypeAnd, "not": nodeTypeNot, "neor": nodeTypeNeor, "loop": nodeTypeLoop}

func drawTree(t *vh.T, depth int, neor bool) []string {
	k := "leaf"
	if depth > 0 && !(depth < 4 && vh.P(t, 15)) {
		k = [...]string{"and", "or", "not", "loop", "neor"}[vh.Weighted(t, 6, 6, 3, 3, 2)]
		if neor && vh.P(t, 80) {
			k = "neor"
		}
	}
	out := []string{k}
	switch k {
	case "and", "or", "neor":
		out = append(out, drawTree(t, depth-1, neor && k == "neor")...)
		out = append(out, drawTree(t, depth-1, neor && k == "neor")...)
	case "not", "loop":
		out = append(out, drawTree(t, depth-1, false)...)
	}
	return out
}

func drawOps(t *vh.T, n, width, depth int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{I: vh.N(t, width), V: vh.B(t)}
		switch vh.Weighted(t, 12, 4*(3-depth), 1, 2, 1, 1) {
		case 0:
			op.K = "mark"
		case 1:
			op.K = "loop"
			for j := vh.N(t, 4); j > 0; j-- {
				op.Iters = append(op.Iters, drawOps(t, vh.N(t, 5), width, depth+1))
			}
		case 2:
			op.K = "resolve"
		case 3:
			op.K = "resetnode"
		case 4:
			op.K = "reset"
		case 5:
			op.K = "copy"
		}
		if depth > 0 && (op.K == "copy" || op.K == "reset" || op.K == "resetnode" || op.K == "resolve") {
			op.K = "mark"
			if vh.P(t, 4) {
				op.K = "abandon" // Reset in the middle of a loop, as after an error
			}
		}
		ops = append(ops, op)
	}
	return ops
}

// mnode is a node of the model.
type mnode struct {
	typ    string
	parent int
	kids   []int
	end    int
}

type model struct {
	n    []mnode
	mark []int // 0 unknown 1 true 2 false: leaves marked, nodes pinned
	st   *binTreeState
	c    *vh.Ctx
	gone bool // the loop was abandoned
}

func (m *model) build(pre []string, at, parent int) int {
	m.n[at].typ = pre[at]
	m.n[at].parent = parent
	pos := at + 1
	k := 0
	switch pre[at] {
	case "and", "or", "neor":
		k = 2
	case "not", "loop":
		k = 1
	}
	for ; k > 0; k-- {
		m.n[at].kids = append(m.n[at].kids, pos)
		pos = m.build(pre, pos, at)
	}
	m.n[at].end = pos
	return pos
}

const (
	unk = iota
	tru
	fal
)

func not3(v int) int { return [...]int{unk, fal, tru}[v] }

// val is the value of the node in three-valued logic. rest is the value of what
// is not marked: unk, or fal when the rest is resolved.
func (m *model) val(i int, rest int) int {
	if m.mark[i] != unk {
		return m.mark[i]
	}
	n := m.n[i]
	switch n.typ {
	case "leaf":
		return rest
	case "loop": // its body is marked once it ran
		if v := m.mark[n.kids[0]]; v != unk {
			return v
		}
		return rest
	case "not":
		return not3(m.val(n.kids[0], rest))
	}
	a, b := m.val(n.kids[0], rest), m.val(n.kids[1], rest)
	switch n.typ {
	case "and":
		if a == fal || b == fal {
			return fal
		}
		if a == tru && b == tru {
			return tru
		}
		return unk
	case "neor":
		if a == unk || b == unk {
			return unk
		}
	}
	if a == tru || b == tru {
		return tru
	}
	if a == fal && b == fal {
		return fal
	}
	return unk
}

// above says whether a node between i (not included) and lo (included) is decided.
func (m *model) above(i, lo int) bool {
	for i != lo {
		i = m.n[i].parent
		if m.val(i, unk) != unk {
			return true
		}
	}
	return false
}

// inLoopFrom says whether i is below a loop at lo or between.
func (m *model) inLoopFrom(i, lo int) bool {
	for i != lo {
		i = m.n[i].parent
		if m.n[i].typ == "loop" {
			return true
		}
	}
	return false
}

func (m *model) pick(lo, hi int, i int, f func(int) bool) (int, bool) {
	var c []int
	for k := lo; k < hi; k++ {
		if f(k) && !m.inLoopFrom(k, lo) {
			c = append(c, k)
		}
	}
	if len(c) == 0 {
		return 0, false
	}
	return c[i%len(c)], true
}

func (m *model) clear(i int) {
	for k := i; k < m.n[i].end; k++ {
		m.mark[k] = unk
	}
}

func set(b bool) int {
	if b {
		return tru
	}
	return fal
}

// run performs the steps on the nodes from lo (the root or the body of a loop).
func (m *model) run(ops []Op, lo int, depth int) error {
	hi := m.n[lo].end
	open := func(k int) bool { return m.val(k, unk) == unk && (k == lo || !m.above(k, lo)) }
	for _, op := range ops {
		what := fmt.Sprintf("after %s", op.K)
		switch op.K {
		case "mark":
			k, ok := m.pick(lo, hi, op.I, func(k int) bool { return m.n[k].typ == "leaf" && open(k) })
			if !ok {
				continue
			}
			m.st.MarkNode(k, op.V)
			m.mark[k] = set(op.V)
			what += fmt.Sprintf(" of %d as %v", k, op.V)
			m.c.LabelIf(k != 0 && (m.val(m.n[k].parent, unk) != unk), "mark-decides-parent")
		case "loop":
			k, ok := m.pick(lo, hi, op.I, func(k int) bool { return m.n[k].typ == "loop" && open(k) })
			if !ok {
				continue
			}
			m.c.Label("loop-run")
			m.c.LabelIf(depth > 0, "loop-in-loop")
			outer := append([]binTreeStateValue(nil), m.st.data...)
			b := m.n[k].kids[0]
			prev := m.st.SetStallIndex(b)
			for _, it := range op.Iters {
				m.st.ResetNode(b)
				m.clear(b)
				if err := m.run(it, b, depth+1); err != nil || m.gone {
					return err
				}
				want := m.val(b, fal)
				m.st.ResolveNode(b)
				if !m.st.IsResolved(b) || m.st.IsTrue(b) != (want == tru) {
					return fmt.Errorf("pass of loop %d: resolved=%v true=%v, its body is %v", k, m.st.IsResolved(b), m.st.IsTrue(b), want == tru)
				}
				for i, v := range outer {
					if (i < b || i >= m.n[b].end) && m.st.data[i] != v {
						return fmt.Errorf("pass of loop %d changes node %d outside of it", k, i)
					}
				}
			}
			m.st.ResetNode(b)
			m.clear(b)
			if got := m.st.SetStallIndex(prev); got != b {
				return fmt.Errorf("SetStallIndex gives %d, %d was set", got, b)
			}
			m.st.MarkNode(b, op.V)
			m.mark[b] = set(op.V)
			what = fmt.Sprintf("after loop %d marked %v", k, op.V)
		case "resolve":
			k, ok := m.pick(lo, hi, op.I, open)
			if !ok {
				continue
			}
			v := m.val(k, fal)
			m.st.ResolveNode(k)
			what += fmt.Sprintf(" of %d", k)
			if m.st.IsTrue(k) != (v == tru) || !m.st.IsResolved(k) {
				return fmt.Errorf("%s: it is true=%v, its formula is %v", what, m.st.IsTrue(k), v == tru)
			}
			m.mark[k] = v
			m.c.Label("resolve-node")
		case "resetnode":
			k, ok := m.pick(lo, hi, op.I, func(k int) bool { return k == lo || !m.above(k, lo) })
			if !ok {
				continue
			}
			m.c.LabelIf(m.val(k, unk) != unk, "reset-decided-node")
			m.st.ResetNode(k)
			m.clear(k)
			what += fmt.Sprintf(" of %d", k)
		case "reset":
			m.st.Reset()
			m.clear(0)
		case "abandon":
			m.st.Reset()
			m.clear(0)
			m.gone = true
			m.c.Label("abandoned-loop")
			return m.checkFrom("after a reset within a loop", 0)
		case "copy":
			o := m.st.tree.NewState()
			if op.V {
				for i := 0; i < m.n[0].end; i++ { // a used one
					if m.n[i].typ == "leaf" && !o.IsResolved(i) {
						o.MarkNode(i, i%2 == 0)
					}
				}
			}
			o.CopyFrom(m.st)
			m.st.Reset()
			m.st = o
			m.c.Label("copied")
		}
		if err := m.checkFrom(what, lo); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) checkFrom(what string, lo int) error {
	for i := lo; i < m.n[lo].end; i++ {
		res, tr := m.st.IsResolved(i), m.st.IsTrue(i)
		if tr && !res {
			return fmt.Errorf("%s: node %d is true and not resolved", what, i)
		}
		if m.above(i, lo) {
			if !res {
				return fmt.Errorf("%s: node %d is open below a decided node", what, i)
			}
			continue
		}
		if m.inLoopFrom(i, lo) {
			if res {
				return fmt.Errorf("%s: node %d, in a loop that did not run, is resolved", what, i)
			}
			continue
		}
		v := m.val(i, unk)
		if res != (v != unk) || tr != (v == tru) {
			return fmt.Errorf("%s: node %d is resolved=%v true=%v, it is %s", what, i, res, tr, [...]string{"open", "true", "false"}[v])
		}
	}
	return m.neors(what, lo, unk)
}

// neors checks the nodes that stay meaningful below a decided root: those below
// "neor" nodes only.
func (m *model) neors(what string, i int, rest int) error {
	if m.mark[i] != unk && m.n[i].typ == "neor" {
		return nil // it was resolved as a whole
	}
	if v := m.val(i, rest); v != unk && (m.st.IsTrue(i) != (v == tru) || !m.st.IsResolved(i)) {
		return fmt.Errorf("%s: node %d is true=%v resolved=%v, its formula is %v", what, i, m.st.IsTrue(i), m.st.IsResolved(i), v == tru)
	}
	if m.n[i].typ == "neor" {
		for _, k := range m.n[i].kids {
			if err := m.neors(what, k, rest); err != nil {
				return err
			}
		}
	}
	return nil
}

func newModel(c *vh.Ctx, pre []string) (*model, error) {
	m := &model{n: make([]mnode, len(pre)), mark: make([]int, len(pre)), c: c}
	if m.build(pre, 0, 0) != len(pre) {
		return nil, fmt.Errorf("HARNESS: bad tree %v", pre)
	}
	tree := &binTree{}
	for i, n := range m.n {
		l, r := 0, 0
		if len(n.kids) > 0 {
			l = n.kids[0]
		}
		if len(n.kids) > 1 {
			r = n.kids[1]
		}
		tree.data = append(tree.data, *NewBinTreeNode(treeTypes[pre[i]], n.parent, l, r))
	}
	if err := tree.Validate(); err != nil {
		return nil, fmt.Errorf("the tree is called invalid: %v", err)
	}
	if tree.NumNodes() != len(pre) {
		return nil, fmt.Errorf("NumNodes gives %d", tree.NumNodes())
	}
	_ = tree.String()
	m.st = tree.NewState()
	return m, nil
}

func TestC23_history(t *testing.T) {
	runHistory(t, "history", 1200000, func(t *vh.T) History {
		return History{Tree: drawTree(t, 1+vh.N(t, 4), vh.P(t, 20)), Ops: drawOps(t, 1+vh.N(t, 12), 16, 0)}
	})
}

// TestC23_large: trees of hundreds of nodes.
func TestC23_large(t *testing.T) {
	runHistory(t, "large", 3000, func(t *vh.T) History {
		// two large trees joined, or a long chain with small trees at its sides
		tree := drawTree(t, 4+vh.N(t, 3), vh.P(t, 10))
		if vh.B(t) {
			for k := 20 + vh.N(t, 80); k > 0; k-- {
				side := drawTree(t, vh.N(t, 3), false)
				if vh.B(t) {
					tree = append([]string{vh.Pick(t, "and", "or")}, append(side, tree...)...)
				} else {
					tree = append([]string{vh.Pick(t, "and", "or")}, append(tree, side...)...)
				}
				if len(tree) > 270 {
					break
				}
			}
		}
		return History{Tree: tree, Ops: drawOps(t, 10+vh.N(t, 50), len(tree), 0)}
	})
}

func runHistory(t *testing.T, name string, cases int, gen func(t *vh.T) History) {
	vh.Run(t, vh.Spec[History]{
		Prop: "C23", Name: name, Cases: cases,
		Rule: "the tree has at least two leaves or a loop, and at least two steps applied",
		Gen:  gen,
		Check: func(c *vh.Ctx, x History) error {
			m, err := newModel(c, x.Tree)
			if err != nil {
				return fmt.Errorf("%v\n tree %v", err, x.Tree)
			}
			leaves := 0
			for _, k := range x.Tree {
				if k == "leaf" {
					leaves++
				}
				c.Label(k)
			}
			c.LabelIf(len(x.Tree) > 64, "65+nodes")
			c.LabelIf(len(x.Tree) > 256, "257+nodes")
			c.NonTrivial((leaves > 1 || len(x.Tree) > 2) && len(x.Ops) > 1)
			if err := m.run(x.Ops, 0, 0); err != nil {
				return fmt.Errorf("%v\n tree %v\n ops  %+v", err, x.Tree, x.Ops)
			}
			_ = m.st.String()
			c.LabelIf(m.val(0, unk) == unk, "root-open-at-end")
			want := m.val(0, fal)
			m.st.Resolve()
			if !m.st.IsResolved(0) || m.st.IsTrue(0) != (want == tru) {
				return fmt.Errorf("after Resolve the root is resolved=%v true=%v, its formula is %v\n tree %v\n ops  %+v",
					m.st.IsResolved(0), m.st.IsTrue(0), want == tru, x.Tree, x.Ops)
			}
			if err := m.neors("after Resolve", 0, fal); err != nil {
				return fmt.Errorf("%v\n tree %v\n ops  %+v", err, x.Tree, x.Ops)
			}
			for i := range x.Tree {
				if !m.st.IsResolved(i) && !m.inLoopFrom(i, 0) {
					return fmt.Errorf("after Resolve node %d is open\n tree %v\n ops  %+v", i, x.Tree, x.Ops)
				}
			}
			return nil
		},
	})
}
