package vh

import (
	"math"
	"strconv"
	"strings"
)

// GenOpt says which expressions to draw.
type GenOpt struct {
	Depth    int
	Loops    bool
	Const    bool // true/false conditions
	Funcs    bool // math functions and date() in operands
	Time     bool // time literals
	Like     bool // regular expressions
	GoLits   bool // literals of every Go type; otherwise those JSON has
	NoFields bool // no comparison of two fields
	NoRaw    bool // no comparison of whole arrays or objects
	Root     bool // fields with an empty path (the whole document)
	MaxKids  int
	Shadow   bool
}

type scope struct {
	vars    []int
	samples map[int][]*Node
	paths   map[int][][]string // paths of the samples, cached
	depth   int                // loop depth
	used    map[int][][]string // paths drawn so far
}

func newScope(docs []*Node) *scope {
	return &scope{vars: []int{0}, samples: map[int][]*Node{0: docs}, paths: map[int][][]string{}, used: map[int][][]string{}}
}

func (s *scope) with(v int, samples []*Node) *scope {
	n := &scope{samples: map[int][]*Node{}, paths: map[int][][]string{}, used: map[int][][]string{}, depth: s.depth + 1}
	for _, x := range s.vars {
		if x != v {
			n.vars = append(n.vars, x)
			n.samples[x] = s.samples[x]
			n.paths[x] = s.paths[x]
			n.used[x] = s.used[x]
		}
	}
	n.vars = append(n.vars, v)
	n.samples[v] = samples
	return n
}

func (s *scope) pathsOf(v int) [][]string {
	if p := s.paths[v]; p != nil {
		return p
	}
	var out [][]string
	for _, d := range s.samples[v] {
		out = append(out, Paths(d)...)
	}
	if out == nil {
		out = [][]string{}
	}
	s.paths[v] = out
	return out
}

func (s *scope) at(v int, path []string) []*Node {
	var out []*Node
	for _, d := range s.samples[v] {
		if n := d.Resolve(path); n != nil {
			out = append(out, n)
		}
	}
	return out
}

func drawElem(t *T) string {
	if N(t, 4) == 3 {
		return "[" + strconv.Itoa(N(t, 4)) + "]"
	}
	return keyPool[N(t, 6)]
}

// drawPath draws a path below the variable, mostly one that exists.
func (s *scope) drawPath(t *T, v int, allowEmpty bool, want func(*Node) bool) []string {
	if u := s.used[v]; len(u) > 0 && P(t, 20) { // conditions that share a field
		p := u[N(t, len(u))]
		ok := want == nil
		for _, n := range s.at(v, p) {
			ok = ok || want(n)
		}
		if ok && (len(p) > 0 || allowEmpty) {
			return append([]string(nil), p...)
		}
	}
	p := s.freshPath(t, v, allowEmpty, want)
	s.used[v] = append(s.used[v], p)
	return p
}

func (s *scope) freshPath(t *T, v int, allowEmpty bool, want func(*Node) bool) []string {
	ps := s.pathsOf(v)
	var cand [][]string
	for _, p := range ps {
		if len(p) == 0 && !allowEmpty {
			continue
		}
		if want != nil {
			ok := false
			for _, n := range s.at(v, p) {
				ok = ok || want(n)
			}
			if !ok {
				continue
			}
		}
		cand = append(cand, p)
	}
	var p []string
	if len(cand) > 0 && !P(t, 15) {
		p = append([]string(nil), cand[N(t, len(cand))]...)
		if P(t, 8) { // leave the known path
			switch N(t, 3) {
			case 0:
				p = append(p, drawElem(t))
			case 1:
				if len(p) > 1 {
					p = p[:len(p)-1]
				}
			default:
				if len(p) > 0 {
					p[N(t, len(p))] = drawElem(t)
				}
			}
		}
	} else {
		n := 1 + N(t, 3)
		for i := 0; i < n; i++ {
			p = append(p, drawElem(t))
		}
	}
	if len(p) == 0 && !allowEmpty {
		p = []string{drawElem(t)}
	}
	return p
}

func (s *scope) drawVar(t *T) int {
	// the innermost variable is the likely one
	if len(s.vars) > 1 && !P(t, 30) {
		return s.vars[len(s.vars)-1]
	}
	return s.vars[N(t, len(s.vars))]
}

// LitOfNode writes a document value as a literal; ok is false for containers.
func LitOfNode(t *T, n *Node, goLits bool) (*Lit, bool) {
	switch n.K {
	case 'n':
		return &Lit{T: "null"}, true
	case 't':
		return &Lit{T: "true"}, true
	case 'f':
		return &Lit{T: "false"}, true
	case 's':
		return &Lit{T: "str", V: n.Str}, true
	case '#':
		return litOfNum(t, CVOfNumText(n.Num), goLits), true
	}
	return nil, false
}

func litOfNum(t *T, v CV, goLits bool) *Lit {
	fl := func() *Lit { return &Lit{T: "float64", V: strconv.FormatFloat(v.Float(), 'g', -1, 64)} }
	if !goLits {
		return fl()
	}
	if v.T == TFloat {
		if f := float64(float32(v.F)); f == v.F && N(t, 5) == 4 {
			return &Lit{T: "float32", V: strconv.FormatFloat(v.F, 'g', -1, 32)}
		}
		if v.F == math.Trunc(v.F) && math.Abs(v.F) < 1e15 && N(t, 3) == 2 {
			return &Lit{T: "int64", V: strconv.FormatInt(int64(v.F), 10)}
		}
		return fl()
	}
	b := v.Big()
	switch N(t, 6) {
	case 1:
		if b.IsUint64() {
			return &Lit{T: "uint64", V: b.String()}
		}
	case 2:
		if exactFloat(v) {
			return fl()
		}
	case 3:
		if b.IsInt64() {
			i := b.Int64()
			for _, x := range []struct {
				n      string
				lo, hi int64
			}{{"int8", -128, 127}, {"uint8", 0, 255}, {"int16", -32768, 32767}, {"uint16", 0, 65535}, {"int32", -1 << 31, 1<<31 - 1}, {"uint32", 0, 1<<32 - 1}} {
				if i >= x.lo && i <= x.hi && N(t, 3) != 0 {
					return &Lit{T: x.n, V: b.String()}
				}
			}
		}
	case 4:
		if b.IsUint64() {
			return &Lit{T: "uint", V: b.String()}
		}
		return &Lit{T: "int64", V: b.String()}
	}
	if b.IsInt64() {
		return &Lit{T: Pick(t, "int", "int64"), V: b.String()}
	}
	return &Lit{T: "uint64", V: b.String()}
}

// DrawLit draws a literal near the sample value if there is one.
func DrawLit(t *T, sample *Node, goLits bool) *Lit {
	if sample != nil && !P(t, 20) {
		if l, ok := LitOfNode(t, sample, goLits); ok {
			if P(t, 40) {
				return nearLit(t, l)
			}
			return l
		}
	}
	l, _ := LitOfNode(t, DrawScalar(t), goLits)
	return l
}

func nearLit(t *T, l *Lit) *Lit {
	switch {
	case l.T == "str":
		s := l.V
		switch N(t, 4) {
		case 0:
			s += string(DrawRune(t))
		case 1:
			if len(s) > 0 {
				r := []rune(s)
				s = string(r[:len(r)-1])
			}
		case 2:
			r := []rune(s)
			if len(r) > 0 {
				r[N(t, len(r))] = DrawRune(t)
				s = string(r)
			}
		default:
			s = strings.ToUpper(s)
		}
		return &Lit{T: "str", V: s}
	case l.T == "float64":
		f, _ := strconv.ParseFloat(l.V, 64)
		f += []float64{1, -1, 0.5, -0.5, 1e-6, -1e-6, 2e-7, -2e-7}[N(t, 8)]
		return &Lit{T: "float64", V: strconv.FormatFloat(f, 'g', -1, 64)}
	case l.T == "int" || l.T == "int64":
		i, _ := strconv.ParseInt(l.V, 10, 64)
		i += int64(N(t, 2)*2 - 1)
		return &Lit{T: l.T, V: strconv.FormatInt(i, 10)}
	case l.T == "uint64":
		i, _ := strconv.ParseUint(l.V, 10, 64)
		i += uint64(N(t, 2)*2) - 1
		return &Lit{T: l.T, V: strconv.FormatUint(i, 10)}
	case l.T == "true":
		return &Lit{T: "false"}
	case l.T == "false":
		return &Lit{T: "true"}
	}
	return l
}

var timePool = []string{"2019-03-04", "2019", "2019-03", "2019-03-04T00:00:00Z", "2019-03-04T01:00:00+01:00", "2020-02-29T23:59:59.5-08:00", "1999-12-31", "2019-03-04T00:00:00.000000001Z"}

// Cmps are the comparison operators.
var Cmps = []string{"eq", "lt", "gt", "ne", "le", "ge"}

func isContainer(n *Node) bool { return n.K == 'a' || n.K == 'o' }

func (o GenOpt) field(t *T, s *scope, want func(*Node) bool) *Operand {
	v := s.drawVar(t)
	p := s.drawPath(t, v, v != 0 || o.Root, want)
	return &Operand{K: "field", Root: v, Path: p}
}

func (s *scope) sampleOf(t *T, f *Operand) *Node {
	ns := s.at(f.Root, f.Path)
	if len(ns) == 0 {
		return nil
	}
	return ns[N(t, len(ns))]
}

func (o GenOpt) leaf(t *T, s *scope) *E {
	kind := Weighted(t, 10, 3, 2, 3, boolInt(o.Const), 2*boolInt(o.Like), 3*boolInt(o.Funcs))
	switch kind {
	case 1:
		return &E{Op: "exists", L: o.field(t, s, nil)}
	case 2:
		return &E{Op: "missing", L: o.field(t, s, nil)}
	case 3:
		if o.NoFields {
			break
		}
		want := func(n *Node) bool { return !isContainer(n) }
		if !o.NoRaw && N(t, 5) == 4 {
			want = nil
		}
		a := o.field(t, s, want)
		var b *Operand
		if sm := s.sampleOf(t, a); sm != nil && B(t) {
			cv := CVOfNode(sm)
			b = o.field(t, s, func(n *Node) bool {
				return n != sm && n.K == sm.K && (isContainer(n) || Compare(CVOfNode(n), cv).R == 0)
			})
		} else {
			b = o.field(t, s, want)
		}
		return &E{Op: Cmps[N(t, 6)], L: a, R: b}
	case 4:
		return &E{Op: Pick(t, "true", "false")}
	case 5:
		f := o.field(t, s, func(n *Node) bool { return n.K == 's' })
		str := "a"
		if sm := s.sampleOf(t, f); sm != nil && sm.K == 's' {
			str = sm.Str
		}
		return &E{Op: "like", L: f, Re: DrawRegex(t, str)}
	case 6:
		return o.funcLeaf(t, s)
	}
	f := o.field(t, s, func(n *Node) bool { return !isContainer(n) })
	sm := s.sampleOf(t, f)
	var r *Operand
	if o.Time && (sm != nil && sm.K == 's' && looksTime(sm.Str) || N(t, 12) == 11) {
		str := timePool[N(t, len(timePool))]
		if sm != nil && sm.K == 's' && B(t) {
			if _, ok := ParseTime(sm.Str); ok {
				str = sm.Str
			}
		}
		r = &Operand{K: "time", S: str}
	} else {
		r = &Operand{K: "lit", Lit: DrawLit(t, sm, o.GoLits)}
	}
	e := &E{Op: Cmps[N(t, 6)], L: f, R: r}
	if P(t, 12) {
		e.L, e.R = e.R, e.L
	}
	return e
}

func looksTime(s string) bool { _, ok := ParseTime(s); return ok }

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// funcLeaf draws a comparison with a function, mostly of one field.
func (o GenOpt) funcLeaf(t *T, s *scope) *E {
	f := o.field(t, s, func(n *Node) bool { return n.K == '#' })
	used := false
	var mk func(d int) *Operand
	mk = func(d int) *Operand {
		if d == 0 {
			if !used {
				used = true
				return f
			}
			if P(t, 12) {
				return o.field(t, s, func(n *Node) bool { return n.K == '#' })
			}
			l, _ := LitOfNode(t, &Node{K: '#', Num: DrawNumText(t)}, o.GoLits)
			return &Operand{K: "lit", Lit: l}
		}
		if N(t, 2) == 0 {
			return &Operand{K: "func", Fn: Fn1Names[N(t, 5)], Args: []*Operand{mk(d - 1)}}
		}
		a := mk(d - 1)
		return &Operand{K: "func", Fn: Fn2Names[N(t, 5)], Args: []*Operand{a, mk(0)}}
	}
	fn := mk(1 + N(t, 2))
	l, _ := LitOfNode(t, &Node{K: '#', Num: DrawNumText(t)}, o.GoLits)
	if sm := s.sampleOf(t, f); sm != nil && sm.K == '#' && B(t) {
		// a literal near the function's value
		ev := &Ev{}
		env := Env{}
		for _, v := range s.vars {
			if len(s.samples[v]) > 0 {
				env[v] = s.samples[v][0]
			}
		}
		if env[f.Root] != nil && allBound(fn, env) {
			if v, m := ev.Value(fn, env); !m && v.num() && !(v.T == TFloat && (math.IsNaN(v.F) || math.IsInf(v.F, 0))) {
				l = litOfNum(t, v, o.GoLits)
			}
		}
	}
	e := &E{Op: Cmps[N(t, 6)], L: fn, R: &Operand{K: "lit", Lit: l}}
	if P(t, 12) {
		used = P(t, 30)
		f = o.field(t, s, func(n *Node) bool { return n.K == '#' })
		e.R = mk(N(t, 2))
	}
	if P(t, 15) {
		e.L, e.R = e.R, e.L
	}
	return e
}

func (o GenOpt) expr(t *T, s *scope, depth int) *E {
	if depth <= 0 {
		return o.leaf(t, s)
	}
	loopW := 0
	if o.Loops && s.depth < 3 {
		loopW = 4
		if s.depth > 0 {
			loopW = 2
		}
	}
	switch Weighted(t, 3, 4, 4, 2, loopW) {
	case 1, 2:
		op := Pick(t, "and", "or")
		n := 2 + N(t, max(1, o.MaxKids-1))
		if P(t, 5) {
			n = 1
		}
		e := &E{Op: op}
		for i := 0; i < n; i++ {
			e.Kids = append(e.Kids, o.expr(t, s, depth-1-N(t, 2)))
		}
		return e
	case 3:
		return &E{Op: "not", Kids: []*E{o.expr(t, s, depth-1)}}
	case 4:
		return o.loop(t, s, depth)
	}
	return o.leaf(t, s)
}

func (o GenOpt) loop(t *T, s *scope, depth int) *E {
	return o.loopOver(t, s, o.field(t, s, func(n *Node) bool { return n.K == 'a' }), depth)
}

func (o GenOpt) loopOver(t *T, s *scope, in *Operand, depth int) *E {
	var elems []*Node
	for _, a := range s.at(in.Root, in.Path) {
		elems = append(elems, a.Arr...)
	}
	if len(elems) > 6 {
		elems = elems[:6]
	}
	v := len(s.vars) + N(t, 2)*5
	for contains(s.vars, v) {
		v++
	}
	if o.Shadow && len(s.vars) > 1 && N(t, 12) == 11 {
		v = s.vars[1+N(t, len(s.vars)-1)]
	}
	return &E{Op: Pick(t, "any", "every", "anyevery"), Var: v, In: in, Kids: []*E{o.expr(t, s.with(v, elems), depth-1)}}
}

// allBound says whether every field of the operand has a root in the environment.
func allBound(o *Operand, env Env) bool {
	if o.K == "field" {
		return env[o.Root] != nil
	}
	for _, a := range o.Args {
		if !allBound(a, env) {
			return false
		}
	}
	return true
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// DrawExpr draws a condition over the documents.
func (o GenOpt) DrawExpr(t *T, docs ...*Node) *E {
	return o.expr(t, newScope(docs), N(t, o.Depth+1))
}

// DrawLoop draws a condition that contains a loop near the top.
func (o GenOpt) DrawLoop(t *T, docs ...*Node) *E {
	s := newScope(docs)
	l := o.loop(t, s, 1+N(t, o.Depth))
	switch N(t, 5) {
	case 4: // several loops, mostly over one array
		e := &E{Op: Pick(t, "and", "or"), Kids: []*E{l}}
		for i := 1 + N(t, 3); i > 0; i-- {
			if P(t, 60) {
				e.Kids = append(e.Kids, o.loopOver(t, s, l.In, 1+N(t, 2)))
			} else {
				e.Kids = append(e.Kids, o.expr(t, s, 2))
			}
		}
		return e
	case 1:
		return &E{Op: "not", Kids: []*E{l}}
	case 2:
		e := &E{Op: Pick(t, "and", "or"), Kids: []*E{l, o.expr(t, s, N(t, 2))}}
		if B(t) {
			e.Kids[0], e.Kids[1] = e.Kids[1], e.Kids[0]
		}
		return e
	}
	return l
}

// DrawRegex draws a Go regular expression, often one matching the string.
func DrawRegex(t *T, s string) string {
	switch N(t, 6) {
	case 0:
		return quoteMeta(substr(t, s))
	case 1:
		return "^" + quoteMeta(substr(t, s))
	case 2:
		return quoteMeta(substr(t, s)) + "$"
	case 3:
		return "^" + quoteMeta(s) + "$"
	case 4:
		return regexPool[N(t, len(regexPool))]
	default:
		return quoteMeta(substr(t, s)) + regexPool[N(t, len(regexPool))]
	}
}

var regexPool = []string{".", "^.$", "^$", "[a-c]+", "^..$", "(?i)A", "a|b", "x*", "\\d", "\\w+", "[^a]", "\"", "\\\\", "(ab)+", "é", "[[:alpha:]]", "^[\\x00-\\x1f]", "a{2,}", "\\bab\\b", "(?s).\\n?", "\\x{1F600}", "\\p{L}"}

func substr(t *T, s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return ""
	}
	a := N(t, len(r))
	b := a + 1 + N(t, min(len(r)-a, 5))
	if b > len(r) {
		b = len(r)
	}
	return string(r[a:b])
}

func quoteMeta(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}
