package gojsonsm_test

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Step is one call in a history.
type Step struct {
	M      int    // matcher
	Op     string // match status noreset(a Match without a preceding Reset) reset
	Doc    []byte
	Resets int // how many resets precede it
}

// History is a sequence of calls on matchers that share a definition.
type History struct {
	Es    []*vh.E
	N     int
	Steps []Step
	Reuse bool // all documents are read into one buffer, which is overwritten after each call
}

// MutateBytes damages the text.
func mutateBytes(t *vh.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	k := 1 + vh.N(t, 3)
	for i := 0; i < k; i++ {
		switch vh.N(t, 6) {
		case 0:
			if len(b) > 0 {
				b = b[:vh.N(t, len(b))]
			}
		case 1:
			if len(b) > 0 {
				p := vh.N(t, len(b))
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2:
			p := vh.N(t, len(b)+1)
			ins := tokenSoup[vh.N(t, len(tokenSoup))]
			b = append(b[:p:p], append([]byte(ins), b[p:]...)...)
		case 3:
			if len(b) > 0 {
				b[vh.N(t, len(b))] = `{}[]",:0-e\tnu `[vh.N(t, 15)]
			}
		case 4:
			if len(b) > 0 {
				b[vh.N(t, len(b))] = byte(vh.N(t, 256))
			}
		default:
			if len(b) > 1 {
				p := vh.N(t, len(b))
				q := p + vh.N(t, len(b)-p)
				seg := append([]byte(nil), b[p:q]...)
				r := vh.N(t, len(b)+1)
				b = append(b[:r:r], append(seg, b[r:]...)...)
			}
		}
	}
	return b
}

var tokenSoup = []string{"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "1", "-", "1.", "0.5e", "e", "\\", "\\u", "\"\\u12\"", "true", "tru", "null", "nul", "false",
	" ", "\n", "\x00", "\xff", "{}", "[]", "\"a\":", "{\"a\":", "[1,", "01", "--1", "/", "'", "NaN", "+1", ".5", "\"\\x\"", "\"\n\"", "\xef\xbb\xbf", "é", "\"b\":1,"}

type outcome struct {
	ok     bool
	status int
	err    bool
	each   []bool
}

func observe(m *gojsonsm.FastMatcher, doc []byte, n int, op string) (o outcome) {
	var err error
	if op == "status" {
		o.ok, o.status, err = m.MatchWithStatus(doc)
	} else {
		o.ok, err = m.Match(doc)
	}
	o.err = err != nil
	if !o.err {
		for i := 0; i < n; i++ {
			o.each = append(o.each, m.ExpressionMatched(i))
		}
	} else {
		o.status = 0
		o.ok = false
	}
	return
}

// drawHistory draws a history of calls with these documents or mutilated ones.
func drawHistory(t *vh.T, es []*vh.E, docs []string) History {
	h := History{Es: es, N: 1 + vh.N(t, 3)}
	var pool [][]byte
	for _, d := range docs {
		pool = append(pool, []byte(d))
		if vh.P(t, 40) {
			pool = append(pool, mutateBytes(t, []byte(d)))
		}
		if vh.P(t, 25) && len(d) > 0 {
			pool = append(pool, []byte(d[:vh.N(t, len(d))]))
		}
	}
	if vh.P(t, 5) {
		pool = append(pool, []byte{})
	}
	h.Reuse = vh.B(t)
	k := 2 + vh.N(t, 7)
	for i := 0; i < k; i++ {
		h.Steps = append(h.Steps, Step{M: vh.N(t, h.N), Op: vh.Pick(t, "match", "status", "status", "noreset"),
			Doc: pool[vh.N(t, len(pool))], Resets: 1 + vh.N(t, 2)})
	}
	return h
}

func TestC04_reset(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 3}
	runResets(t, "reset", 260000, func(t *vh.T) History {
		base := drawLoopDoc(t)
		es := drawList(t, opt, base, 3)
		return drawHistory(t, es, drawDocs(t, base, 4))
	})
}

// TestC04_wide: expressions with dozens of conditions that compare fields with fields.
func TestC04_wide(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Funcs: true, MaxKids: 8}
	runResets(t, "wide", 30000, func(t *vh.T) History {
		if vh.P(t, 20) {
			base := vh.DrawWideDoc(t)
			es := drawList(t, opt, base, 8)
			return drawHistory(t, es, drawDocs(t, base, 3))
		}
		w := 4 + vh.N(t, 20)
		key := func() string { return "k" + strconv.Itoa(vh.N(t, w)) }
		var es []*vh.E
		top := vh.Pick(t, "and", "or", "list")
		for k := 4 + vh.N(t, 30); k > 0; k-- {
			e := &vh.E{Op: vh.Pick(t, vh.Cmps...), L: vh.Field(0, key()), R: vh.Field(0, key())}
			if vh.P(t, 20) {
				e = &vh.E{Op: "not", Kids: []*vh.E{e}}
			}
			es = append(es, e)
		}
		if top != "list" {
			es = []*vh.E{{Op: top, Kids: es}}
		}
		var docs []string
		for k := 2 + vh.N(t, 3); k > 0; k-- {
			o := &vh.Node{K: 'o'}
			present := vh.Pick(t, 100, 90, 60)
			for i := 0; i < w; i++ {
				if vh.P(t, present) {
					o.Keys = append(o.Keys, "k"+strconv.Itoa(i))
					o.Vals = append(o.Vals, &vh.Node{K: '#', Num: vh.Pick(t, "1", "1", "2")})
				}
			}
			docs = append(docs, vh.Plain(o))
		}
		return drawHistory(t, es, docs)
	})
}

func runResets(t *testing.T, name string, cases int, gen func(t *vh.T) History) {
	vh.Run(t, vh.Spec[History]{
		Prop: "C04", Name: name, Cases: cases,
		Rule: "some matcher processes two or more documents with different outcomes, or a malformed one and then another",
		Gen:  gen,
		Check: func(c *vh.Ctx, h History) error {
			exprs := convAll(h.Es)
			before := convAll(h.Es)
			var tr gojsonsm.Transformer
			def := tr.Transform(exprs)
			defText := def.String()
			ref := compile(h.Es...) // compiled separately, one matcher per call
			ms := make([]*gojsonsm.FastMatcher, h.N)
			fresh := make([]bool, h.N)
			type seen struct {
				outs map[string]bool
				bad  bool
				n    int
			}
			hist := make([]seen, h.N)
			for i := range ms {
				ms[i] = gojsonsm.NewFastMatcher(def)
				fresh[i] = true
				hist[i].outs = map[string]bool{}
			}
			nt := false
			size := 0
			for _, s := range h.Steps {
				size = max(size, len(s.Doc))
			}
			shared := make([]byte, size)
			for i, s := range h.Steps {
				m := ms[s.M]
				doc := buf(string(s.Doc))
				if h.Reuse {
					doc = shared[:copy(shared, s.Doc)]
				}
				if s.Op == "noreset" && !fresh[s.M] {
					// nothing is promised without a reset, but it must not spoil what follows one
					func() {
						defer func() { _ = recover() }()
						_, _ = m.Match(doc)
					}()
					continue
				}
				if !fresh[s.M] {
					for k := 0; k < s.Resets; k++ {
						m.Reset()
					}
					idle := gojsonsm.NewFastMatcher(ref)
					for k := range h.Es {
						if m.ExpressionMatched(k) != idle.ExpressionMatched(k) {
							return errf("step %d: after Reset ExpressionMatched(%d) gives %v, a new matcher %v\n exprs %v", i, k, m.ExpressionMatched(k), idle.ExpressionMatched(k), h.Es)
						}
					}
				}
				fresh[s.M] = false
				got := observe(m, doc, len(h.Es), s.Op)
				want := observe(gojsonsm.NewFastMatcher(ref), buf(string(s.Doc)), len(h.Es), s.Op)
				if !reflect.DeepEqual(got, want) {
					return errf("step %d: a reset matcher gives %+v, a new one %+v\n doc %q\n exprs %v", i, got, want, s.Doc, h.Es)
				}
				if !bytes.Equal(doc, s.Doc) {
					return errf("step %d: matching changed the document\n before %q\n after  %q", i, s.Doc, doc)
				}
				if h.Reuse {
					for k := range doc {
						doc[k] = "\"[{1"[k%4]
					}
					for k, w := range want.each {
						if m.ExpressionMatched(k) != w {
							return errf("step %d: ExpressionMatched(%d) changes when the document's buffer is reused\n doc %q\n exprs %v", i, k, s.Doc, h.Es)
						}
					}
				}
				k := fmt.Sprint(want)
				hs := &hist[s.M]
				nt = nt || hs.n > 0 && (hs.bad || !hs.outs[k])
				c.LabelIf(hs.bad && hs.n > 0, "after-malformed")
				hs.outs[k] = true
				hs.bad = hs.bad || want.err
				hs.n++
				c.LabelIf(want.err, "malformed")
				c.LabelIf(want.status != 0, "status-set")
				c.LabelIf(want.ok, "true")
			}
			if def.String() != defText {
				return errf("matching changed the definition\n exprs %v", h.Es)
			}
			if !reflect.DeepEqual(exprs, before) {
				return errf("compiling or matching changed the expressions %v", h.Es)
			}
			c.LabelIf(h.N > 1, "several-matchers")
			c.LabelIf(h.Reuse, "one-buffer")
			c.NonTrivial(nt)
			return nil
		},
	})
}

// Reused is a matcher that is used and reset many times.
type Reused struct {
	Es   []*vh.E
	Docs [][]byte
	Runs [][2]int // document, how many times in a row
}

// TestC04_many: one matcher, reset hundreds of times and more; every single result
// is that of a new one.
func TestC04_many(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Like: true, GoLits: true, Funcs: true, MaxKids: 3}
	vh.Run(t, vh.Spec[Reused]{
		Prop: "C04", Name: "many", Cases: 4000,
		Rule: "the matcher is reset more than 100 times and the documents' outcomes differ",
		Gen: func(t *vh.T) Reused {
			base := drawLoopDoc(t)
			x := Reused{Es: drawList(t, opt, base, 3)}
			for _, d := range drawDocs(t, base, 3) {
				x.Docs = append(x.Docs, []byte(d))
				if vh.P(t, 30) {
					x.Docs = append(x.Docs, mutateBytes(t, []byte(d)))
				}
			}
			x.Docs = append(x.Docs, []byte(vh.Pick(t, "{}", "[]", `{"zz":1}`, "{", "1")))
			big := vh.N(t, 60) == 59
			for k := 2 + vh.N(t, 6); k > 0; k-- {
				n := vh.Pick(t, 1, 1, 1, 2, 30, 63, 99, 126, 127, 253, 254, 255, 256, 300)
				if big {
					n = vh.Pick(t, 1, 65534, 65535, 65533)
					big = n < 2
				}
				d := vh.N(t, len(x.Docs))
				if n > 2 && vh.B(t) {
					d = len(x.Docs) - 1
				}
				x.Runs = append(x.Runs, [2]int{d, n})
			}
			return x
		},
		Check: func(c *vh.Ctx, x Reused) error {
			def := compile(x.Es...)
			m := gojsonsm.NewFastMatcher(def)
			wants := make([]*outcome, len(x.Docs))
			outs := map[string]bool{}
			n := 0
			for _, r := range x.Runs {
				if wants[r[0]] == nil {
					o := observe(gojsonsm.NewFastMatcher(compile(x.Es...)), buf(string(x.Docs[r[0]])), len(x.Es), "status")
					wants[r[0]] = &o
					outs[fmt.Sprint(o)] = true
				}
				doc := buf(string(x.Docs[r[0]]))
				for k := 0; k < r[1]; k++ {
					if n > 0 {
						m.Reset()
					}
					n++
					if got := observe(m, doc, len(x.Es), "status"); !reflect.DeepEqual(got, *wants[r[0]]) {
						return errf("match %d: a matcher that was reset gives %+v, a new one %+v\n doc %q\n exprs %v", n, got, *wants[r[0]], x.Docs[r[0]], x.Es)
					}
				}
			}
			c.LabelIf(n > 256, "over-256-resets")
			c.LabelIf(n > 65536, "over-65536-resets")
			c.NonTrivial(n > 100 && len(outs) > 1)
			return nil
		},
	})
}
