package gojsonsm_test

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Parallel is a definition used by several goroutines at once.
type Parallel struct {
	Es     []*vh.E
	Docs   []string
	Orders [][]int // per goroutine: the documents it matches, in order
	Rounds int
	Late   bool // matchers are created inside the goroutines
}

// unusual adds a long array, a name and a string to the documents that earlier
// cases of the same process have hardly had, and conditions on them.
func unusual(t *vh.T, es []*vh.E, docs []string) ([]*vh.E, []string) {
	n := vh.N(t, []int{10, 100, 300, 1500}[vh.Weighted(t, 12, 6, 3, 1)])
	name := fmt.Sprintf("u%x", vh.Bits64(t)&0xffffff)
	str := vh.DrawString(t) + name
	member := `"` + name + `":` + vh.EncodeString(t, str, true) + `,"pad":[` + strings.Repeat("0,", n) + `1]`
	var out []string
	for _, d := range docs {
		i := strings.IndexByte(d, '{')
		if i < 0 {
			out = append(out, d)
			continue
		}
		sep := ","
		if strings.HasPrefix(strings.TrimSpace(d[i+1:]), "}") {
			sep = ""
		}
		out = append(out, d[:i+1]+member+sep+d[i+1:])
	}
	i := n
	if vh.P(t, 30) {
		i = vh.N(t, n+2)
	}
	one := &vh.Operand{K: "lit", Lit: &vh.Lit{T: "int", V: "1"}}
	word := &vh.Operand{K: "lit", Lit: &vh.Lit{T: "str", V: str}}
	extra := []*vh.E{
		{Op: "eq", L: vh.Field(0, "pad", "["+strconv.Itoa(i)+"]"), R: one},
		{Op: vh.Pick(t, "eq", "le"), L: vh.Field(0, name), R: word},
		{Op: "like", L: vh.Field(0, name), Re: name + "$"},
		{Op: "any", Var: 90, In: vh.Field(0, "pad"), Kids: []*vh.E{{Op: "eq", L: vh.Field(90), R: one}}},
	}
	for k := 1 + vh.N(t, 3); k > 0; k-- {
		es = append(es, extra[vh.N(t, len(extra))])
	}
	return es, out
}

// Job is some work with the package that one goroutine does on its own.
type Job struct {
	Kind string // filter simple json tree remove
	Text string
	Es   []*vh.E
	Docs []string
	Keys []string
}

func matchAll(m gojsonsm.Matcher, docs []string) string {
	var b strings.Builder
	for _, d := range docs {
		m.Reset()
		ok, err := m.Match(buf(d))
		fmt.Fprintf(&b, " %v/%v", ok, err)
	}
	return b.String()
}

func (j Job) run() string {
	switch j.Kind {
	case "filter":
		m, err := gojsonsm.GetFilterExpressionMatcher(j.Text)
		if err != nil {
			return "error " + err.Error()
		}
		return matchAll(m, j.Docs)
	case "simple":
		m, err := simpleMatcher(j.Text)
		if err != nil {
			return "error " + err.Error()
		}
		return matchAll(m, j.Docs)
	case "json":
		e, err := gojsonsm.ParseJsonExpression([]byte(j.Text))
		if err != nil {
			return "error " + err.Error()
		}
		var tr gojsonsm.Transformer
		return e.String() + matchAll(gojsonsm.NewFastMatcher(tr.Transform([]gojsonsm.Expression{e})), j.Docs)
	case "tree":
		es := convAll(j.Es)
		var st gojsonsm.ExpressionStats
		var tr gojsonsm.Transformer
		out := ""
		for _, e := range es {
			err := st.Scan(e)
			out += fmt.Sprintf("%v %v %v;", err, st.String(), e)
		}
		def := tr.Transform(es)
		return out + def.String() + matchAll(gojsonsm.NewFastMatcher(def), j.Docs)
	case "remove":
		out := ""
		for _, d := range j.Docs {
			dst, removed := make([]byte, len(d)), map[string][]byte{}
			n, k, left, err := gojsonsm.MatchAndRemoveItemsFromJsonObject(buf(d), j.Keys, dst, removed)
			out += fmt.Sprintf("%q %d %v %v %q;", dst[:max(0, min(n, len(dst)))], k, left, err, removed)
		}
		return out
	}
	panic("HARNESS: job " + j.Kind)
}

// Pipelines is work for several goroutines that share nothing.
type Pipelines struct {
	Jobs   []Job
	Orders [][]int
}

func TestC05_pipelines(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 3}
	vh.Run(t, vh.Spec[Pipelines]{
		Prop: "C05", Name: "pipelines", Cases: 1600,
		Rule: "at least two goroutines do two jobs or more and some text is accepted",
		Gen: func(t *vh.T) Pipelines {
			base := drawLoopDoc(t)
			if len(base.Keys) > 6 {
				base.Keys, base.Vals = base.Keys[:6], base.Vals[:6]
			}
			var p Pipelines
			for n := 2 + vh.N(t, 4); n > 0; n-- {
				var j Job
				j.Docs = drawDocs(t, base, 2)
				j.Kind = vh.Pick(t, "filter", "simple", "json", "tree", "remove")
				switch j.Kind {
				case "filter":
					j.Text, _ = vh.DrawFilter(t, base)
				case "simple":
					j.Text, _ = vh.DrawSimple(t, base)
				case "json":
					_, j.Text = drawJsonExpr(t, base)
				case "tree":
					j.Es = drawList(t, opt, base, 3)
					if vh.P(t, 30) {
						j.Es, j.Docs = unusual(t, j.Es, j.Docs)
					}
				case "remove":
					j.Keys = drawRemoveKeys(t, base.Keys)
				}
				if j.Text != "" && vh.P(t, 15) {
					j.Text = vh.MutateText(t, j.Text, vh.FilterVocab)
				}
				p.Jobs = append(p.Jobs, j)
			}
			for g := 2 + vh.N(t, 4); g > 0; g-- {
				p.Orders = append(p.Orders, vh.Perm(t, len(p.Jobs)))
			}
			return p
		},
		Check: func(c *vh.Ctx, p Pipelines) error {
			gots := make([][]string, len(p.Orders))
			errs := make([]error, len(p.Orders))
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range p.Orders {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[g] = errf("goroutine %d panics: %v", g, r)
						}
					}()
					<-start
					for _, j := range p.Orders[g] {
						gots[g] = append(gots[g], p.Jobs[j].run())
					}
				}(g)
			}
			close(start)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			accepted := false
			for k, j := range p.Jobs {
				want := j.run()
				accepted = accepted || j.Text != "" && !strings.HasPrefix(want, "error")
				c.Label(j.Kind)
				for g := range p.Orders {
					for i, o := range p.Orders[g] {
						if o == k && gots[g][i] != want {
							return errf("goroutine %d gets\n%s\n alone it is\n%s\n job %+v", g, short(gots[g][i]), short(want), j)
						}
					}
				}
			}
			c.NonTrivial(accepted && len(p.Jobs) > 1)
			return nil
		},
	})
}

func TestC05_parallel(t *testing.T) {
	opt := vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 4}
	vh.Run(t, vh.Spec[Parallel]{
		Prop: "C05", Name: "parallel", Cases: 36000,
		Rule: "at least two goroutines match at least two documents each and some comparison saw a present field",
		Gen: func(t *vh.T) Parallel {
			base := drawLoopDoc(t)
			p := Parallel{Es: drawList(t, opt, base, 4), Rounds: 1 + vh.N(t, 4), Late: vh.B(t)}
			p.Docs = drawDocs(t, base, 4)
			if vh.P(t, 15) {
				p.Es, p.Docs = unusual(t, p.Es, p.Docs)
			}
			if vh.P(t, 15) {
				p.Docs = append(p.Docs, string(mutateBytes(t, []byte(p.Docs[0]))))
			}
			g := 2 + vh.N(t, 5)
			for i := 0; i < g; i++ {
				p.Orders = append(p.Orders, vh.Perm(t, len(p.Docs)))
			}
			return p
		},
		Check: func(c *vh.Ctx, p Parallel) error {
			// the goroutines come first: nothing of this document has been seen by the process before
			def := compile(p.Es...)
			shared := make([][]byte, len(p.Docs))
			for i, d := range p.Docs {
				shared[i] = buf(d)
			}
			var ms []*gojsonsm.FastMatcher
			for range p.Orders {
				ms = append(ms, gojsonsm.NewFastMatcher(def))
			}
			errs := make([]error, len(p.Orders))
			gots := make([][]outcome, len(p.Orders))
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range p.Orders {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[g] = errf("goroutine %d panics: %v", g, r)
						}
					}()
					<-start
					m := ms[g]
					if p.Late {
						m = gojsonsm.NewFastMatcher(def)
					}
					first := true
					for r := 0; r < p.Rounds; r++ {
						for _, d := range p.Orders[g] {
							if !first {
								m.Reset()
							}
							first = false
							gots[g] = append(gots[g], observe(m, shared[d], len(p.Es), "status"))
						}
					}
				}(g)
			}
			close(start)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			ref := compile(p.Es...)
			wants := make([]outcome, len(p.Docs))
			for i, d := range p.Docs {
				wants[i] = observe(gojsonsm.NewFastMatcher(ref), buf(d), len(p.Es), "status")
			}
			for g := range p.Orders {
				for i, got := range gots[g] {
					d := p.Orders[g][i%len(p.Docs)]
					if !reflect.DeepEqual(got, wants[d]) {
						return errf("goroutine %d: %+v, sequentially %+v\n doc %s\n exprs %v", g, got, wants[d], short(p.Docs[d]), p.Es)
					}
				}
			}
			present := false
			for _, d := range p.Docs {
				n, err := vh.ParseJSON(d)
				if err != nil {
					c.Label("malformed-document")
					continue
				}
				for _, e := range p.Es {
					_, ev := vh.EvalDoc(e, n)
					present = present || ev.Exec > 0
				}
			}
			for _, e := range p.Es {
				shapeLabels(c, e)
				c.LabelIf(loopDepth(e) > 0, "loop")
			}
			c.LabelIf(p.Late, "matcher-created-in-goroutine")
			c.NonTrivial(present && len(p.Docs) > 1)
			return nil
		},
	})
}
