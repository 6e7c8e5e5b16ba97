package gojsonsm_test

import (
	"bytes"
	"reflect"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

var allOps = vh.GenOpt{Depth: 2, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 3, Root: true}

// drawListOf draws 1..max expressions over the document.
func drawAnyDoc(t *vh.T) *vh.Node {
	switch vh.Weighted(t, 5, 4, 1) {
	case 0:
		return vh.DrawDoc(t)
	case 1:
		return drawLoopDoc(t)
	}
	return vh.DrawValue(t, 4)
}

// TestC07_valid: well-formed documents of every kind are accepted, whatever is asked of them.
func TestC07_valid(t *testing.T) {
	vh.Run(t, vh.Spec[ListDocs]{
		Prop: "C07", Name: "valid", Cases: 420000,
		Rule: "the document is an object or array that is not empty",
		Gen: func(t *vh.T) ListDocs {
			base := drawAnyDoc(t)
			x := ListDocs{Es: drawList(t, allOps, base, 2)}
			x.Docs = drawDocs(t, base, 2)
			x.Docs = append(x.Docs, vh.Encode(t, vh.DrawValue(t, 5), vh.DrawStyle(t)))
			return x
		},
		Check: func(c *vh.Ctx, x ListDocs) error {
			def := compile(x.Es...)
			m := gojsonsm.NewFastMatcher(def)
			for i, d := range x.Docs {
				n := mustParse(d)
				if i > 0 {
					m.Reset()
				}
				if _, err := m.Match(buf(d)); err != nil {
					return errf("Match fails on a well-formed document: %v\n doc %s\n exprs %v", err, short(d), x.Es)
				}
				c.NonTrivial(len(n.Arr)+len(n.Keys) > 0)
				c.Label("kind-" + string(n.K))
			}
			return nil
		},
	})
}

// Cut is a document cut off.
type Cut struct {
	E   *vh.E
	Doc string
	At  int
}

// closing completes a prefix of a document in the shortest way, "" if nothing simple does.
func closing(p string) string {
	var stack []byte
	inStr, esc := false, false
	for i := 0; i < len(p); i++ {
		ch := p[i]
		if inStr {
			switch {
			case esc:
				esc = false
			case ch == '\\':
				esc = true
			case ch == '"':
				inStr = false
			}
			continue
		}
		switch ch {
		case '"':
			inStr = true
		case '{', '[':
			stack = append(stack, ch+2)
		case '}', ']':
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		}
	}
	tail := ""
	for i := len(stack) - 1; i >= 0; i-- {
		tail += string(stack[i])
	}
	for _, mid := range []string{"", `"`, `":0`, `:0`, `0`, `"k":0`, `0"`, `\"`, `0":0`, `\":0`, `000"`, `00"`, `000":0`, `00":0`,
		`rue`, `ue`, `e`, `alse`, `lse`, `se`, `ull`, `ll`, `l`, `+0`} {
		if _, err := vh.ParseJSON(p + mid + tail); err == nil {
			return p + mid + tail
		}
	}
	return ""
}

// TestC07_truncated: a result for a truncated document is one that holds for every completion of it.
func TestC07_truncated(t *testing.T) {
	vh.Run(t, vh.Spec[Cut]{
		Prop: "C07", Name: "truncated", Cases: 700000,
		Rule: "the document is cut inside a non-empty object or array",
		Gen: func(t *vh.T) Cut {
			base := vh.DrawDoc(t)
			if vh.B(t) {
				base = drawLoopDoc(t)
			}
			e := vh.GenOpt{Depth: 2, Root: true, Loops: true, Const: true, Like: true, GoLits: true, Funcs: true, Time: true, MaxKids: 3}.DrawExpr(t, base)
			if vh.P(t, 25) {
				base = vh.Mutate(t, base)
			}
			d := vh.Encode(t, base, vh.DrawStyle(t))
			return Cut{E: e, Doc: d, At: vh.N(t, len(d)+1)}
		},
		Check: checkCut,
	})
}

func checkCut(c *vh.Ctx, x Cut) error {
	if x.At > len(x.Doc) {
		x.At = len(x.Doc)
	}
	d := strings.TrimLeft(x.Doc, " \t\r\n")
	if d == "" || d[0] != '{' && d[0] != '[' {
		return nil
	}
	p := x.Doc[:x.At]
	if _, err := vh.ParseJSON(p); err == nil {
		return nil // nothing but white space was lost
	}
	if strings.TrimSpace(p) == "" {
		return nil // not a truncated object or array yet
	}
	m := gojsonsm.NewFastMatcher(compile(x.E))
	got, err := m.Match(buf(p))
	c.NonTrivial(len(p) > 1)
	c.LabelIf(err != nil, "error")
	if err != nil {
		return nil
	}
	c.Label("decided")
	fulls := []string{x.Doc, closing(p)}
	if x.At < len(x.Doc) && p[x.At-1] >= '0' && p[x.At-1] <= '9' && strings.IndexByte("0123456789.eE", x.Doc[x.At]) >= 0 {
		fulls = fulls[1:] // a number that reaches the end of the input counts as complete
		c.Label("inside-number")
	}
	for _, full := range fulls {
		if full == "" {
			c.Label("no-simple-completion")
			continue
		}
		want, ev := vh.EvalDoc(x.E, mustParse(full))
		if ev.Ambig {
			continue
		}
		if got != want {
			return errf("Match gives %v without an error for a truncated document, but the expression is %v of a completion\n prefix %s\n full   %s\n expr %s",
				got, want, short(p), short(full), x.E)
		}
	}
	return nil
}

// TestC07_big: documents of tens of kilobytes, cut anywhere.
func TestC07_big(t *testing.T) {
	vh.Run(t, vh.Spec[Cut]{
		Prop: "C07", Name: "big", Cases: 6000,
		Rule: "the document is cut inside a non-empty object or array",
		Gen: func(t *vh.T) Cut {
			base := vh.DrawDoc(t)
			if vh.B(t) {
				base = drawLoopDoc(t)
			}
			e := vh.GenOpt{Depth: 2, Root: true, Loops: true, Like: true, GoLits: true, Funcs: true, MaxKids: 3}.DrawExpr(t, base)
			d := vh.PadText(t, vh.Encode(t, base, vh.DrawStyle(t)))
			at := len(d) - vh.N(t, min(len(d), 60))
			if vh.P(t, 40) {
				at = vh.N(t, len(d)+1)
			}
			return Cut{E: e, Doc: d, At: at}
		},
		Check: checkCut,
	})
}

// Bytes are arbitrary bytes to be matched.
type Bytes struct {
	Es    []*vh.E
	Data  [][]byte
	After []byte // what lies behind them in memory
}

func drawBytes(t *vh.T, base *vh.Node) []byte {
	d := []byte(vh.Encode(t, base, vh.DrawStyle(t)))
	switch vh.Weighted(t, 5, 3, 1, 1) {
	case 0:
		return mutateBytes(t, d)
	case 1:
		var b []byte
		if vh.B(t) {
			b = append(b, `{"a":`...)
		}
		for k := 1 + vh.N(t, 14); k > 0; k-- {
			b = append(b, tokenSoup[vh.N(t, len(tokenSoup))]...)
		}
		return b
	case 2:
		var b []byte
		for k := vh.N(t, 24); k > 0; k-- {
			b = append(b, byte(vh.N(t, 256)))
		}
		return b
	}
	return d[:vh.N(t, len(d)+1)]
}

func TestC07_bytes(t *testing.T) {
	vh.Run(t, vh.Spec[Bytes]{
		Prop: "C07", Name: "bytes", Cases: 700000,
		Rule: "some input is not well-formed JSON and longer than one byte",
		Gen: func(t *vh.T) Bytes {
			base := drawAnyDoc(t)
			x := Bytes{Es: drawList(t, allOps, base, 2)}
			for k := 1 + vh.N(t, 3); k > 0; k-- {
				x.Data = append(x.Data, drawBytes(t, base))
			}
			x.After = []byte(vh.Pick(t, `"`, `}`, `]`, `,"a":1}`, `0`, `1]}`, `rue`, `ue}`, `\"`, ` `, "null", `:1}`, `e5`))
			return x
		},
		Get: func(x Bytes) []byte { return x.Data[len(x.Data)-1] },
		Set: func(x Bytes, b []byte) Bytes {
			x.Data = append(append([][]byte(nil), x.Data[:len(x.Data)-1]...), b)
			return x
		},
		Check: func(c *vh.Ctx, x Bytes) error {
			def := compile(x.Es...)
			m := gojsonsm.NewFastMatcher(def)
			for i, d := range x.Data {
				if i > 0 {
					m.Reset()
				}
				in := buf(string(d))
				got := observe(m, in, len(x.Es), "status")
				if !bytes.Equal(in, d) {
					return errf("matching changed its input %q to %q", d, in)
				}
				big := append(append([]byte(nil), d...), x.After...)
				sub := observe(gojsonsm.NewFastMatcher(def), big[:len(d)], len(x.Es), "status")
				if !reflect.DeepEqual(got, sub) {
					return errf("the result depends on what lies behind the input or on earlier inputs: %+v, %+v\n input %q behind it %q\n exprs %v", got, sub, d, x.After, x.Es)
				}
				_, err := vh.ParseJSON(string(d))
				c.NonTrivial(err != nil && len(d) > 1)
				c.LabelIf(err != nil, "malformed")
				c.LabelIf(got.err, "error")
				c.LabelIf(err != nil && !got.err, "malformed-but-decided")
				if err == nil && got.err && strings.TrimSpace(string(d)) != "" {
					return errf("an error for well-formed JSON %q\n exprs %v", d, x.Es)
				}
			}
			return nil
		},
	})
}

// Deep is a deeply nested document.
type Deep struct {
	E     *vh.E
	Kinds string // the nesting, one character per level, repeated
	Depth int
	Leaf  string
	Cut   int // closing brackets that are missing
	Extra bool
}

func TestC07_deep(t *testing.T) {
	vh.Run(t, vh.Spec[Deep]{
		Prop: "C07", Name: "deep", Cases: 1600,
		Rule: "nested at least 100 levels",
		Gen: func(t *vh.T) Deep {
			base := mustParse(`{"a":{"a":[[1,{"a":1}]],"b":[{"a":[1]}]},"b":[[{"a":1}]]}`)
			x := Deep{E: allOps.DrawExpr(t, base), Depth: 1 + vh.N(t, 20000), Leaf: vh.Pick(t, "1", `"x"`, "{}", "[]", "null")}
			for k := 1 + vh.N(t, 4); k > 0; k-- {
				x.Kinds += vh.Pick(t, "a", "a", "b", "[", "[")
			}
			if vh.P(t, 30) {
				x.Cut = 1 + vh.N(t, 3)
			}
			x.Extra = vh.P(t, 30)
			return x
		},
		Check: func(c *vh.Ctx, x Deep) error {
			var b, e strings.Builder
			for i := 0; i < x.Depth; i++ {
				if k := x.Kinds[i%len(x.Kinds)]; k == '[' {
					b.WriteString("[")
				} else {
					b.WriteString(`{"` + string(k) + `":`)
				}
			}
			for i := x.Depth - 1; i >= x.Cut; i-- {
				if x.Kinds[i%len(x.Kinds)] == '[' {
					e.WriteString("]")
				} else {
					if x.Extra {
						e.WriteString(`,"c":0`)
					}
					e.WriteString("}")
				}
			}
			doc := b.String() + x.Leaf + e.String()
			_, err := gojsonsm.NewFastMatcher(compile(x.E)).Match(buf(doc))
			c.NonTrivial(x.Depth >= 100)
			c.LabelIf(err != nil, "error")
			if x.Cut == 0 && err != nil {
				return errf("an error for a well-formed document nested %d deep: %v", x.Depth, err)
			}
			return nil
		},
	})
}
