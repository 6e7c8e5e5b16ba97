package gojsonsm_test

import (
	"bytes"
	"errors"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// BadRemoval is any input of the removal of items.
type BadRemoval struct {
	Src   string
	Keys  []string
	Size  int // of the destination, -1 for none
	Kind  string
	NoMap bool
}

// removeAny removes items and checks what holds for every input.
func removeAny(x BadRemoval) (int, error, error) {
	src := buf(x.Src)
	var dst []byte
	guard := func() error { return nil }
	if x.Size >= 0 {
		dst, guard = destination(x.Size)
	}
	removed := map[string][]byte{}
	if x.NoMap {
		removed = nil
	}
	n, count, _, err := gojsonsm.MatchAndRemoveItemsFromJsonObject(src, append([]string(nil), x.Keys...), dst, removed)
	if string(src) != x.Src {
		return 0, nil, errf("%q remove %q: source changed to %q", x.Src, x.Keys, src)
	}
	if g := guard(); g != nil {
		return 0, nil, errf("%q remove %q, destination of %d: %v", x.Src, x.Keys, x.Size, g)
	}
	if err == nil && (n < 0 || x.Size >= 0 && n > x.Size || x.Size < 0 && n > len(x.Src)) {
		return 0, nil, errf("%q remove %q, destination of %d: length %d", x.Src, x.Keys, x.Size, n)
	}
	if err == nil && !x.NoMap && (count < len(removed) || (count > 0) != (len(removed) > 0)) {
		return 0, nil, errf("%q remove %q: count %d, removed %q", x.Src, x.Keys, count, removed)
	}
	for k, v := range removed {
		if err == nil && !bytes.Contains(src, v) {
			return 0, nil, errf("%q remove %q: the value of %q is %q", x.Src, x.Keys, k, v)
		}
	}
	return n, err, nil
}

func TestC21_bytes(t *testing.T) {
	vh.Run(t, vh.Spec[BadRemoval]{
		Prop: "C21", Name: "bytes", Cases: 1200000,
		Rule: "the input starts with { and ends with }",
		Gen: func(t *vh.T) BadRemoval {
			s, keys := drawObjectText(t)
			x := BadRemoval{Keys: drawRemoveKeys(t, keys), Size: -1, NoMap: vh.P(t, 10)}
			vocab := []string{"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\":", "1", "null", "\"", "\\", "tru", "1.", "-", "\"\\u00\"", " "}
			if vh.P(t, 15) {
				s = "{" + vh.Soup(t, vocab, 20) + "}"
			} else {
				s = vh.MutateText(t, s, vocab)
			}
			if vh.P(t, 10) {
				s = vh.DrawBytes(t, 20)
			}
			if len(s) > 0 && vh.P(t, 50) {
				s = "{" + strings.TrimPrefix(s, "{")
				s = strings.TrimSuffix(s, "}") + "}"
			}
			x.Src = s
			if vh.B(t) {
				x.Size = vh.N(t, len(s)+4)
			}
			return x
		},
		Get: func(x BadRemoval) []byte { return []byte(x.Src) },
		Set: func(x BadRemoval, b []byte) BadRemoval { x.Src = string(b); return x },
		Check: func(c *vh.Ctx, x BadRemoval) error {
			c.NonTrivial(len(x.Src) > 1 && x.Src[0] == '{' && x.Src[len(x.Src)-1] == '}')
			_, err, bad := removeAny(x)
			c.LabelIf(err == nil, "result")
			c.LabelIf(err != nil, "error")
			c.LabelIf(errors.Is(err, gojsonsm.ErrInsufficientMemory), "too small")
			return bad
		},
	})
}

// TestC21_small: a destination too small gives that error, one as large as the result is enough.
func TestC21_small(t *testing.T) {
	vh.Run(t, vh.Spec[BadRemoval]{
		Prop: "C21", Name: "small", Cases: 700000,
		Rule: "the destination is too small by less than 8 bytes, or exactly large enough",
		Gen: func(t *vh.T) BadRemoval {
			s, keys := drawObjectText(t)
			x := BadRemoval{Src: s, Keys: drawRemoveKeys(t, keys)}
			n := len(strings.Join(vh.Remove(s, x.Keys).Tokens, ""))
			switch vh.N(t, 4) {
			case 0:
				x.Size = n
			case 1:
				x.Size = vh.N(t, n)
			case 2:
				x.Size = n - 1
			default:
				x.Size = n - 1 - vh.N(t, min(n, 8))
			}
			return x
		},
		Check: func(c *vh.Ctx, x BadRemoval) error {
			n := len(strings.Join(vh.Remove(x.Src, x.Keys).Tokens, ""))
			c.NonTrivial(x.Size > n-8)
			_, err, bad := removeAny(x)
			if bad != nil {
				return bad
			}
			if x.Size < n && !errors.Is(err, gojsonsm.ErrInsufficientMemory) {
				return errf("%s remove %q: destination of %d for %d bytes: error %v", x.Src, x.Keys, x.Size, n, err)
			}
			if x.Size >= n && err != nil {
				return errf("%s remove %q: destination of %d for %d bytes: error %v", x.Src, x.Keys, x.Size, n, err)
			}
			return nil
		},
	})
}

// TestC21_broken: truncated and unbalanced objects give an error.
func TestC21_broken(t *testing.T) {
	vh.Run(t, vh.Spec[BadRemoval]{
		Prop: "C21", Name: "broken", Cases: 700000,
		Rule: "the broken text still starts with { and ends with }",
		Gen: func(t *vh.T) BadRemoval {
			s, keys := drawObjectText(t)
			x := BadRemoval{Keys: drawRemoveKeys(t, keys), Size: len(s) + 10}
			var at []int // the brackets that are tokens
			for _, k := range vh.Lex(s) {
				if strings.Contains("{}[]", k.T) {
					at = append(at, k.Start)
				}
			}
			i := at[vh.N(t, len(at))]
			switch vh.N(t, 4) {
			case 0:
				x.Kind, x.Src = "truncated", s[:vh.N(t, len(s))]
			case 1: // cut off after a bracket that closes something inside
				x.Kind, x.Src = "truncated", s[:at[vh.N(t, len(at))]+1]
				if len(x.Src) == len(s) {
					x.Src = s[:len(s)-1]
				}
			case 2:
				x.Kind, x.Src = "bracket dropped", s[:i]+" "+s[i+1:]
			default:
				x.Kind, x.Src = "bracket added", s[:i]+vh.Pick(t, "{", "}", "[", "]")+s[i:]
			}
			return x
		},
		Check: func(c *vh.Ctx, x BadRemoval) error {
			c.Label(x.Kind)
			c.NonTrivial(len(x.Src) > 1 && x.Src[0] == '{' && x.Src[len(x.Src)-1] == '}')
			_, err, bad := removeAny(x)
			if bad == nil && err == nil {
				bad = errf("%s (%s) remove %q: no error", x.Src, x.Kind, x.Keys)
			}
			return bad
		},
	})
}

// TestC21_tokens: objects made of any tokens, in any order, whose brackets do
// not balance give an error.
func TestC21_tokens(t *testing.T) {
	words := []string{"{", "}", "[", "]", "{", "}", "}", ",", ",", ":", `"a"`, `"a":`, `"b":`, `"a":1`, `"b":"a"`, `"\u0061"`, "1", "-2.5e3", "true", "false", "null", "{}", "[]", `{"a":{}}`, `"x"}`, `"x"]`, `"x",`, " "}
	vh.Run(t, vh.Spec[BadRemoval]{
		Prop: "C21", Name: "tokens", Cases: 700000,
		Rule: "the brackets do not balance",
		Gen: func(t *vh.T) BadRemoval {
			var b strings.Builder
			b.WriteString("{")
			for n := vh.N(t, 12); n > 0; n-- {
				b.WriteString(words[vh.N(t, len(words))])
			}
			b.WriteString("}")
			return BadRemoval{Kind: "tokens", Src: b.String(), Keys: drawRemoveKeys(t, []string{"a", "b", "a"}), Size: b.Len() + 10}
		},
		Check: func(c *vh.Ctx, x BadRemoval) error {
			depth, bad := 0, false
			for _, k := range vh.Lex(x.Src) {
				switch k.T {
				case "{", "[":
					depth++
				case "}", "]":
					depth--
					bad = bad || depth < 0
				}
			}
			bad = bad || depth != 0
			c.NonTrivial(bad)
			_, err, e := removeAny(x)
			if e == nil && err == nil && bad {
				e = errf("%s remove %q: no error", x.Src, x.Keys)
			}
			c.LabelIf(err == nil, "accepted")
			return e
		},
	})
}
