package gojsonsm_test

import (
	"bytes"
	"reflect"
	"strings"
	"testing"

	gojsonsm "github.com/couchbaselabs/gojsonsm"
	"verif.local/vh"
)

// Removing is an object and the keys to remove.
type Removing struct {
	Src    string
	Keys   []string
	Extra  int    // size of the destination beyond what is needed; -1: none given
	Exact  bool   // what is needed is the length of the result
	Before bool   // the map is not empty
	NoMap  bool   // no map is given
	Cut    string `json:",omitempty"`
}

// drawObjectText draws an object; strings in it are often names of keys.
func drawObjectText(t *vh.T) (string, []string) {
	n := vh.DrawObject(t, 1+vh.N(t, 4), 5)
	var keys []string
	var walk func(n *vh.Node)
	walk = func(n *vh.Node) {
		keys = append(keys, n.Keys...)
		for _, v := range append(append([]*vh.Node(nil), n.Vals...), n.Arr...) {
			if v.K == 's' && vh.P(t, 40) {
				v.Str = vh.DrawKey(t)
			}
			walk(v)
		}
		if n.K == 'o' && len(n.Keys) > 0 && vh.P(t, 8) { // twice the same key
			i := vh.N(t, len(n.Keys))
			n.Keys = append(n.Keys, n.Keys[i])
			n.Vals = append(n.Vals, vh.DrawValue(t, 1))
		}
	}
	walk(n)
	return strings.TrimSpace(vh.Encode(t, n, vh.DrawStyle(t))), keys
}

func drawRemoveKeys(t *vh.T, keys []string) []string {
	out := []string{}
	for n := vh.N(t, 6); n > 0; n-- {
		if len(keys) > 0 && !vh.P(t, 15) {
			out = append(out, keys[vh.N(t, len(keys))])
		} else {
			out = append(out, vh.DrawKey(t))
		}
	}
	return out
}

// destination makes a destination of the size with guarded memory behind it.
func destination(n int) ([]byte, func() error) {
	b := bytes.Repeat([]byte{0xA5}, n+32)
	return b[:n], func() error {
		for i, c := range b[n:] {
			if c != 0xA5 {
				return errf("wrote %d bytes beyond the destination", i+1)
			}
		}
		return nil
	}
}

// checkRemoval removes from a well-formed object and compares with the reference.
func checkRemoval(c *vh.Ctx, x Removing) error {
	want := vh.Remove(x.Src, x.Keys)
	wantLen := len(strings.Join(want.Tokens, ""))
	c.NonTrivial(want.Count > 0 && want.Left > 0)
	c.LabelIf(want.Count > 1, "several removed")
	c.LabelIf(want.Count > 0 && want.Left == 0, "all removed")
	c.LabelIf(len(want.Values) < want.Count, "repeated key")
	size := len(x.Src)
	if x.Exact {
		size = wantLen
	}
	src, keys := buf(x.Src), append([]string(nil), x.Keys...)
	var dst []byte
	guard := func() error { return nil }
	if x.Extra >= 0 {
		dst, guard = destination(size + x.Extra)
	}
	removed := map[string][]byte{}
	if x.Before {
		removed["\xffold"] = []byte("1")
	}
	if x.NoMap {
		removed = nil
	}
	n, count, left, err := gojsonsm.MatchAndRemoveItemsFromJsonObject(src, keys, dst, removed)
	if err != nil {
		return errf("%s remove %q: error %v", x.Src, x.Keys, err)
	}
	if string(src) != x.Src {
		return errf("%s remove %q: source changed to %s", x.Src, x.Keys, src)
	}
	if !reflect.DeepEqual(keys, append([]string(nil), x.Keys...)) {
		return errf("%s remove %q: keys changed to %q", x.Src, x.Keys, keys)
	}
	if err := guard(); err != nil {
		return errf("%s remove %q: %v", x.Src, x.Keys, err)
	}
	if count != want.Count || left != (want.Left > 0) {
		return errf("%s remove %q: %d removed, any left %v; should be %d, %v", x.Src, x.Keys, count, left, want.Count, want.Left > 0)
	}
	if x.Extra >= 0 {
		if n < 0 || n > len(dst) {
			return errf("%s remove %q: length %d, the destination has %d", x.Src, x.Keys, n, len(dst))
		}
		got, ok := vh.TokenTexts(string(dst[:n]))
		if !ok || !reflect.DeepEqual(got, want.Tokens) {
			return errf("%s remove %q\n leaves    %s\n should be %s", x.Src, x.Keys, dst[:n], strings.Join(want.Tokens, ""))
		}
	} else if n < wantLen || n > len(x.Src) {
		return errf("%s remove %q: length %d, should be %d", x.Src, x.Keys, n, wantLen)
	}
	if x.NoMap {
		c.Label("no map")
		return nil
	}
	if x.Before {
		if string(removed["\xffold"]) != "1" {
			return errf("%s remove %q: the entry that was there before is now %q", x.Src, x.Keys, removed["\xffold"])
		}
		delete(removed, "\xffold")
	}
	if len(removed) != len(want.Values) {
		return errf("%s remove %q: removed %q, should be %q", x.Src, x.Keys, removed, want.Values)
	}
	for k, v := range want.Values {
		got := strings.TrimSpace(string(removed[k]))
		if got != v[len(v)-1] {
			return errf("%s remove %q: %q had the value %s, should be %s", x.Src, x.Keys, k, got, v[len(v)-1])
		}
	}
	return nil
}

func TestC20_removal(t *testing.T) {
	vh.Run(t, vh.Spec[Removing]{
		Prop: "C20", Name: "removal", Cases: 1500000,
		Rule: "something is removed and something is left",
		Gen: func(t *vh.T) Removing {
			s, keys := drawObjectText(t)
			x := Removing{Src: s, Keys: drawRemoveKeys(t, keys), Extra: vh.Weighted(t, 5, 2, 2) - 1, Before: vh.P(t, 20)}
			if !x.Before {
				x.NoMap = vh.P(t, 10)
			}
			if x.Extra >= 1 {
				x.Extra += vh.N(t, 40)
			}
			return x
		},
		Check: checkRemoval,
	})
}

// TestC20_wide: objects of many members, some of them deep, and long lists of keys to remove.
func TestC20_wide(t *testing.T) {
	vh.Run(t, vh.Spec[Removing]{
		Prop: "C20", Name: "wide", Cases: 20000,
		Rule: "something is removed and something is left",
		Gen: func(t *vh.T) Removing {
			o := vh.DrawWideDoc(t)
			if vh.P(t, 40) { // the deep chain, or the long list, further down
				o = &vh.Node{K: 'o', Keys: []string{"w", vh.DrawKey(t) + "2"}, Vals: []*vh.Node{o, vh.DrawValue(t, 2)}}
			}
			var keys []string
			var walk func(n *vh.Node)
			walk = func(n *vh.Node) {
				keys = append(keys, n.Keys...)
				for _, v := range append(append([]*vh.Node(nil), n.Vals...), n.Arr...) {
					walk(v)
				}
			}
			walk(o)
			x := Removing{Src: strings.TrimSpace(vh.Encode(t, o, vh.DrawStyle(t))), Keys: []string{}, Exact: vh.B(t), Extra: vh.N(t, 2) * vh.N(t, 40)}
			for n := vh.N(t, []int{3, 10, 40}[vh.N(t, 3)]); n > 0; n-- {
				if vh.P(t, 50) {
					x.Keys = append(x.Keys, keys[vh.N(t, len(keys))])
				} else {
					x.Keys = append(x.Keys, "other"+vh.DrawKey(t))
				}
			}
			return x
		},
		Check: func(c *vh.Ctx, x Removing) error {
			c.LabelIf(len(x.Keys) > 9, "10+keys")
			return checkRemoval(c, x)
		},
	})
}

// TestC20_big: objects of tens of kilobytes.
func TestC20_big(t *testing.T) {
	vh.Run(t, vh.Spec[Removing]{
		Prop: "C20", Name: "big", Cases: 8000,
		Rule: "something is removed and something is left",
		Gen: func(t *vh.T) Removing {
			s, keys := drawObjectText(t)
			s = strings.TrimSpace(vh.PadText(t, s))
			return Removing{Src: s, Keys: append(drawRemoveKeys(t, keys), []string{"pad1", "pad2", "m3", "m300", "m4000"}[:vh.N(t, 6)]...), Exact: vh.B(t), Extra: vh.N(t, 2) * vh.N(t, 40)}
		},
		Check: func(c *vh.Ctx, x Removing) error {
			c.LabelIf(len(x.Src) > 65536, "over-65536-bytes")
			return checkRemoval(c, x)
		},
	})
}
