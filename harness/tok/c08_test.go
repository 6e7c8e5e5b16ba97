package gojsonsm

import (
	"fmt"
	"os"
	"testing"

	"verif.local/vh"
)

func TestMain(m *testing.M) {
	vh.StartWatchdog()
	os.Exit(m.Run())
}

var tokNames = map[string]tokenType{"{": tknObjectStart, "}": tknObjectEnd, "[": tknArrayStart, "]": tknArrayEnd, ":": tknObjectKeyDelim,
	",": tknListDelim, "string": tknString, "escaped": tknEscString, "integer": tknInteger, "number": tknNumber, "null": tknNull,
	"true": tknTrue, "false": tknFalse, "end": tknEnd}

// Text is a text to be split, and jumps: positions in the token list to seek to,
// each followed by a number of steps.
type Text struct {
	Data  []byte
	Jumps [][2]int
	Ends  int // extra steps at the end
}

func same(what string, text []byte, ty tokenType, data []byte, n int, pos int, w vh.Tok) error {
	want, ok := tokNames[w.T]
	if !ok || ty != want {
		return fmt.Errorf("%s: token %d (%q), want %s at %d..%d\n text %q", what, ty, data, w.T, w.Start, w.End, text)
	}
	if string(data) != string(text[w.Start:w.End]) || n != w.End-w.Start {
		return fmt.Errorf("%s: %s token has data %q and length %d, want %q\n text %q", what, w.T, data, n, text[w.Start:w.End], text)
	}
	if pos != w.End {
		return fmt.Errorf("%s: position %d after the %s token %q, want %d\n text %q", what, pos, w.T, data, w.End, text)
	}
	return nil
}

func checkText(c *vh.Ctx, x Text) error {
	toks := vh.Lex(string(x.Data))
	in := append([]byte(nil), x.Data...)
	in = in[:len(in):len(in)]
	var tk jsonTokenizer
	tk.Reset(in)
	pos := []int{tk.Position()}
	last := toks[len(toks)-1]
	for i, w := range toks {
		ty, data, n, err := tk.Step()
		if w.T == "error" {
			if err == nil {
				return fmt.Errorf("token %d: %d (%q) where the text has no token\n text %q from %d", i, ty, data, x.Data, w.Start)
			}
			for k := 0; k <= min(len(x.Data)+1, 300); k++ {
				_, _, _, _ = tk.Step() // whatever follows an error, it must not panic
			}
			break
		}
		if err != nil {
			return fmt.Errorf("token %d: error %v, want %s at %d..%d\n text %q", i, err, w.T, w.Start, w.End, x.Data)
		}
		if err := same(fmt.Sprintf("token %d", i), x.Data, ty, data, n, tk.Position(), w); err != nil {
			return err
		}
		c.Label(w.T)
		pos = append(pos, tk.Position())
	}
	if last.T == "end" {
		for k := 0; k < x.Ends; k++ {
			if ty, data, _, err := tk.Step(); err != nil || ty != tknEnd || len(data) != 0 {
				return fmt.Errorf("after the end: %d %q %v\n text %q", ty, data, err, x.Data)
			}
		}
	}
	for _, j := range x.Jumps {
		from := j[0] % len(pos)
		tk.Seek(pos[from])
		for i := from; i < len(toks) && i < from+j[1]; i++ {
			if toks[i].T == "error" {
				if _, _, _, err := tk.Step(); err == nil {
					return fmt.Errorf("after seeking to %d: no error at the malformed token %d\n text %q", pos[from], i, x.Data)
				}
				break
			}
			ty, data, n, err := tk.Step()
			if err != nil {
				return fmt.Errorf("after seeking to %d: error %v at token %d\n text %q", pos[from], err, i, x.Data)
			}
			if err := same(fmt.Sprintf("after seeking to %d: token %d", pos[from], i), x.Data, ty, data, n, tk.Position(), toks[i]); err != nil {
				return err
			}
		}
	}
	if string(in) != string(x.Data) {
		return fmt.Errorf("the text was changed from %q to %q", x.Data, in)
	}
	// the tokens must not depend on an earlier text
	tk.Reset([]byte(`{"a":[1,"b\n"`))
	_, _, _, _ = tk.Step()
	_, _, _, _ = tk.Step()
	tk.Reset(in)
	if tk.Position() != 0 {
		return fmt.Errorf("position %d after a reset", tk.Position())
	}
	if w := toks[0]; w.T != "error" {
		ty, data, n, err := tk.Step()
		if err != nil {
			return fmt.Errorf("after a reset: error %v\n text %q", err, x.Data)
		}
		if err := same("after a reset", x.Data, ty, data, n, tk.Position(), w); err != nil {
			return err
		}
	}
	c.LabelIf(last.T == "error", "malformed")
	c.LabelIf(len(x.Jumps) > 0, "seeks")
	c.NonTrivial(len(toks) > 3)
	return nil
}

func drawJumps(t *vh.T) (js [][2]int) {
	for k := vh.N(t, 4); k > 0; k-- {
		js = append(js, [2]int{vh.N(t, 40), 1 + vh.N(t, 6)})
	}
	return
}

func TestC08_valid(t *testing.T) {
	vh.Run(t, vh.Spec[Text]{
		Prop: "C08", Name: "valid", Cases: 900000,
		Rule: "the text has at least three tokens",
		Gen: func(t *vh.T) Text {
			return Text{Data: []byte(vh.Encode(t, vh.DrawValue(t, 4), vh.DrawStyle(t))), Jumps: drawJumps(t), Ends: vh.N(t, 3)}
		},
		Check: func(c *vh.Ctx, x Text) error {
			if toks := vh.Lex(string(x.Data)); toks[len(toks)-1].T != "end" {
				panic("HARNESS: generated JSON does not lex")
			}
			return checkText(c, x)
		},
	})
}

var pieces = []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `""`, `"\n"`, `"\u00e9"`, `"\\"`, `"\"`, "1", "-", "-0", "0", "1.", ".5", "0.5e", "e", "E+", "1e5", "-1.5E-3", `\`, `\u`,
	`"\u12"`, `"\u12g4"`, "true", "tru", "null", "nul", "false", "fals", "t", "f", "n", " ", "\n", "\t", "\r", "\v", "\f", "\x00", "\xff", "\xc2\xa0", "01", "--1", "+1", "/", "'", "NaN", "\"\x1f\"",
	"\"\x7f\"", "\"\n\"", "\xef\xbb\xbf", "é", "12", "9", "True", "nulll", "1e", "1e+", "0e0", "00"}

func TestC08_malformed(t *testing.T) {
	vh.Run(t, vh.Spec[Text]{
		Prop: "C08", Name: "malformed", Cases: 1300000,
		Rule: "the text has at least three tokens, counting the malformed one",
		Gen: func(t *vh.T) Text {
			x := Text{Jumps: drawJumps(t), Ends: vh.N(t, 3)}
			switch vh.Weighted(t, 4, 4, 2, 1) {
			case 0:
				d := []byte(vh.Encode(t, vh.DrawValue(t, 3), vh.DrawStyle(t)))
				for k := 1 + vh.N(t, 2); k > 0 && len(d) > 0; k-- {
					p := vh.N(t, len(d))
					switch vh.N(t, 4) {
					case 0:
						d = append(d[:p:p], d[p+1:]...)
					case 1:
						d[p] = `{}[]",:0-e\tnu .1Eafl`[vh.N(t, 21)]
					case 2:
						d[p] = byte(vh.N(t, 256))
					default:
						d = append(d[:p:p], append([]byte(pieces[vh.N(t, len(pieces))]), d[p:]...)...)
					}
				}
				x.Data = d
			case 1:
				for k := 1 + vh.N(t, 10); k > 0; k-- {
					x.Data = append(x.Data, pieces[vh.N(t, len(pieces))]...)
				}
			case 2:
				d := vh.Encode(t, vh.DrawValue(t, 3), vh.DrawStyle(t))
				x.Data = []byte(d[:vh.N(t, len(d)+1)])
			default:
				for k := vh.N(t, 16); k > 0; k-- {
					x.Data = append(x.Data, byte(vh.N(t, 256)))
				}
			}
			return x
		},
		Check: checkText,
	})
}

// TestC08_big: texts of tens of kilobytes.
func TestC08_big(t *testing.T) {
	vh.Run(t, vh.Spec[Text]{
		Prop: "C08", Name: "big", Cases: 2500,
		Rule: "the text has at least three tokens",
		Gen: func(t *vh.T) Text {
			s := vh.PadText(t, vh.Encode(t, vh.DrawValue(t, 4), vh.DrawStyle(t)))
			if vh.P(t, 30) {
				s = s[:len(s)-vh.N(t, min(len(s), 40))]
			}
			x := Text{Data: []byte(s), Ends: vh.N(t, 3)}
			for k := vh.N(t, 4); k > 0; k-- {
				x.Jumps = append(x.Jumps, [2]int{vh.N(t, 100000), 1 + vh.N(t, 6)})
			}
			return x
		},
		Get: func(x Text) []byte { return x.Data },
		Set: func(x Text, b []byte) Text { x.Data = b; return x },
		Check: func(c *vh.Ctx, x Text) error {
			c.LabelIf(len(x.Data) > 65536, "over-65536-bytes")
			return checkText(c, x)
		},
	})
}
