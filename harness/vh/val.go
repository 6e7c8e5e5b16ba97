package vh

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Node is a JSON value. Parsed nodes carry their raw text.
type Node struct {
	K    byte // 'n' null, 't' true, 'f' false, '#' number, 's' string, 'a' array, 'o' object
	Num  string
	Str  string // decoded
	Arr  []*Node
	Keys []string // decoded
	Vals []*Node

	Raw    string   // text of the value, without surrounding whitespace
	Start  int      // offset of Raw in the document
	RawKey []string // raw keys with quotes
	KeyPos []int
}

func (n *Node) End() int { return n.Start + len(n.Raw) }

// Get returns the member with the key.
func (n *Node) Get(key string) *Node {
	if n == nil || n.K != 'o' {
		return nil
	}
	for i, k := range n.Keys {
		if k == key {
			return n.Vals[i]
		}
	}
	return nil
}

// Resolve follows a path of object keys and [i] array indexes; nil = missing.
func (n *Node) Resolve(path []string) *Node {
	cur := n
	for _, p := range path {
		if cur == nil {
			return nil
		}
		switch cur.K {
		case 'o':
			cur = cur.Get(p)
		case 'a':
			i, ok := ArrayIndex(p)
			if !ok || i >= len(cur.Arr) {
				return nil
			}
			cur = cur.Arr[i]
		default:
			return nil
		}
	}
	return cur
}

// ArrayIndex parses "[i]".
func ArrayIndex(p string) (int, bool) {
	if len(p) < 3 || p[0] != '[' || p[len(p)-1] != ']' {
		return 0, false
	}
	d := p[1 : len(p)-1]
	if len(d) > 1 && d[0] == '0' {
		return 0, false
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	i, err := strconv.Atoi(d)
	return i, err == nil
}

// ---- strict JSON parser with raw ranges ----

type parser struct {
	s     string
	p     int
	depth int
}

var errJSON = errors.New("not well-formed JSON")

// ParseJSON parses one strict JSON document.
func ParseJSON(s string) (*Node, error) {
	p := &parser{s: s}
	p.ws()
	n, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.p != len(s) {
		return nil, errJSON
	}
	return n, nil
}

// ParseJSONPrefix parses one strict JSON value at the start and returns the rest.
func ParseJSONPrefix(s string) (*Node, string, error) {
	p := &parser{s: s}
	p.ws()
	n, err := p.value()
	if err != nil {
		return nil, "", err
	}
	return n, s[p.p:], nil
}

func (p *parser) ws() {
	for p.p < len(p.s) {
		switch p.s[p.p] {
		case ' ', '\t', '\n', '\r':
			p.p++
		default:
			return
		}
	}
}

func (p *parser) peek() byte {
	if p.p < len(p.s) {
		return p.s[p.p]
	}
	return 0
}

func (p *parser) value() (*Node, error) {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 20000 {
		return nil, errJSON
	}
	n := &Node{Start: p.p}
	fin := func() (*Node, error) {
		n.Raw = p.s[n.Start:p.p]
		return n, nil
	}
	word := func(w string, k byte) (*Node, error) {
		if !strings.HasPrefix(p.s[p.p:], w) {
			return nil, errJSON
		}
		p.p += len(w)
		n.K = k
		return fin()
	}
	switch c := p.peek(); {
	case c == 'n':
		return word("null", 'n')
	case c == 't':
		return word("true", 't')
	case c == 'f':
		return word("false", 'f')
	case c == '-' || c >= '0' && c <= '9':
		n.K = '#'
		l := scanNumber(p.s[p.p:])
		if l == 0 {
			return nil, errJSON
		}
		n.Num = p.s[p.p : p.p+l]
		p.p += l
		return fin()
	case c == '"':
		n.K = 's'
		raw, dec, err := p.str()
		_ = raw
		if err != nil {
			return nil, err
		}
		n.Str = dec
		return fin()
	case c == '[':
		n.K = 'a'
		p.p++
		p.ws()
		if p.peek() == ']' {
			p.p++
			return fin()
		}
		for {
			p.ws()
			e, err := p.value()
			if err != nil {
				return nil, err
			}
			n.Arr = append(n.Arr, e)
			p.ws()
			switch p.peek() {
			case ',':
				p.p++
			case ']':
				p.p++
				return fin()
			default:
				return nil, errJSON
			}
		}
	case c == '{':
		n.K = 'o'
		p.p++
		p.ws()
		if p.peek() == '}' {
			p.p++
			return fin()
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return nil, errJSON
			}
			pos := p.p
			raw, dec, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ':' {
				return nil, errJSON
			}
			p.p++
			p.ws()
			e, err := p.value()
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, dec)
			n.RawKey = append(n.RawKey, raw)
			n.KeyPos = append(n.KeyPos, pos)
			n.Vals = append(n.Vals, e)
			p.ws()
			switch p.peek() {
			case ',':
				p.p++
			case '}':
				p.p++
				return fin()
			default:
				return nil, errJSON
			}
		}
	}
	return nil, errJSON
}

// scanNumber returns the length of the JSON number at the start of s (0 if none).
func scanNumber(s string) int {
	i := 0
	digit := func() bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	if i < len(s) && s[i] == '-' {
		i++
	}
	if !digit() {
		return 0
	}
	if s[i] == '0' {
		i++
	} else {
		for digit() {
			i++
		}
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !digit() {
			return 0
		}
		for digit() {
			i++
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digit() {
			return 0
		}
		for digit() {
			i++
		}
	}
	return i
}

func (p *parser) str() (raw, dec string, err error) {
	l := scanString(p.s[p.p:])
	if l <= 0 {
		return "", "", errJSON
	}
	raw = p.s[p.p : p.p+l]
	p.p += l
	return raw, DecodeString(raw), nil
}

// scanString returns the length of the JSON string literal at the start of s,
// or minus the offset+1 of the first offending byte (or the end) if malformed.
func scanString(s string) int {
	i := 1
	for i < len(s) {
		c := s[i]
		switch {
		case c == '"':
			return i + 1
		case c == '\\':
			i++
			if i >= len(s) {
				return -(i + 1)
			}
			switch s[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				i++
			case 'u':
				i++
				for k := 0; k < 4; k++ {
					if i >= len(s) || !isHex(s[i]) {
						return -(i + 1)
					}
					i++
				}
			default:
				return -(i + 1)
			}
		case c < 0x20:
			return -(i + 1)
		default:
			i++
		}
	}
	return -(len(s) + 1)
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// DecodeString decodes a well-formed JSON string literal; lone surrogates
// become U+FFFD.
func DecodeString(raw string) string {
	var b []byte
	s := raw[1 : len(raw)-1]
	for i := 0; i < len(s); {
		c := s[i]
		if c != '\\' {
			b = append(b, c)
			i++
			continue
		}
		i++
		switch s[i] {
		case '"', '\\', '/':
			b = append(b, s[i])
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case 'u':
			v, _ := strconv.ParseUint(s[i+1:i+5], 16, 32)
			r := rune(v)
			i += 4
			if utf16.IsSurrogate(r) {
				if i+6 < len(s)+0 && s[i+1] == '\\' && s[i+2] == 'u' {
					v2, _ := strconv.ParseUint(s[i+3:i+7], 16, 32)
					if d := utf16.DecodeRune(r, rune(v2)); d != utf8.RuneError {
						r = d
						i += 6
					} else {
						r = utf8.RuneError
					}
				} else {
					r = utf8.RuneError
				}
			}
			b = utf8.AppendRune(b, r)
		}
		i++
	}
	return string(b)
}

// ---- encoder ----

// Style says how to write JSON text.
type Style struct {
	WS      bool // random whitespace
	Esc     bool // random escapes in values
	KeyEsc  bool // random escapes in keys
	Shuffle bool // random member order
}

// DrawStyle draws a style; the zero style (compact) is the simplest.
func DrawStyle(t *T) Style {
	return Style{WS: P(t, 35), Esc: P(t, 35), KeyEsc: P(t, 25), Shuffle: false}
}

func wsp(t *T, b *strings.Builder, on bool) {
	if !on {
		return
	}
	switch N(t, 6) {
	case 0, 1:
	case 2, 3:
		b.WriteByte(' ')
	case 4:
		b.WriteByte("\n\t\r"[N(t, 3)])
	case 5:
		b.WriteString([]string{"  ", "\r\n", " \t ", "\n\n    "}[N(t, 4)])
	}
}

// Encode writes the value in the style.
func Encode(t *T, n *Node, st Style) string {
	var b strings.Builder
	wsp(t, &b, st.WS)
	encode(t, &b, n, st)
	wsp(t, &b, st.WS)
	return b.String()
}

func encode(t *T, b *strings.Builder, n *Node, st Style) {
	switch n.K {
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	case '#':
		b.WriteString(n.Num)
	case 's':
		b.WriteString(EncodeString(t, n.Str, st.Esc))
	case 'a':
		b.WriteByte('[')
		wsp(t, b, st.WS)
		for i, e := range n.Arr {
			if i > 0 {
				b.WriteByte(',')
				wsp(t, b, st.WS)
			}
			encode(t, b, e, st)
			wsp(t, b, st.WS)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		wsp(t, b, st.WS)
		var perm []int
		if st.Shuffle {
			perm = Perm(t, len(n.Keys))
		}
		for i := range n.Keys {
			if i > 0 {
				b.WriteByte(',')
				wsp(t, b, st.WS)
			}
			j := i
			if perm != nil {
				j = perm[i]
			}
			b.WriteString(EncodeString(t, n.Keys[j], st.KeyEsc))
			wsp(t, b, st.WS)
			b.WriteByte(':')
			wsp(t, b, st.WS)
			encode(t, b, n.Vals[j], st)
			wsp(t, b, st.WS)
		}
		b.WriteByte('}')
	}
}

// EncodeString writes a JSON string literal; with esc, characters are randomly
// written as escapes.
func EncodeString(t *T, s string, esc bool) string {
	var b strings.Builder
	b.WriteByte('"')
	mode := 0
	if esc {
		mode = 1 + N(t, 3) // 1 few, 2 half, 3 all
	}
	high := false // the last thing written is an unpaired high surrogate
	for _, r := range s {
		wasHigh := high
		high = false
		do := false
		switch mode {
		case 1:
			do = P(t, 15)
		case 2:
			do = B(t)
		case 3:
			do = true
		}
		must := r == '"' || r == '\\' || r < 0x20
		if !must && !do {
			b.WriteRune(r)
			continue
		}
		short := byte(0)
		switch r {
		case '"':
			short = '"'
		case '\\':
			short = '\\'
		case '/':
			short = '/'
		case '\b':
			short = 'b'
		case '\f':
			short = 'f'
		case '\n':
			short = 'n'
		case '\r':
			short = 'r'
		case '\t':
			short = 't'
		}
		if short != 0 && (mode == 0 || !B(t)) {
			b.WriteByte('\\')
			b.WriteByte(short)
			continue
		}
		f := `\u%04x`
		if mode != 0 && B(t) {
			f = `\u%04X`
		}
		if r == utf8.RuneError && P(t, 70) { // an unpaired surrogate stands for U+FFFD, too
			r = []rune{0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd800 + rune(N(t, 0x400)), 0xdc00 + rune(N(t, 0x400))}[N(t, 6)]
			if wasHigh && r >= 0xdc00 {
				r -= 0x400
			}
			high = r < 0xdc00
		}
		if r > 0xffff {
			a, c := utf16.EncodeRune(r)
			fmt.Fprintf(&b, f, a)
			fmt.Fprintf(&b, f, c)
		} else {
			fmt.Fprintf(&b, f, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ---- value generators ----

// PlainString escapes s minimally without drawing anything.
func PlainString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Plain encodes compactly without drawing anything.
func Plain(n *Node) string {
	var b strings.Builder
	plain(&b, n)
	return b.String()
}

func plain(b *strings.Builder, n *Node) {
	switch n.K {
	case 's':
		b.WriteString(PlainString(n.Str))
	case 'a':
		b.WriteByte('[')
		for i, e := range n.Arr {
			if i > 0 {
				b.WriteByte(',')
			}
			plain(b, e)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i := range n.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(PlainString(n.Keys[i]))
			b.WriteByte(':')
			plain(b, n.Vals[i])
		}
		b.WriteByte('}')
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	default:
		b.WriteString(n.Num)
	}
}

var strPool = []string{"a", "", "b", "ab", "abc", "B", "\"", "\\", "é", "x y", "true", "1", "😀", "\n", "/", "12", "a\"b", "\u0001",
	"2019", "2019-03-04", "ü\\u0041", "\u007f", "\u2028", "null", "\ufffd", "a\ufffd\ufffd", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}

// DrawString draws a string value from short, awkward and long ones.
func DrawString(t *T) string {
	switch Weighted(t, 6, 3, 1) {
	case 0:
		return strPool[N(t, len(strPool))]
	case 1:
		n := N(t, 5)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(DrawRune(t))
		}
		return b.String()
	default:
		n := Range(t, 55, 140)
		base := strPool[1+N(t, len(strPool)-1)]
		if base == "" {
			base = "z"
		}
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(base)
		}
		if B(t) {
			b.WriteRune(DrawRune(t))
		}
		return b.String()
	}
}

var runeRanges = [][2]rune{{'a', 'd'}, {' ', '~'}, {0, 0x1f}, {0x7f, 0xff}, {0x100, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xffff}, {0x10000, 0x10ffff}, {utf8.RuneError, utf8.RuneError}}

// DrawRune draws any Unicode scalar value, ASCII letters preferred.
func DrawRune(t *T) rune {
	rr := runeRanges[Weighted(t, 12, 6, 2, 2, 2, 2, 2, 2, 1)]
	return rr[0] + rune(N(t, int(rr[1]-rr[0])+1))
}

var intPool = []string{"1", "0", "2", "-1", "3", "10", "100", "-0", "255", "4294967296", "9007199254740992", "9007199254740993",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
	"-9223372036854775809", "18446744073709551626", "999999999999999999", "1000000000000000000", "99999999999999999999999"}
var floatPool = []string{"1.0", "0.5", "-0.5", "1.5", "2.0", "1e2", "1E+2", "1e-2", "0.0", "-0.0", "3.0", "2.25", "1.00000001", "1.0000001", "1.000001",
	"9007199254740993.0", "1e18", "1e19", "9.223372036854775807e18", "1e-8", "1e300", "-1e300", "1e-60", "-1e-300", "5e-324", "1.7976931348623157e308"}

// DrawNumText draws the text of a JSON number.
func DrawNumText(t *T) string {
	switch Weighted(t, 5, 2, 3, 1) {
	case 0:
		return strconv.Itoa(N(t, 6) - 1)
	case 1:
		return intPool[N(t, len(intPool))]
	case 2:
		return floatPool[N(t, len(floatPool))]
	default:
		if B(t) {
			return strconv.FormatInt(int64(Bits64(t)>>(uint(N(t, 64)))), 10)
		}
		if P(t, 20) {
			// any magnitude
			if f := math.Float64frombits(Bits64(t)); !math.IsInf(f, 0) && !math.IsNaN(f) {
				return strconv.FormatFloat(f, 'e', -1, 64)
			}
		}
		f := float64(int64(Bits64(t)>>20)) / float64(int64(1)<<uint(N(t, 50)))
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 1.5
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
}

// DrawScalar draws null, bool, number or string.
func DrawScalar(t *T) *Node {
	switch Weighted(t, 8, 6, 2, 2, 2) {
	case 0:
		return &Node{K: '#', Num: DrawNumText(t)}
	case 1:
		return &Node{K: 's', Str: DrawString(t)}
	case 2:
		return &Node{K: 't'}
	case 3:
		return &Node{K: 'f'}
	default:
		return &Node{K: 'n'}
	}
}

var keyPool = []string{"a", "b", "c", "d", "e", "aa", "k\"1", "é", "x.y", "", "[x", "A", "a b", "😀k", "b\\", "\t"}

// DrawKey draws an object key; plain ones dominate so that paths meet.
func DrawKey(t *T) string {
	switch Weighted(t, 12, 3, 1) {
	case 0:
		return keyPool[N(t, 4)]
	case 1:
		return keyPool[N(t, len(keyPool))]
	default:
		s := DrawString(t)
		if len(s) > 0 && s[0] == '[' {
			s = "x" + s
		}
		return s
	}
}

// DrawValue draws a value of at most the given depth.
func DrawValue(t *T, depth int) *Node {
	if depth <= 0 {
		switch Weighted(t, 9, 1, 1) {
		case 1:
			return &Node{K: 'a'}
		case 2:
			return &Node{K: 'o'}
		}
		return DrawScalar(t)
	}
	switch Weighted(t, 4, 3, 3) {
	case 0:
		return DrawScalar(t)
	case 1:
		return DrawObject(t, depth, 4)
	default:
		return DrawArray(t, depth, 4)
	}
}

// DrawArray draws an array whose elements are often alike.
func DrawArray(t *T, depth, max int) *Node {
	n := &Node{K: 'a'}
	l := N(t, max+1)
	mode := Weighted(t, 3, 3, 2)
	for i := 0; i < l; i++ {
		switch {
		case mode == 0:
			n.Arr = append(n.Arr, DrawScalar(t))
		case mode == 1 && depth > 1:
			n.Arr = append(n.Arr, DrawObject(t, depth-1, 3))
		default:
			n.Arr = append(n.Arr, DrawValue(t, depth-1))
		}
	}
	return n
}

// DrawObject draws an object without duplicate keys.
func DrawObject(t *T, depth, max int) *Node {
	n := &Node{K: 'o'}
	l := N(t, max+1)
	for i := 0; i < l; i++ {
		k := DrawKey(t)
		if n.Get(k) != nil {
			continue
		}
		n.Keys = append(n.Keys, k)
		n.Vals = append(n.Vals, DrawValue(t, depth-1))
	}
	return n
}

// DrawDoc draws a document: mostly objects.
func DrawDoc(t *T) *Node {
	switch Weighted(t, 16, 2, 1) {
	case 0:
		return DrawObject(t, 1+N(t, 4), 5)
	case 1:
		return DrawArray(t, 1+N(t, 3), 4)
	default:
		return DrawScalar(t)
	}
}

// Clone copies the tree.
func (n *Node) Clone() *Node {
	c := &Node{K: n.K, Num: n.Num, Str: n.Str, Keys: append([]string(nil), n.Keys...)}
	for _, e := range n.Arr {
		c.Arr = append(c.Arr, e.Clone())
	}
	for _, e := range n.Vals {
		c.Vals = append(c.Vals, e.Clone())
	}
	return c
}

// NearCopy draws a copy of the value with one scalar in it changed, mostly
// without a change of the text's length. The copy never equals the original.
func NearCopy(t *T, n *Node) *Node {
	c := n.Clone()
	var all []*Node
	for _, x := range allNodes(c, nil) {
		if x.K != 'a' && x.K != 'o' {
			all = append(all, x)
		}
	}
	if len(all) == 0 {
		for c2 := c; ; c2 = c2.Vals[0] {
			if c2.K == 'a' {
				c2.Arr = append(c2.Arr, &Node{K: 'n'})
				return c
			}
			if len(c2.Vals) == 0 {
				c2.Keys, c2.Vals = append(c2.Keys, "k"), append(c2.Vals, &Node{K: 'n'})
				return c
			}
		}
	}
	x := all[N(t, len(all))]
	switch {
	case x.K == '#':
		// another digit of an integer, or another number altogether
		i := len(x.Num) - 1
		d := x.Num[i]
		switch {
		case strings.ContainsAny(x.Num, "eE."):
			x.Num = "123456789012"
		case d == '9':
			d = '8'
			fallthrough
		default:
			if d == x.Num[i] {
				d++
			}
			x.Num = x.Num[:i] + string(rune(d))
		}
	case x.K == 's' && len(x.Str) > 0 && x.Str[0] >= 'a' && x.Str[0] < 'z':
		x.Str = string(rune(x.Str[0]+1)) + x.Str[1:]
	case x.K == 's':
		x.Str += "q"
	case x.K == 't':
		x.K = 'n'
	default:
		x.K = 't'
	}
	return c
}

// Mutate returns a changed copy of the document: a value replaced, a member or
// element added, dropped, duplicated or moved.
func Mutate(t *T, n *Node) *Node {
	c := n.Clone()
	k := 1 + N(t, 3)
	for i := 0; i < k; i++ {
		c = mutateOnce(t, c)
	}
	return c
}

func allNodes(n *Node, out []*Node) []*Node {
	out = append(out, n)
	for _, e := range n.Arr {
		out = allNodes(e, out)
	}
	for _, e := range n.Vals {
		out = allNodes(e, out)
	}
	return out
}

func mutateOnce(t *T, root *Node) *Node {
	nodes := allNodes(root, nil)
	n := nodes[N(t, len(nodes))]
	switch n.K {
	case 'a':
		switch N(t, 4) {
		case 0:
			if len(n.Arr) > 0 {
				i := N(t, len(n.Arr))
				n.Arr = append(n.Arr[:i:i], n.Arr[i+1:]...)
				return root
			}
		case 1:
			i := N(t, len(n.Arr)+1)
			e := DrawValue(t, 1)
			if len(n.Arr) > 0 && B(t) {
				e = n.Arr[N(t, len(n.Arr))].Clone()
			}
			n.Arr = append(n.Arr[:i:i], append([]*Node{e}, n.Arr[i:]...)...)
			return root
		case 2:
			p := Perm(t, len(n.Arr))
			out := make([]*Node, len(p))
			for i, j := range p {
				out[i] = n.Arr[j]
			}
			n.Arr = out
			return root
		}
	case 'o':
		switch N(t, 4) {
		case 0:
			if len(n.Keys) > 0 {
				i := N(t, len(n.Keys))
				n.Keys = append(n.Keys[:i:i], n.Keys[i+1:]...)
				n.Vals = append(n.Vals[:i:i], n.Vals[i+1:]...)
				return root
			}
		case 1:
			k := DrawKey(t)
			if n.Get(k) == nil {
				n.Keys = append(n.Keys, k)
				n.Vals = append(n.Vals, DrawValue(t, 1))
			}
			return root
		case 2:
			p := Perm(t, len(n.Keys))
			ks, vs := make([]string, len(p)), make([]*Node, len(p))
			for i, j := range p {
				ks[i], vs[i] = n.Keys[j], n.Vals[j]
			}
			n.Keys, n.Vals = ks, vs
			return root
		}
	}
	if n == root && N(t, 4) != 0 {
		return root
	}
	v := DrawValue(t, 1)
	*n = *v
	return root
}

// Paths lists every path of the document (to every value, the root included).
func Paths(n *Node) [][]string {
	var out [][]string
	var rec func(n *Node, p []string)
	rec = func(n *Node, p []string) {
		out = append(out, append([]string(nil), p...))
		for i, e := range n.Arr {
			rec(e, append(p[:len(p):len(p)], "["+strconv.Itoa(i)+"]"))
		}
		for i, k := range n.Keys {
			rec(n.Vals[i], append(p[:len(p):len(p)], k))
		}
	}
	rec(n, nil)
	return out
}
