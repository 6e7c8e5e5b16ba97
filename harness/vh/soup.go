package vh

import (
	"strings"
)

// FilterVocab and SimpleVocab are the words of the languages and some which look like them.
var FilterVocab = strings.Fields("AND OR NOT TRUE FALSE true false IS NULL MISSING EXISTS REGEXP_CONTAINS META ( ) ( ) [ ] { } , . = == != <> < > <= >= + - * / % ' \" ` \\ " +
	"ABS SQRT POW ATAN2 PI E DATE ROUND a b c aa `a` 'a' \"a\" \"abc\" 'abc' 0 1 2 1.5 1e3 1E400 9223372036854775807 9223372036854775808 -1 010 0x1 1_0 .5 5. // /* */ # $ @ ! & | ~ ^ ; : ? é 世 " +
	"\"2019-01-01\" \"2019\" \"(\" \"(?=a)\" \"[\" \"a\\u0062\" PI() E() META() META().a a.b a[0] a[-1] a[1][2] b.c[3].d `a`.`b` NULL \"\\\"\"")
var SimpleVocab = strings.Fields("AND OR && || NOT LIKE IS NULL MISSING EXISTS true false TRUE ( ) ( ) == = != <> < > <= >= =~ a b c a.b a[0] a[1][2] a[-1] a[] a[x] `a` `a.b` `a b`.c ` ' \" " +
	"\"a\" \"a b\" \"\" 'a' 0 1 -1 1.5 -2.5 1e3 9223372036854775807 9223372036854775808 99999999999999999999 ABS(a) ABS(ABS(a)) POW(a,2) POW(a, 2) ATAN2(a,b) PI() E() DATE(a) DATE(\"2019-01-01\") DATE(2019) ABS( ) ABS() ABS( ABS(a POW(a) POW(,) POW(a,b,c) NOSUCH(a) " +
	"META().id \"(\" \"(?=a)\" \"[\" \"^a.*\" . .. a. .a [0] [ ] , ; \\ é 世 NOT NOT NULL! ! & | a=1 a==1&&b==2 (a==1) ((a (a) )( () ' '")

// Soup draws a text made of words.
func Soup(t *T, vocab []string, max int) string {
	n := N(t, max)
	var b strings.Builder
	sep := Pick(t, " ", " ", "", "  ")
	for i := 0; i < n; i++ {
		b.WriteString(vocab[N(t, len(vocab))])
		if !P(t, 6) {
			b.WriteString(sep)
		}
	}
	return b.String()
}

// MutateText edits a text: characters and words inserted, deleted, doubled, exchanged, cut off.
func MutateText(t *T, s string, vocab []string) string {
	for n := 1 + N(t, 3); n > 0; n-- {
		if s == "" {
			s = vocab[N(t, len(vocab))]
			continue
		}
		i := N(t, len(s)+1)
		switch N(t, 9) {
		case 0: // delete a character
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 1: // insert a character
			s = s[:i] + string([]byte{Pick[byte](t, '"', '\'', '`', '(', ')', '[', ']', '.', ',', ' ', '-', '\\', '/', '*', 0, 0xff, '{', '=', '<', 'a', '0')}) + s[i:]
		case 2: // cut off
			s = s[:i]
		case 3: // cut off at the front
			s = s[i:]
		case 4: // insert a word
			s = s[:i] + " " + vocab[N(t, len(vocab))] + " " + s[i:]
		case 5, 6, 7: // words
			w := strings.Fields(s)
			if len(w) == 0 {
				break
			}
			j := N(t, len(w))
			switch N(t, 4) {
			case 0:
				w = append(w[:j], w[j+1:]...)
			case 1:
				w = append(w[:j+1], w[j:]...)
			case 2:
				k := N(t, len(w))
				w[j], w[k] = w[k], w[j]
			default:
				w[j] = vocab[N(t, len(vocab))]
			}
			s = strings.Join(w, " ")
		default: // repeat a part
			j := N(t, len(s)+1)
			if j < i {
				i, j = j, i
			}
			if j-i > 40 {
				j = i + 40
			}
			s = s[:j] + s[i:j] + s[j:]
		}
	}
	return s
}

// DrawBytes draws arbitrary text.
func DrawBytes(t *T, max int) string {
	n := N(t, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(N(t, 256))
	}
	return string(b)
}

// LongText repeats and nests a text or a word many times.
func LongText(t *T, s string, vocab []string) string {
	w := vocab[N(t, len(vocab))]
	n := 1 << uint(N(t, 8))
	switch N(t, 6) {
	case 0:
		return strings.Repeat("( ", n) + s + strings.Repeat(" )", n-boolInt(P(t, 20)))
	case 1:
		if len(s) > 30 {
			n = 1 + n/8
		}
		return s + strings.Repeat(" "+Pick(t, "AND", "OR", "&&", "||")+" "+s, n)
	case 2:
		return strings.Repeat("ABS(", n) + "a" + strings.Repeat(")", n) + " = 1"
	case 3:
		return strings.Repeat("POW(a,", n) + "a" + strings.Repeat(")", n) + " = 1"
	case 4:
		return strings.Repeat(w, n) + s
	}
	return s + strings.Repeat(" "+w, n)
}
