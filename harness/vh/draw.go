package vh

import "pgregory.net/rapid"

// Small drawing helpers; every random choice goes through rapid so that
// failures shrink and replay.

var (
	genBool  = rapid.Bool()
	intGens  [64]*rapid.Generator[int]
	labelGen = "x"
)

func init() {
	for i := range intGens {
		intGens[i] = rapid.IntRange(0, i)
	}
}

// N draws 0..n-1; 0 is the simplest choice.
func N(t *T, n int) int {
	if n <= 1 {
		return 0
	}
	if n <= 64 {
		return intGens[n-1].Draw(t, labelGen)
	}
	return rapid.IntRange(0, n-1).Draw(t, labelGen)
}

// B draws a fair bool; false is the simplest choice.
func B(t *T) bool { return genBool.Draw(t, labelGen) }

// P is true with probability of about p percent (fair bits, no size bias).
func P(t *T, p int) bool {
	v := 0
	for i := 0; i < 5; i++ {
		v <<= 1
		if genBool.Draw(t, labelGen) {
			v |= 1
		}
	}
	// v uniform in 0..31; high values mean true so that shrinking goes to false
	return v >= 32-(p*32+50)/100
}

// Range draws lo..hi.
func Range(t *T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + N(t, hi-lo+1)
}

// Pick draws one of the values.
func Pick[X any](t *T, xs ...X) X { return xs[N(t, len(xs))] }

// Weighted draws an index with the given weights using fair bits.
func Weighted(t *T, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	bits := 0
	for 1<<bits < sum*4 {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if genBool.Draw(t, labelGen) {
			v |= 1
		}
	}
	v = v * sum >> bits
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Perm draws a permutation of 0..n-1.
func Perm(t *T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - N(t, i+1) // 0 drawn = no swap
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bits64 draws 64 uniform bits.
func Bits64(t *T) uint64 {
	var v uint64
	for i := 0; i < 8; i++ {
		v = v<<8 | uint64(rapid.Byte().Draw(t, labelGen))
	}
	return v
}
