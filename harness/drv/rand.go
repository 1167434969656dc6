// Package drv runs generated-input checks: it drives rapid generators in worker
// processes, watches them for crashes and endless loops, collects statistics,
// writes replay files and the evidence file.
package drv

import (
	"math/bits"

	"pgregory.net/rapid"
)

// G is the only source of randomness of the generators. Every choice is drawn from
// rapid, bit by bit and without rapid's bias towards small integers, so that the
// distribution is the one written in the generator and shrinking still works
// (all-zero bits give choice 0).
type G struct{ t *rapid.T }

var bit = rapid.Bool()

// N returns a uniform number in [0, n).
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 3
	}
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(g.t, "") {
			v |= 1
		}
	}
	return v * n >> k
}

// P is true with probability num/den; it shrinks to false.
func (g *G) P(num, den int) bool { return g.N(den) >= den-num }

// B is true with probability one half.
func (g *G) B() bool { return bit.Draw(g.t, "") }

// R returns a uniform number in [lo, hi].
func (g *G) R(lo, hi int) int { return lo + g.N(hi-lo+1) }

// Geo returns a number >= 0 with geometric distribution (continue with num/den), at most max.
func (g *G) Geo(num, den, max int) int {
	n := 0
	for n < max && g.P(num, den) {
		n++
	}
	return n
}

// Pick returns a uniform element.
func Pick[T any](g *G, xs []T) T { return xs[g.N(len(xs))] }

// W picks an index with the given weights.
func (g *G) W(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := g.N(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}
