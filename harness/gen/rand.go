// Package gen generates Booklit documents.
package gen

import "pgregory.net/rapid"

// R draws choices which are close to uniform, and shrink towards zero.
// (rapid's own ranges prefer small numbers of bits.)
type R struct{ T *rapid.T }

var digit = [9]*rapid.Generator[int]{}

func init() {
	for i := 1; i <= 8; i++ {
		digit[i] = rapid.IntRange(0, i-1)
	}
}

// Intn draws from [0, n).
func (r R) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	if n <= 8 {
		return digit[n].Draw(r.T, "d")
	}
	v := 0
	for m := n - 1; m > 0; m >>= 3 {
		v = v<<3 | digit[8].Draw(r.T, "d")
	}
	return v % n
}

// Range draws from [lo, hi].
func (r R) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Chance is true about pct times out of 100.
func (r R) Chance(pct int) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	return digit[8].Draw(r.T, "c")<<3|digit[8].Draw(r.T, "c") >= 64-(pct*64+50)/100
}

// Pick draws an element.
func Pick[E any](r R, xs ...E) E { return xs[r.Intn(len(xs))] }

// Weighted draws an index by weight.
func (r R) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	if sum == 0 {
		return 0
	}
	n := r.Intn(sum)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

// Shuffle permutes a copy.
func Shuffle[E any](r R, xs []E) []E {
	out := append([]E{}, xs...)
	for i := len(out) - 1; i > 0; i-- {
		j := i - r.Intn(i+1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Of makes a generator.
func Of[C any](f func(R) C) func(*rapid.T) C {
	return func(t *rapid.T) C { return f(R{t}) }
}
