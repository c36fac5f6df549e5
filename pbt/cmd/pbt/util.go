package main

import (
	"math/bits"
	"reflect"
	"sort"

	"pgregory.net/rapid"
)

func deref(p any) any { return reflect.ValueOf(p).Elem().Interface() }

var bit = rapid.Bool()

// below draws a number in [0, n), nearly uniformly, shrinking towards 0.
func below(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 2
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(t, "") {
			v |= 1
		}
	}
	return v * n >> k
}

// between draws from [lo, hi].
func between(t *rapid.T, lo, hi int) int { return lo + below(t, hi-lo+1) }

// chance is true with probability num/den, and shrinks to false.
func chance(t *rapid.T, num, den int) bool { return below(t, den) >= den-num }

func pick[T any](t *rapid.T, l []T) T { return l[below(t, len(l))] }

// weighted draws an index with the given weights; earlier is simpler.
func weighted(t *rapid.T, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := below(t, sum)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return len(weights) - 1
}

func sortedKeys(m map[string]any) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
