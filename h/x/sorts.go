package x

import "verif.local/h/nd"

// Orders is the number of comparators Order knows.
const Orders = 4

// Order is a weak order with its meaning on keys: natural, reversed,
// three-valued, coarse (pairs of keys equal).
func Order(i int) func(a, b E) int {
	switch i {
	case 0:
		return Cmp
	case 1:
		return RCmp
	case 2:
		return Cmp3
	}
	return func(a, b E) int { return (a.K >> 1) - (b.K >> 1) }
}

// Run applies f to the sub-range [lo,hi) of a container holding elems.
type Run struct {
	Before, After []E
	Lo, Hi        int
	Cmp           func(a, b E) int
}

// Pattern is n concrete keys of a typical shape.
func Pattern(p, n int) []E {
	s := make([]E, n)
	for i := range s {
		k := 0
		switch p {
		case 0: // increasing
			k = 2 * i
		case 1: // decreasing
			k = 2 * (n - i)
		case 2: // all equal
			k = 10
		case 3: // organ pipe
			if i < n/2 {
				k = 2 * i
			} else {
				k = 2 * (n - i)
			}
		case 4: // few values
			k = 2 * (i * 7 % 3)
		case 5: // mostly one value, some smaller ones
			if k = 10; scramble(i)%9 == 0 {
				k = 2 * (scramble(i) / 9 % 5)
			}
		case 6: // mostly one value, some larger ones
			if k = 10; scramble(i)%9 == 0 {
				k = 12 + 2*(scramble(i)/9%5)
			}
		default: // scattered
			k = 2 * (i * 37 % 101)
		}
		s[i] = E{k, i}
	}
	return s
}

func scramble(i int) int {
	h := uint32(i+1) * 2654435761
	h = (h ^ h>>15) * 2246822519
	return int((h ^ h>>13) >> 8)
}

// Patterns is the number of patterns.
const Patterns = 8

// Small: all contents of length n+pads, range [lo, lo+n).
func Small(n, lo, hi int) ([]E, int, int) {
	return Fresh(lo + n + hi), lo, lo + n
}

// SymAt replaces the key at position i by an arbitrary one.
func SymAt(s []E, i int) { s[i].K = int(nd.Uint8()) }
