package x

import "verif.local/h/nd"

// IntOrder is a weak order on small ints with its meaning: natural, reversed,
// three-valued, coarse.
func IntOrder(i int) func(a, b int) int {
	switch i {
	case 0:
		return IntCmp
	case 1:
		return func(a, b int) int { return b - a }
	case 2:
		return func(a, b int) int {
			if a < b {
				return -1
			}
			if a > b {
				return 1
			}
			return 0
		}
	}
	return func(a, b int) int { return (a >> 1) - (b >> 1) }
}

// InOrder is the fork-free condition that the entries are in key order, equal
// keys in the order of their identities (insertion order).
func InOrder(s []E, cmp func(a, b int) int) bool {
	ok := true
	for i := 1; i < len(s); i++ {
		c := cmp(s[i-1].K, s[i].K)
		if s[i-1].ID < s[i].ID {
			ok = nd.And(ok, c <= 0)
		} else {
			ok = nd.And(ok, c < 0)
		}
	}
	return ok
}

// Below: every entry before p is less than q, and entry p is not (fork-free).
func Below(s []E, p, q int, cmp func(a, b int) int) bool {
	ok := true
	for i := 0; i < p; i++ {
		ok = nd.And(ok, cmp(s[i].K, q) < 0)
	}
	if p < len(s) {
		ok = nd.And(ok, cmp(s[p].K, q) >= 0)
	}
	return ok
}

// Upto: no entry before p is greater than q, and entry p is (fork-free).
func Upto(s []E, p, q int, cmp func(a, b int) int) bool {
	ok := true
	for i := 0; i < p; i++ {
		ok = nd.And(ok, cmp(s[i].K, q) <= 0)
	}
	if p < len(s) {
		ok = nd.And(ok, cmp(s[p].K, q) > 0)
	}
	return ok
}

// None: no entry equals q (fork-free).
func None(s []E, q int, cmp func(a, b int) int) bool {
	ok := true
	for _, e := range s {
		ok = nd.And(ok, cmp(e.K, q) != 0)
	}
	return ok
}

// Moved asserts that now is was with the entry of identity id added (add) or
// removed, by identity and key, in any order for the added one.
func Moved(was, now []E, id int, add bool, msg string) {
	if add {
		was, now = now, was
	}
	nd.Assert(len(was) == len(now)+1, msg+": wrong number of entries")
	k, ok := 0, true
	for _, e := range was {
		if e.ID == id && (k >= len(now) || now[k].ID != id) {
			continue
		}
		nd.Assert(k < len(now) && now[k].ID == e.ID, msg+": entries lost, duplicated or reordered")
		ok = nd.And(ok, now[k].K == e.K)
		k++
	}
	nd.Assert(k == len(now), msg+": an entry too many")
	nd.Assert(ok, msg+": a key changed")
}

// Rand is a small deterministic generator for concrete histories.
type Rand struct{ S int }

// N is a number in [0,n).
func (r *Rand) N(n int) int {
	r.S = (r.S*1103515245 + 12345) & 0x7fffffff
	return (r.S >> 8) % n
}
