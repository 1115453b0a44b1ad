package c29

import (
	"github.com/liyue201/gostl/algorithm/hash"

	"verif.local/h/nd"
	"verif.local/h/shim/sha512"
)

// chain is what GenHashInts must return, from the same digest function.
func chain(seed []byte, n int) []uint64 {
	var r []uint64
	d := append([]byte(nil), seed...)
	for len(r) < n {
		s := sha512.Sum512(d)
		d = s[:]
		for i := 0; i < 64; i += 8 {
			v := uint64(0)
			for j := 0; j < 8; j++ {
				v = v<<8 | uint64(d[i+j])
			}
			r = append(r, v)
		}
	}
	return r[:n]
}

func same(a, b []uint64, msg string) {
	nd.Assert(len(a) == len(b), msg+": number of words")
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	nd.Assert(ok, msg)
}

func seed(n int) []byte {
	s := make([]byte, nd.ChoiceIn(0, n), n+[]int{3, 64, 200}[nd.Choice(3)])
	for i := range s {
		s[i] = nd.Uint8()
	}
	return s
}

func check(s []byte, n int) []uint64 {
	was := append([]byte(nil), s...)
	c := cap(s)
	full := append([]byte(nil), s[:c]...)
	r := hash.GenHashInts(s, n)
	ok := true
	for i := range was {
		ok = nd.And(ok, s[i] == was[i])
	}
	for i := range full {
		ok = nd.And(ok, s[:c][i] == full[i])
	}
	nd.Assert(ok, "the seed was modified")
	same(r, chain(was, n), "the words are not those of the digest chain")
	return r
}

// H_any: any seed, any digests.
func H_any() {
	sha512.Fixed = nil
	check(seed(nd.Param("seed", 4, 8)), nd.ChoiceIn(0, nd.Param("n", 20, 34)))
}

// H_prefix: a longer request starts with the shorter one's words; asking
// again gives the same; results share nothing.
func H_prefix() {
	sha512.Fixed = nil
	s := seed(2)
	m := nd.Param("n", 20, 34)
	n := nd.ChoiceIn(0, m)
	long := check(s, m)
	short := check(s, n)
	same(long[:n], short, "a shorter request is not a prefix of a longer one")
	if n > 0 {
		short[nd.Pick(n)]++
	}
	same(check(s, m), long, "asking again gives other words")
}

// H_digest: Hash512 is the digest, in bytes.
func H_digest() {
	sha512.Fixed = nil
	s := seed(4)
	d := hash.Hash512(s)
	w := sha512.Sum512(s)
	nd.Assert(len(d) == 64, "Hash512 is not 64 bytes")
	ok := true
	for i := range d {
		ok = nd.And(ok, d[i] == w[i])
	}
	nd.Assert(ok, "Hash512 is not the digest")
}

// H_long: many words, concrete digests.
func H_long() {
	sha512.Fixed = func(b []byte) []uint64 {
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		w := make([]uint64, 8)
		for i := range w {
			h = (h ^ h>>29) * 0xbf58476d1ce4e5b9
			w[i] = h
		}
		return w
	}
	n := nd.Pick(nd.Param("n", 300, 1100))
	s := []byte("a seed of some length, not a multiple of anything")
	r := check(s, n)
	for i := range r {
		for j := 0; j < i && j < 40; j++ {
			nd.Assert(r[i] != r[j], "the words repeat")
		}
	}
}
