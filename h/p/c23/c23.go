package c23

import (
	bloom "github.com/liyue201/gostl/ds/bloomfilter"

	"verif.local/h/nd"
	"verif.local/h/shim/sha512"
)

// mix is a concrete digest for larger histories.
func mix(b []byte) []uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	w := make([]uint64, 8)
	for i := range w {
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
		w[i] = h
	}
	return w
}

func mk(m, k uint64, safe bool) *bloom.BloomFilter {
	if safe {
		return bloom.New(m, k, bloom.WithGoroutineSafe())
	}
	return bloom.New(m, k)
}

func rebuild(f *bloom.BloomFilter, safe bool) *bloom.BloomFilter {
	if safe {
		return bloom.NewFromData(f.Data(), bloom.WithGoroutineSafe())
	}
	return bloom.NewFromData(f.Data())
}

// arbitrary lets every digest be arbitrary.
func arbitrary() { sha512.Fixed = nil }

// narrow confines the digest words to 12 bits, for sizes that are not a power
// of two (64-bit remainders are beyond the solver's reach in time).
func narrow() {
	seen := map[string][]uint64{}
	sha512.Fixed = func(b []byte) []uint64 {
		w, ok := seen[string(b)]
		if !ok {
			w = make([]uint64, 8)
			for i := range w {
				w[i] = uint64(nd.Uint16() >> 4)
			}
			seen[string(b)] = w
		}
		return w
	}
}

var ms = []uint64{1, 2, 8, 64, 7, 13, 100}

// size picks the number of bits, and sets what digests there can be.
func size(n int) uint64 {
	m := ms[nd.Choice(n)]
	if m&(m-1) == 0 {
		arbitrary()
	} else {
		narrow()
	}
	return m
}

// H_added: values added are contained, whatever is added later; an empty
// filter contains nothing. Any digests.
func H_added() {
	m := size(nd.Param("m", 7, 7))
	k := uint64(nd.ChoiceIn(0, nd.Param("k", 3, 4)))
	f := mk(m, k, nd.Choice(2) == 1)
	vals := []string{"", "a", "b"}
	for i, v := range vals {
		if i == 0 || k == 0 {
			nd.Assert(f.Contains(v) == (k == 0), "a filter without additions contains something")
		}
	}
	for i, v := range vals[:nd.Param("vals", 3, 3)] {
		f.Add(v)
		for _, u := range vals[:i+1] {
			nd.Assert(f.Contains(u), "an added value is forgotten")
		}
	}
}

// H_words: many hash functions, the digest's groups crossed; any digests for
// the first value.
func H_words() {
	k := uint64([]int{7, 8, 9, 16, 17, 20}[nd.Choice(6)])
	m := []uint64{16, 64}[nd.Choice(2)]
	sha512.Fixed = mix
	f := mk(m, k, false)
	nd.Assert(!f.Contains("x"), "a filter without additions contains something")
	n := 0
	sha512.Fixed = func(b []byte) []uint64 {
		// the digests of the first value's hash words: one word arbitrary
		w := mix(b)
		if n == 0 {
			w[nd.Choice(8)] = uint64(nd.Pick(int(m)))
			n = 1
		}
		return w
	}
	seen := map[string][]uint64{}
	inner := sha512.Fixed
	sha512.Fixed = func(b []byte) []uint64 {
		if w, ok := seen[string(b)]; ok {
			return w
		}
		w := inner(b)
		seen[string(b)] = w
		return w
	}
	f.Add("x")
	nd.Assert(f.Contains("x"), "an added value is forgotten")
	f.Add("y")
	f.Add("")
	nd.Assert(f.Contains("x") && f.Contains("y") && f.Contains(""), "an added value is forgotten")
}

// H_data: a filter rebuilt from data answers like the original, for any
// digests, and stays as it was when the original goes on.
func H_data() {
	m := size(nd.Param("m", 7, 7))
	k := uint64(nd.ChoiceIn(0, nd.Param("k", 2, 2)))
	f := mk(m, k, nd.Choice(2) == 1)
	if nd.Choice(2) == 1 {
		f.Add("a")
	}
	g := rebuild(f, nd.Choice(2) == 1)
	for _, v := range []string{"a", "b"} {
		nd.Assert(g.Contains(v) == f.Contains(v), "a filter rebuilt from data answers differently")
	}
	was := g.Contains("b")
	f.Add("b")
	nd.Assert(g.Contains("b") == was, "an addition to the original shows in the rebuilt filter")
	g.Add("a")
	nd.Assert(g.Contains("a"), "a rebuilt filter forgets an added value")
	nd.Assert(f.Contains("b"), "an added value is forgotten")
}

// H_reuse: the same data rebuilds the same filter again and again.
func H_reuse() {
	arbitrary()
	f := mk(64, uint64(nd.ChoiceIn(1, 2)), false)
	if nd.Choice(2) == 1 {
		f.Add("a")
	}
	was := f.Contains("b")
	d := f.Data()
	g := bloom.NewFromData(d)
	nd.Assert(g.Contains("b") == was, "a filter rebuilt from data answers differently")
	if nd.Choice(2) == 1 {
		g.Add("b")
	} else {
		f.Add("b")
	}
	h := bloom.NewFromData(d)
	nd.Assert(h.Contains("b") == was, "data changed when a filter built from it did")
}

var words = []string{"", "a", "b", "ab", "ba", "foo", "bar", "baz", "quux", "a\x00", "\xff", "longer value with spaces", "0", "1", "2", "3", "4", "5", "6", "7"}

// H_many: many values in filters of many shapes; never forgotten, exact after
// a round trip.
func H_many() {
	sha512.Fixed = mix
	m := uint64(1 + nd.Pick(nd.Param("m", 70, 300)))
	k := uint64([]int{1, 3, 9}[nd.Choice(3)])
	f := mk(m, k, nd.Choice(2) == 1)
	for _, v := range words {
		nd.Assert(!f.Contains(v), "a filter without additions contains something")
	}
	half := len(words) / 2
	for i, v := range words[:half] {
		f.Add(v)
		for _, u := range words[:i+1] {
			nd.Assert(f.Contains(u), "an added value is forgotten")
		}
	}
	g := rebuild(f, nd.Choice(2) == 1)
	was := make([]bool, len(words))
	for i, v := range words {
		was[i] = f.Contains(v)
		nd.Assert(g.Contains(v) == was[i], "a filter rebuilt from data answers differently")
	}
	for _, v := range words[half:] {
		f.Add(v)
	}
	for i, v := range words {
		nd.Assert(f.Contains(v), "an added value is forgotten")
		nd.Assert(g.Contains(v) == was[i], "an addition to the original shows in the rebuilt filter")
	}
	h := rebuild(g, false)
	for i, v := range words {
		nd.Assert(h.Contains(v) == was[i], "a filter rebuilt from data answers differently")
	}
}

// H_estimates: filters sized by estimates keep what is added.
func H_estimates() {
	sha512.Fixed = mix
	n := uint64([]int{1, 2, 10, 100, 1000}[nd.Choice(5)])
	p := []float64{0.5, 0.1, 0.01, 0.0001}[nd.Choice(4)]
	var f *bloom.BloomFilter
	if nd.Choice(2) == 1 {
		f = bloom.NewWithEstimates(n, p, bloom.WithGoroutineSafe())
	} else {
		f = bloom.NewWithEstimates(n, p)
	}
	m, k := bloom.EstimateParameters(n, p)
	nd.Assert(m >= 1 && k >= 1, "the estimated parameters are unusable")
	w := words[nd.Pick(len(words))]
	nd.Assert(!f.Contains(w), "a filter without additions contains something")
	f.Add(w)
	for _, v := range words {
		f.Add(v)
	}
	nd.Assert(f.Contains(w), "an added value is forgotten")
	g := rebuild(f, false)
	nd.Assert(g.Contains(w), "a filter rebuilt from data answers differently")
}

// H_huge: filters of thousands of bits with hundreds of values.
func H_huge() {
	sha512.Fixed = mix
	m := uint64([]int{4099, 20000, 8192, 65536}[nd.Choice(nd.Param("sizes", 3, 4))])
	k := uint64([]int{1, 7, 20}[nd.Choice(3)])
	f := mk(m, k, nd.Choice(2) == 1)
	n := nd.Param("vals", 150, 600)
	word := func(i int) string { return string(rune('a'+i%26)) + string(rune('a'+i/26)) }
	for i := 0; i < n; i++ {
		f.Add(word(i))
		if i%40 == 0 {
			for j := 0; j <= i; j++ {
				nd.Assert(f.Contains(word(j)), "an added value is forgotten")
			}
		}
	}
	q := nd.Conc(nd.IntIn(0, 9))
	g := rebuild(f, nd.Choice(2) == 1)
	for i := 0; i < n; i++ {
		nd.Assert(f.Contains(word(i)), "an added value is forgotten")
	}
	for i := 0; i < 2*n; i++ {
		nd.Assert(g.Contains(word(i)) == f.Contains(word(i)), "a filter rebuilt from data answers differently")
	}
	was := f.Contains(word(2*n + q))
	g.Add(word(2*n + q))
	nd.Assert(g.Contains(word(2*n+q)), "an added value is forgotten")
	nd.Assert(f.Contains(word(2*n+q)) == was, "an addition to the rebuilt filter shows in the original")
	for i := 0; i < n; i++ {
		nd.Assert(g.Contains(word(i)), "an added value is forgotten")
	}
}

// H_seq: any sequence of calls, without reads in between but those it holds;
// then every value is asked for. Long values that agree far, digests that
// collide in few bits, the filter replaced by a rebuilt one on the way.
func H_seq() {
	long := ""
	for i := 0; i < 150; i++ {
		long += "z"
	}
	vals := []string{"a", "", long + "1", long + "2"}[:nd.Param("vals", 4, 4)]
	m := uint64([]int{64, 8, 100, 1000}[nd.Choice(nd.Param("ms", 3, 4))])
	k := uint64([]int{1, 2, 9}[nd.Choice(nd.Param("ks", 2, 3))])
	sha512.Fixed = mix
	n := nd.Param("steps", 4, 5)
	if k == 1 && m == 64 {
		arbitrary()
		n--
	}
	f := mk(m, k, nd.Choice(2) == 1)
	added := make([]bool, len(vals))
	for s := 0; s < n; s++ {
		switch op := nd.Choice(2 + 2*len(vals)); {
		case op == 0:
			f.Data()
		case op == 1:
			f = rebuild(f, nd.Choice(2) == 1)
		case op%2 == 0:
			f.Add(vals[op/2-1])
			added[op/2-1] = true
		default:
			nd.Assert(!added[op/2-1] || f.Contains(vals[op/2-1]), "an added value is forgotten")
		}
	}
	any := false
	for _, a := range added {
		any = any || a
	}
	g := rebuild(f, false)
	for i, v := range vals {
		c := f.Contains(v)
		nd.Assert(any || !c, "a filter without additions contains something")
		nd.Assert(!added[i] || c, "an added value is forgotten")
		nd.Assert(g.Contains(v) == c, "a filter rebuilt from data answers differently")
	}
}
