package c20

import (
	"github.com/liyue201/gostl/ds/hamt"

	"verif.local/h/nd"
	"verif.local/h/shim/fnv"
)

// names are the keys in use; a number of them is taken by each harness.
var names = []string{"", "a", "ab", "b", "\x00", "abc", "ba", "c"}

type state struct {
	h    *hamt.Hamt[int]
	keys []string
	v    []int // the value each key must have, 0 when absent
	id   int
	buf  []byte // the keys passed are written here one after the other
}

// key writes key i over the key passed before.
func (w *state) key(i int) hamt.Key {
	w.buf = append(w.buf[:0], w.keys[i]...)
	return w.buf
}

func newState(n int, safe bool) *state {
	fnv.Fixed = nil
	w := &state{id: 1}
	if safe {
		w.h = hamt.New[int](hamt.WithGoroutineSafe())
	} else {
		w.h = hamt.New[int]()
	}
	for i := 0; i < n; i++ {
		k := string(rune('A'+i%26)) + string(rune('0'+i/26))
		if i < len(names) {
			k = names[i]
		}
		w.keys = append(w.keys, k)
	}
	w.v = make([]int, n)
	return w
}

func (w *state) insert(i int) {
	w.h.Insert(w.key(i), w.id)
	w.v[i] = w.id
	w.id++
}

func (w *state) erase(i int) {
	ok := w.h.Erase(w.key(i))
	nd.Assert(ok == (w.v[i] != 0), "Erase reports wrongly whether the key was there")
	w.v[i] = 0
}

func (w *state) get(i int) {
	v, err := w.h.Get(w.key(i))
	if w.v[i] == 0 {
		nd.Assert(err != nil, "Get finds an absent key")
		nd.Assert(v == 0, "Get makes up a value")
	} else {
		nd.Assert(err == nil, "a present key is lost")
		nd.Assert(v == w.v[i], "Get returns another value than the last inserted")
	}
}

func (w *state) index(k string) int {
	for i := range w.keys {
		if w.keys[i] == k {
			return i
		}
	}
	return -1
}

// list checks the listings.
func (w *state) list() {
	n := 0
	for _, v := range w.v {
		if v != 0 {
			n++
		}
	}
	for how := 0; how < 3; how++ {
		seen := make([]bool, len(w.keys))
		c := 0
		see := func(k string) int {
			i := w.index(k)
			nd.Assert(i >= 0 && w.v[i] != 0, "an absent key is listed")
			nd.Assert(!seen[i], "a key is listed twice")
			seen[i] = true
			c++
			return i
		}
		switch how {
		case 0:
			for _, k := range w.h.Keys() {
				see(string(k))
			}
		case 1:
			for _, k := range w.h.StringKeys() {
				see(k)
			}
		default:
			w.h.Traversal(func(k hamt.Key, v int) bool {
				nd.Assert(v == w.v[see(string(k))], "a key is listed with another value")
				return true
			})
		}
		nd.Assert(c == n, "a present key is not listed")
	}
}

func (w *state) all() {
	for i := range w.keys {
		w.get(i)
	}
	w.list()
}

// H_any: two keys of any hashes: any operations on them.
func H_any() {
	w := newState(nd.Param("keys", 2, 3), false)
	for i := range w.keys {
		w.insert(i)
	}
	for k := nd.Param("k", 1, 2); k > 0; k-- {
		i := nd.Pick(len(w.keys))
		if nd.Choice(2) == 0 {
			w.insert(i)
		} else {
			w.erase(i)
		}
	}
	w.all()
}

// universe confines the hashes to those that agree with base outside mask:
// all of them, partial and full collisions included.
type universe struct{ mask, base uint64 }

var universes = []universe{
	{0b100001_000001, 0},                        // first two levels
	{1<<63 | 1<<60 | 1<<5, 0},                   // first and last level
	{1<<63 | 1<<60 | 1<<54, 0},                  // last two levels
	{1<<30 | 1<<35 | 1<<42, ^uint64(0)},         // middle levels, all ones elsewhere
	{1<<0 | 1<<2 | 1<<5, 0x8000_0000_0000_0000}, // one level, many children
	{0, 0x1234_5678_9abc_def0},                  // one hash for all
}

// in gives every key an arbitrary hash of the universe.
func (w *state) in(u universe) {
	hs := map[string]uint64{}
	for _, k := range w.keys {
		h := nd.Int()
		nd.Assume(uint64(h)&^u.mask == u.base&^u.mask)
		hs[k] = uint64(nd.Conc(h))
	}
	fnv.Fixed = func(b []byte) (uint64, bool) { h, ok := hs[string(b)]; return h, ok }
}

// H_ops: any operations on keys of any hashes of the universes.
func H_ops() {
	w := newState(nd.Param("n", 2, 3), false)
	w.in(universes[nd.Choice(len(universes))])
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		i := nd.Pick(len(w.keys))
		if nd.Choice(2) == 0 {
			w.insert(i)
		} else {
			w.erase(i)
		}
	}
	w.all()
}

// H_fill: several keys of the universes, then erasures and an insertion.
func H_fill() {
	w := newState(nd.Param("n", 3, 4), false)
	w.in(universes[nd.Choice(len(universes))])
	for i := range w.keys {
		w.insert(i)
	}
	w.all()
	for d := nd.Param("d", 1, 2); d > 0; d-- {
		w.erase(nd.Pick(len(w.keys)))
		w.all()
	}
	w.insert(nd.Pick(len(w.keys)))
	w.all()
}

// wide gives key i a hash of a fixed kind; key 0's stays arbitrary within u.
func (w *state) wide(kind int) {
	fnv.Fixed = func(b []byte) (uint64, bool) {
		i := uint64(w.index(string(b)))
		switch kind {
		case 0: // all slots of the first level
			return i, true
		case 1: // one slot, then all slots of the second
			return i<<6 | 7, true
		case 2: // deep chain, then spread
			return i << 58, true
		case 3: // few hashes, many full collisions
			return i % 3 << 40, true
		case 4: // scattered
			return (i + 1) * 0x9e3779b97f4a7c15, true
		default: // nested prefixes
			return ^uint64(0) << (i % 64), true
		}
	}
}

// H_big: a larger trie of each kind; any keys erased and inserted.
func H_big() {
	n := nd.Param("n", 24, 100)
	w := newState(n, nd.Choice(2) == 1)
	w.wide(nd.Choice(6))
	for i := 0; i < n; i++ {
		w.insert(i)
	}
	w.all()
	if nd.Choice(2) == 0 {
		w.erase(nd.Pick(n))
	} else {
		w.insert(nd.Pick(n))
	}
	w.erase(nd.Pick(n))
	w.all()
}

// H_drain: a larger trie emptied in various orders, exact throughout.
func H_drain() {
	n := nd.Param("n", 24, 70)
	w := newState(n, nd.Choice(2) == 1)
	w.wide(nd.Choice(6))
	for i := 0; i < n; i++ {
		w.insert(i)
	}
	step := []int{1, 5, 7, n - 1}[nd.Choice(4)]
	for n%step == 0 && step > 1 {
		step--
	}
	i := nd.Pick(n)
	for c := 0; c < n; c++ {
		w.erase(i)
		w.erase(i)
		w.all()
		i = (i + step) % n
		for c+1 < n && w.v[i] == 0 {
			i = (i + 1) % n
		}
	}
	w.insert(i)
	w.all()
}

// H_churn: long histories.
func H_churn() {
	n := nd.Param("n", 20, 64)
	w := newState(n, true)
	w.wide(nd.Choice(6))
	s := 5 + nd.Choice(nd.Param("seeds", 8, 20))
	r := func(m int) int {
		s = (s*1103515245 + 12345) & 0x7fffffff
		return (s >> 8) % m
	}
	for k := nd.Param("k", 120, 400); k > 0; k-- {
		if r(5) < 3 {
			w.insert(r(n))
		} else {
			w.erase(r(n))
		}
		if k%4 == 0 {
			w.all()
		}
	}
	i := nd.Pick(n)
	w.erase(i)
	w.insert(i / 2)
	w.all()
}

// H_bytes: any two-byte keys are told apart by their bytes.
func H_bytes() {
	w := newState(0, true)
	fnv.Fixed = func([]byte) (uint64, bool) { return 42, true }
	a := hamt.Key{nd.Uint8(), nd.Uint8()}
	b := hamt.Key{nd.Uint8(), nd.Uint8()}
	w.h.Insert(a, 1)
	w.h.Insert(b, 2)
	same := nd.And(a[0] == b[0], a[1] == b[1])
	v, err := w.h.Get(hamt.Key{a[0], a[1]})
	nd.Assert(err == nil && v == nd.IteInt(same, 2, 1), "Get confuses keys")
	nd.Assert(len(w.h.Keys()) == nd.IteInt(same, 1, 2), "Keys is wrong")
	nd.Assert(w.h.Erase(hamt.Key{b[0], b[1]}), "a present key is not erased")
	_, err = w.h.Get(a)
	nd.Assert((err != nil) == same, "Erase confuses keys")
}

// H_huge: a thousand keys and more of each kind of hash, long histories; then any of some keys is erased or inserted.
func H_huge() {
	n := nd.Param("n", 1200, 4000)
	kind := nd.Choice(5)
	num := func(b []byte) uint64 { return uint64(b[0]) | uint64(b[1])<<8 }
	fnv.Fixed = func(b []byte) (uint64, bool) {
		i := num(b)
		switch kind {
		case 0: // scattered
			return (i + 1) * 0x9e3779b97f4a7c15, true
		case 1: // dense at the top
			return i, true
		case 2: // dense at the bottom
			return i << 52, true
		case 3: // full collisions
			return i % 97 * 0x9e3779b97f4a7c15, true
		default: // two long common prefixes
			return i>>1<<30 | i&1, true
		}
	}
	var h *hamt.Hamt[int]
	if nd.Choice(2) == 1 {
		h = hamt.New[int](hamt.WithGoroutineSafe())
	} else {
		h = hamt.New[int]()
	}
	key := func(i int) hamt.Key { return hamt.Key{byte(i), byte(i >> 8)} }
	v := make([]int, n)
	count, id := 0, 1
	put := func(i int) {
		h.Insert(key(i), id)
		if v[i] == 0 {
			count++
		}
		v[i] = id
		id++
	}
	del := func(i int) {
		nd.Assert(h.Erase(key(i)) == (v[i] != 0), "Erase reports wrongly whether the key was there")
		if v[i] != 0 {
			count--
		}
		v[i] = 0
	}
	one := func(i int) {
		g, err := h.Get(key(i))
		nd.Assert((err == nil) == (v[i] != 0) && g == v[i], "Get is wrong")
	}
	all := func() {
		for i := range v {
			one(i)
		}
		seen, c := make([]bool, n), 0
		h.Traversal(func(k hamt.Key, w int) bool {
			i := int(num(k))
			nd.Assert(len(k) == 2 && i < n && !seen[i] && v[i] == w, "Traversal is wrong")
			seen[i] = true
			c++
			return true
		})
		nd.Assert(c == count && len(h.Keys()) == count && len(h.StringKeys()) == count, "keys are missing")
	}
	for i := range v {
		put(i * 7 % n)
	}
	all()
	s := 11
	r := func(m int) int {
		s = (s*1103515245 + 12345) & 0x7fffffff
		return (s >> 8) % m
	}
	for k := 0; k < n; k++ {
		if i := r(n); r(3) == 0 {
			put(i)
		} else {
			del(i)
		}
		one(r(n))
	}
	all()
	q := nd.Conc([]int{0, n / 2, n - 8}[nd.Choice(3)] + nd.IntIn(0, 7))
	if nd.Choice(2) == 0 {
		put(q)
	} else {
		del(q)
	}
	all()
	for i := range v { // everything goes
		del(i)
	}
	all()
	put(q)
	all()
}

// H_seq: every sequence of calls on three keys whose hashes are equal, share a prefix or differ, among others, with nothing read in between.
func H_seq() {
	size := nd.Choice(3)
	kind := nd.Choice(6)
	num := func(b []byte) int { return int(b[0]) }
	fnv.Fixed = func(b []byte) (uint64, bool) {
		i := uint64(b[0])
		if i >= 3 {
			return (i + 1) * 0x9e3779b97f4a7c15, true
		}
		switch kind {
		case 0: // all equal
			return 0x123456789abcdef0, true
		case 1: // one differs in the last position
			return 0x123456789abcdef0 | i>>1<<63, true
		case 2: // in the first
			return 0x123456789abcdef0 + i>>1, true
		case 3: // all differ in the middle
			return 0x123456789abcdef0 ^ i<<30, true
		case 4: // one in the middle, one at the end
			return 0x123456789abcdef0 ^ i&1<<24 ^ i>>1<<60, true
		default:
			return (i + 1) * 0x9e3779b97f4a7c15, true
		}
	}
	h := hamt.New[int]()
	n := 3 + []int{0, 4, 70}[size]
	v := make([]int, n)
	count, id := 0, 1
	put := func(i int) {
		h.Insert(hamt.Key{byte(i)}, id)
		if v[i] == 0 {
			count++
		}
		v[i] = id
		id++
	}
	one := func(i int) {
		g, err := h.Get(hamt.Key{byte(i)})
		nd.Assert((err == nil) == (v[i] != 0) && g == v[i], "Get is wrong")
	}
	for i := 3; i < n; i++ {
		put(i)
	}
	put(1)
	steps := nd.Param("k", 4, 6)
	if size == 2 {
		steps--
	}
	for ; steps > 0; steps-- {
		c := nd.Choice(9)
		i := c % 3
		switch c / 3 {
		case 0:
			put(i)
		case 1:
			nd.Assert(h.Erase(hamt.Key{byte(i)}) == (v[i] != 0), "Erase reports wrongly whether the key was there")
			if v[i] != 0 {
				count--
			}
			v[i] = 0
		default:
			one(i)
		}
	}
	for i := range v {
		one(i)
	}
	c := 0
	h.Traversal(func(k hamt.Key, w int) bool {
		i := num(k)
		nd.Assert(len(k) == 1 && i < n && v[i] == w && w != 0, "Traversal is wrong")
		c++
		return true
	})
	nd.Assert(c == count && len(h.Keys()) == count && len(h.StringKeys()) == count, "keys are missing")
}
