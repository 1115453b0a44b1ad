// Package c31: copies and derived containers share nothing with their source.
package c31

import (
	"github.com/liyue201/gostl/ds/array"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/vector"

	"verif.local/h/nd"
	"verif.local/h/shim/fnv"
	"verif.local/h/shim/rand"
	"verif.local/h/shim/sha512"
	"verif.local/h/x"
)

func vec(v *vector.Vector[int]) []int {
	r := []int{}
	for i := 0; i < v.Size(); i++ {
		r = append(r, v.At(i))
	}
	return r
}

// vecOp does something to v and to what it must hold.
func vecOp(v *vector.Vector[int], w []int) []int {
	n := len(w)
	switch nd.Choice(12) {
	case 0:
		v.PushBack(500)
		return append(w, 500)
	case 1:
		if n > 0 {
			v.PopBack()
			return w[:n-1]
		}
	case 2:
		p := nd.Choice(n + 1)
		v.InsertAt(p, 501)
		return x.Ins(w, p, 501)
	case 3:
		if n > 0 {
			p := nd.Choice(n)
			v.SetAt(p, 502)
			w[p] = 502
		}
	case 4:
		if n > 0 {
			p := nd.Choice(n)
			v.EraseAt(p)
			return x.Rem(w, p)
		}
	case 5:
		v.Clear()
		return nil
	case 6:
		v.ShrinkToFit()
	case 7:
		v.Reserve(n + 3)
	case 8:
		if n > 0 {
			v.Begin().SetValue(503)
			w[0] = 503
		}
	case 9:
		if n > 1 {
			v.EraseIndexRange(0, 2)
			return append([]int{}, w[2:]...)
		}
	case 10:
		if n > 0 {
			v.Resize(n - 1)
			return w[:n-1]
		}
	default:
		if n > 0 {
			v.Data()[n-1] = 504
			w[n-1] = 504
		}
	}
	return w
}

// H_vector: a vector built from another one.
func H_vector() {
	n := nd.Choice(nd.Param("n", 4, 5))
	v := vector.New[int](vector.WithCapacity([]int{0, n, n + 2}[nd.Choice(3)]))
	var w []int
	for i := 0; i < n; i++ {
		k := nd.Int()
		v.PushBack(k)
		w = append(w, k)
	}
	if nd.Choice(2) == 1 && n > 0 {
		v.PopBack()
		w = w[:n-1]
	}
	c := vector.NewFromVector(v)
	wc := append([]int{}, w...)
	x.SameInts(vec(c), wc, "a copied vector starts otherwise")
	nd.Assert(c.Size() == len(w), "a copied vector has another size")
	for d := 0; d < nd.Param("ops", 2, 3); d++ {
		if nd.Choice(2) == 0 {
			w = vecOp(v, w)
		} else {
			wc = vecOp(c, wc)
		}
		x.SameInts(vec(v), w, "an operation on the copy shows in the source")
		x.SameInts(vec(c), wc, "an operation on the source shows in the copy")
	}
	// both grow into what room they have
	v.PushBack(1)
	c.PushBack(2)
	x.SameInts(vec(v), append(w, 1), "an operation on the copy shows in the source")
	x.SameInts(vec(c), append(wc, 2), "an operation on the source shows in the copy")
}

func arr(a *array.Array[int]) []int {
	r := []int{}
	for i := 0; i < a.Size(); i++ {
		r = append(r, a.At(i))
	}
	return r
}

// H_array: an array built from another one.
func H_array() {
	n := nd.Choice(nd.Param("n", 4, 5))
	a := array.New[int](n)
	w := make([]int, n)
	for i := 0; i < n; i++ {
		w[i] = nd.Int()
		a.Set(i, w[i])
	}
	c := array.NewFromArray(a)
	wc := append([]int{}, w...)
	nd.Assert(c.Size() == n, "a copied array has another size")
	x.SameInts(arr(c), wc, "a copied array starts otherwise")
	other := array.New[int](n)
	for d := 0; d < nd.Param("ops", 2, 3); d++ {
		t, wt := a, &w
		if nd.Choice(2) == 1 {
			t, wt = c, &wc
		}
		switch nd.Choice(5) {
		case 0:
			t.Fill(7)
			for i := range *wt {
				(*wt)[i] = 7
			}
		case 1:
			if n > 0 {
				p, v := nd.Choice(n), nd.Int()
				t.Set(p, v)
				(*wt)[p] = v
			}
		case 2:
			t.SwapArray(other)
			*wt = make([]int, n)
			other = array.New[int](n)
		case 3:
			if n > 0 {
				t.Last().SetValue(9)
				(*wt)[n-1] = 9
			}
		default:
			if n > 0 {
				t.Data()[0] = 8
				(*wt)[0] = 8
			}
		}
		x.SameInts(arr(a), w, "an operation on the copy shows in the source")
		x.SameInts(arr(c), wc, "an operation on the source shows in the copy")
	}
	a.SwapArray(c)
	x.SameInts(arr(a), wc, "swapped arrays")
	x.SameInts(arr(c), w, "swapped arrays")
}

func list(l *bidlist.List[int]) []int {
	r := []int{}
	for n, i := l.FrontNode(), 0; n != nil && i < 50; n, i = n.Next(), i+1 {
		r = append(r, n.Value)
	}
	b := []int{}
	for n, i := l.BackNode(), 0; n != nil && i < 50; n, i = n.Prev(), i+1 {
		b = append([]int{n.Value}, b...)
	}
	x.SameInts(r, b, "a list forwards and backwards")
	nd.Assert(l.Len() == len(r), "the length of a list")
	return r
}

func listOp(l *bidlist.List[int], w []int) []int {
	n := len(w)
	node := func(i int) *bidlist.Node[int] {
		m := l.FrontNode()
		for ; i > 0; i-- {
			m = m.Next()
		}
		return m
	}
	switch nd.Choice(9) {
	case 0:
		l.PushBack(500)
		return append(w, 500)
	case 1:
		l.PushFront(501)
		return x.Ins(w, 0, 501)
	case 2:
		if n > 0 {
			l.PopBack()
			return w[:n-1]
		}
	case 3:
		if n > 0 {
			l.PopFront()
			return x.Rem(w, 0)
		}
	case 4:
		l.Clear()
		return nil
	case 5:
		if n > 0 {
			p := nd.Choice(n)
			node(p).Value = 502
			w[p] = 502
		}
	case 6:
		if n > 0 {
			p := nd.Choice(n)
			l.Remove(node(p))
			return x.Rem(w, p)
		}
	case 7:
		if n > 0 {
			p := nd.Choice(n)
			v := w[p]
			l.MoveToBack(node(p))
			return append(x.Rem(w, p), v)
		}
	default:
		if n > 0 {
			p := nd.Choice(n)
			l.InsertAfter(503, node(p))
			return x.Ins(w, p+1, 503)
		}
	}
	return w
}

// H_list: a list extended from another one.
func H_list() {
	a, b := bidlist.New[int](), bidlist.New[int]()
	wa, wb := []int{}, []int{}
	for i, n := 0, nd.Choice(nd.Param("n", 3, 4)); i < n; i++ {
		k := nd.Int()
		a.PushBack(k)
		wa = append(wa, k)
	}
	for i, n := 0, nd.Choice(nd.Param("n", 3, 4)); i < n; i++ {
		k := nd.Int()
		b.PushBack(k)
		wb = append(wb, k)
	}
	if nd.Choice(2) == 0 {
		a.PushBackList(b)
		wa = append(append([]int{}, wa...), wb...)
	} else {
		a.PushFrontList(b)
		wa = append(append([]int{}, wb...), wa...)
	}
	x.SameInts(list(a), wa, "an extended list")
	x.SameInts(list(b), wb, "the source of an extended list")
	for d := 0; d < nd.Param("ops", 2, 3); d++ {
		if nd.Choice(2) == 0 {
			wa = listOp(a, wa)
		} else {
			wb = listOp(b, wb)
		}
		x.SameInts(list(a), wa, "an operation on the source shows in the extended list")
		x.SameInts(list(b), wb, "an operation on the extended list shows in the source")
	}
}

func elems(s *set.Set[int]) []int {
	r := []int{}
	s.Traversal(func(k int) bool { r = append(r, k); return true })
	return r
}

func setOp(s *set.Set[int], w []int) []int {
	at := func(k int) (int, bool) {
		for i := range w {
			if w[i] >= k {
				return i, w[i] == k
			}
		}
		return len(w), false
	}
	switch nd.Choice(3) {
	case 0:
		k := nd.IntIn(0, 7)
		s.Insert(k)
		if i, in := at(k); !in {
			return x.Ins(w, i, k)
		}
	case 1:
		k := nd.IntIn(0, 7)
		s.Erase(k)
		if i, in := at(k); in {
			return x.Rem(w, i)
		}
	default:
		s.Clear()
		return nil
	}
	return w
}

// H_set: sets produced by set algebra.
func H_set() {
	safe := func() []set.Option {
		if nd.Choice(2) == 1 {
			return []set.Option{set.WithGoroutineSafe()}
		}
		return nil
	}()
	a := set.New[int](x.IntCmp, safe...)
	b := a
	na, nb := nd.Choice(nd.Param("n", 4, 4)), nd.Choice(nd.Param("n", 4, 4)+1)
	for i := 0; i < na; i++ {
		a.Insert(2 * i)
	}
	if nb < nd.Param("n", 4, 4) {
		b = set.New[int](x.IntCmp, safe...)
		for i := 0; i < nb; i++ {
			b.Insert(3 * i)
		}
	}
	var c *set.Set[int]
	switch nd.Choice(3) {
	case 0:
		c = a.Union(b)
	case 1:
		c = a.Intersect(b)
	default:
		c = a.Diff(b)
	}
	ws := [][]int{elems(a), elems(b), elems(c)}
	ss := []*set.Set[int]{a, b, c}
	for d := 0; d < nd.Param("ops", 2, 2); d++ {
		i := nd.Choice(3)
		ws[i] = setOp(ss[i], ws[i])
		if a == b && i < 2 {
			ws[1-i] = ws[i]
		}
		for j := range ss {
			x.SameInts(elems(ss[j]), ws[j], "an operation on one set shows in another")
		}
	}
}

// H_keys: key lists of hash tries and skip lists.
func H_keys() {
	rand.Fixed = func() (uint64, bool) { return uint64(nd.Stamp()) * 0x9e3779b97f4a7c15, true }
	mode := nd.Choice(2)
	fnv.Fixed = func(b []byte) (uint64, bool) {
		h := uint64(0)
		for _, c := range b {
			h = h*31 + uint64(c)
		}
		if mode == 1 {
			h <<= 61
		}
		return h, true
	}
	names := []string{"a", "b", "c", "ab", "d"}
	n := nd.Choice(nd.Param("n", 4, 5))
	h := hamt.New[int]()
	s := skiplist.New[int, int](x.IntCmp, skiplist.WithMaxLevel(3))
	for i := 0; i < n; i++ {
		h.Insert(hamt.Key(names[i]), i)
		s.Insert(nd.Conc(i*2), i)
	}
	k1, k2, k3 := h.Keys(), h.StringKeys(), s.Keys()
	w1, w2, w3 := append([]hamt.Key{}, k1...), append([]string{}, k2...), append([]int{}, k3...)
	// later operations on the containers
	switch nd.Choice(3) {
	case 0:
		h.Insert(hamt.Key("zz"), 50)
		s.Insert(nd.IntIn(-1, 9), 50)
	case 1:
		h.Erase(hamt.Key("a"))
		s.Remove(nd.IntIn(-1, 9))
	default:
		h.Insert(hamt.Key("b"), 50)
		h.Keys()
		h.StringKeys()
		s.Keys()
	}
	ok := len(k1) == len(w1) && len(k2) == len(w2) && len(k3) == len(w3)
	for i := range w1 {
		ok = ok && string(k1[i]) == string(w1[i])
	}
	for i := range w2 {
		ok = ok && k2[i] == w2[i]
	}
	for i := range w3 {
		ok = ok && k3[i] == w3[i]
	}
	nd.Assert(ok, "a later operation shows in a key list")
	// later changes to the lists
	b1, b2, b3 := h.Keys(), h.StringKeys(), s.Keys()
	for i := range k1 {
		if i%2 == 0 {
			k1[i][0] ^= 0x55
		}
		k1[i] = hamt.Key("other")
	}
	for i := range k2 {
		k2[i] = "other"
	}
	for i := range k3 {
		k3[i] = 999
	}
	_ = append(k1[:len(k1):cap(k1)], hamt.Key("more"))
	a1, a2, a3 := h.Keys(), h.StringKeys(), s.Keys()
	ok = len(a1) == len(b1) && len(a2) == len(b2) && len(a3) == len(b3)
	for i := range a1 {
		ok = ok && string(a1[i]) == string(b1[i])
		_, err := h.Get(a1[i])
		ok = ok && err == nil
	}
	for i := range a2 {
		ok = ok && a2[i] == b2[i]
	}
	for i := range a3 {
		ok = ok && a3[i] == b3[i]
		_, err := s.Get(a3[i])
		ok = ok && err == nil
	}
	nd.Assert(ok, "a change to a key list shows in the container")
}

// H_data: the exported data of a bloom filter.
func H_data() {
	sha512.Fixed = func(b []byte) []uint64 {
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		w := make([]uint64, 8)
		for i := range w {
			h ^= h >> 29
			h *= 0xbf58476d1ce4e5b9
			h ^= h >> 32
			w[i] = h
		}
		return w
	}
	m := []uint64{1, 8, 13, 64, 100}[nd.Choice(5)]
	f := bloom.New(m, uint64(nd.ChoiceIn(1, 3)))
	if nd.Choice(2) == 1 {
		f = bloom.NewFromData(f.Data())
	}
	if nd.Choice(2) == 1 {
		f.Add("a")
	}
	d := f.Data()
	w := append([]byte{}, d...)
	g := bloom.NewFromData(d)
	same := func(a, b []byte, msg string) {
		ok := len(a) == len(b)
		for i := range a {
			ok = ok && a[i] == b[i]
		}
		nd.Assert(ok, msg)
	}
	f.Add("b")
	same(d, w, "an addition shows in exported data")
	same(g.Data(), w, "an addition to the source shows in the filter rebuilt")
	g.Add("c")
	same(d, w, "an addition shows in the data a filter was rebuilt from")
	wf, wg := append([]byte{}, f.Data()...), append([]byte{}, g.Data()...)
	p := nd.Pick(len(d))
	e := f.Data()
	same(e, wf, "exported data changes without an addition")
	e[p] ^= 0x55
	same(f.Data(), wf, "a change to exported data shows in data exported later")
	d[p] ^= 0xff
	same(f.Data(), wf, "a change to exported data shows in the filter")
	same(g.Data(), wg, "a change to the data shows in the filter rebuilt from it")
	nd.Assert(f.Contains("b") && g.Contains("c"), "an added value is forgotten")
}

// H_huge: large containers and what was derived from them; elements anywhere are changed on both sides.
func H_huge() {
	n := []int{200, 1100, 3000}[nd.Choice(nd.Param("sizes", 2, 3))]
	p := nd.Conc([]int{0, n / 2, n - 4}[nd.Choice(3)] + nd.IntIn(0, 3))
	e := nd.Int()
	w := make([]int, n)
	for i := range w {
		w[i] = 2 * i
	}
	w[n/3] = nd.Int()
	with := func(v int) []int {
		u := append([]int{}, w...)
		u[p] = v
		return u
	}
	first := nd.Choice(2) == 1
	const onCopy, onSource = "an operation on the copy shows in the source", "an operation on the source shows in the copy"
	switch nd.Choice(5) {
	case 0:
		v := vector.New[int]()
		for _, k := range w {
			v.PushBack(k)
		}
		c := vector.NewFromVector(v)
		if first {
			v.SetAt(p, e)
			x.SameInts(vec(c), w, onSource)
			c.EraseAt(p)
		} else {
			c.EraseAt(p)
			x.SameInts(vec(v), w, onCopy)
			v.SetAt(p, e)
		}
		x.SameInts(vec(v), with(e), onCopy)
		x.SameInts(vec(c), x.Rem(w, p), onSource)
		v.Clear()
		c.PushBack(e)
		x.SameInts(vec(c), append(x.Rem(w, p), e), onSource)
	case 1:
		a := array.New[int](n)
		for i, k := range w {
			a.Set(i, k)
		}
		c := array.NewFromArray(a)
		if first {
			a.Set(p, e)
			x.SameInts(arr(c), w, onSource)
			c.Set(p, 5)
		} else {
			c.Set(p, 5)
			x.SameInts(arr(a), w, onCopy)
			a.Set(p, e)
		}
		x.SameInts(arr(a), with(e), onCopy)
		x.SameInts(arr(c), with(5), onSource)
		c.Fill(1)
		x.SameInts(arr(a), with(e), onCopy)
	case 2:
		a, b := bidlist.New[int](), bidlist.New[int]()
		for _, k := range w {
			b.PushBack(k)
		}
		if first {
			a.PushBackList(b)
		} else {
			a.PushFrontList(b)
		}
		walk := func(l *bidlist.List[int]) []int {
			var r []int
			for m := l.FrontNode(); m != nil && len(r) <= n+2; m = m.Next() {
				r = append(r, m.Value)
			}
			return r
		}
		m := b.FrontNode()
		for i := 0; i < p; i++ {
			m = m.Next()
		}
		m.Value = e
		x.SameInts(walk(a), w, onSource)
		b.Remove(m)
		x.SameInts(walk(a), w, onSource)
		m = a.FrontNode()
		for i := 0; i < p; i++ {
			m = m.Next()
		}
		a.Remove(m)
		x.SameInts(walk(b), x.Rem(w, p), onCopy)
		x.SameInts(walk(a), x.Rem(w, p), onSource)
	case 3:
		a, b := set.New[int](x.IntCmp), set.New[int](x.IntCmp)
		for i := 0; i < n; i++ {
			a.Insert(2 * i)
			b.Insert(3 * i)
		}
		var c *set.Set[int]
		switch nd.Choice(3) {
		case 0:
			c = a.Union(b)
		case 1:
			c = a.Intersect(b)
		default:
			c = a.Diff(b)
		}
		wa, wb, wc := elems(a), elems(b), elems(c)
		k := 2*p + nd.Choice(2)
		if first {
			a.Erase(k)
			a.Insert(-7)
			b.Insert(k)
			x.SameInts(elems(c), wc, "an operation on an operand shows in the result")
		} else {
			c.Erase(k)
			c.Insert(-7)
			x.SameInts(elems(a), wa, "an operation on the result shows in an operand")
			x.SameInts(elems(b), wb, "an operation on the result shows in an operand")
			c.Clear()
			x.SameInts(elems(a), wa, "an operation on the result shows in an operand")
		}
	default:
		rand.Fixed = func() (uint64, bool) { return uint64(nd.Stamp()) * 0x9e3779b97f4a7c15, true }
		fnv.Fixed = func(b []byte) (uint64, bool) { return uint64(b[0])<<8 | uint64(b[1])<<37, true }
		h := hamt.New[int]()
		s := skiplist.New[int, int](x.IntCmp)
		key := func(i int) hamt.Key { return hamt.Key{byte(i), byte(i >> 8)} }
		for i := 0; i < n; i++ {
			h.Insert(key(i), i)
			s.Insert(i, i)
		}
		k1, k3 := h.Keys(), s.Keys()
		w1 := make([]string, n)
		for i := range k1 {
			w1[i] = string(k1[i])
		}
		h.Erase(key(p))
		s.Remove(p)
		h.Insert(hamt.Key("zz"), 0)
		s.Insert(-1, 0)
		h.Keys()
		s.Keys()
		nd.Assert(len(k1) == n && len(k3) == n, "a later operation shows in a key list")
		for i := range k1 {
			nd.Assert(string(k1[i]) == w1[i] && k3[i] == i, "a later operation shows in a key list")
			k1[i], k3[i] = nil, e
		}
		a1, a3 := h.Keys(), s.Keys()
		nd.Assert(len(a1) == n && len(a3) == n, "a change to a key list shows in the container")
		for i := range a1 {
			_, err := h.Get(a1[i])
			nd.Assert(err == nil, "a change to a key list shows in the container")
			_, err = s.Get(a3[i])
			nd.Assert(err == nil, "a change to a key list shows in the container")
		}
	}
}
