package c26

import (
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// walk visits everything forwards and backwards.
func (w *world) walk() {
	n := len(w.want)
	it := w.first[nd.Choice(len(w.first))]()
	for i := 0; i < n; i++ {
		w.is(it, i, "forward")
		r := it.Next()
		nd.Assert(r.IsValid() == (i+1 < n), "Next returns an iterator somewhere else")
		nd.Assert(r.Equal(it), "Next does not return the iterator moved")
	}
	for i := 0; i < 3; i++ {
		nd.Assert(!it.IsValid(), "an iterator past the last element is valid")
		it.Next()
	}
	if w.last != nil {
		it = w.last[nd.Choice(len(w.last))]()
		for i := n - 1; i >= 0; i-- {
			w.is(it, i, "backward")
			r := prev(it)
			nd.Assert(r.IsValid() == (i > 0), "Prev returns an iterator somewhere else")
			nd.Assert(r.Equal(it), "Prev does not return the iterator moved")
		}
		for i := 0; i < 3; i++ {
			nd.Assert(!it.IsValid(), "an iterator before the first element is valid")
			prev(it)
		}
	}
	if w.end != nil {
		nd.Assert(!w.end().IsValid(), "the end is valid")
		nd.Assert(w.end().(iterator.RandomAccessIterator[int]).Position() == n, "the end is not after the last element")
		if n > 0 {
			w.is(prev(w.end()), n-1, "back from the end")
			it := w.first[0]()
			prev(it)
			it.Next()
			w.is(it, 0, "forth from before the first")
		}
	}
	w.unchanged()
}

// apart checks that clones and other iterators move on their own, and when
// iterators are equal; at element i.
func (w *world) apart(i int) {
	n := len(w.want)
	it, same := w.reach(i), w.reach(i)
	nd.Assert(it.Equal(same) && same.Equal(it), "iterators at the same place are not equal")
	c := it.Clone()
	nd.Assert(c.Equal(it) && it.Equal(c), "a clone is not equal to the iterator")
	w.is(c, i, "clone")
	c.Next()
	w.is(it, i, "moving a clone moved the iterator")
	w.is(same, i, "moving an iterator moved another one")
	nd.Assert(!c.Equal(it) && !it.Equal(c), "iterators at different places are equal")
	if i+1 < n {
		w.is(c, i+1, "moved clone")
		it.Next()
		nd.Assert(c.Equal(it) && it.Equal(c), "iterators at the same place are not equal")
	} else {
		nd.Assert(!c.IsValid(), "an iterator past the last element is valid")
	}
	d := same.Clone()
	same.Next()
	w.is(d, i, "moving an iterator moved its clone")
	if w.last != nil {
		if i > 0 {
			prev(d)
			w.is(d, i-1, "back")
			d.Next()
		}
		w.is(d, i, "back and forth")
		if i+1 < n {
			d.Next()
			prev(d)
			w.is(d, i, "forth and back")
		}
	}
	w.unchanged()
}

// write sets element i through an iterator and its clone.
func (w *world) write(i int) {
	if !w.set {
		return
	}
	it := w.reach(i)
	c := it.Clone()
	v := nd.Int()
	assign(it, v)
	w.want[i] = v
	w.unchanged()
	w.is(it, i, "written iterator")
	w.is(c, i, "clone of a written iterator")
	u := nd.Int()
	assign(c, u)
	w.want[i] = u
	w.unchanged()
	w.is(it, i, "iterator written through its clone")
}

func kind() int { return nd.Choice(kinds) }

// H_walk: small containers, keys arbitrary.
func H_walk() {
	w := build(kind(), nd.Choice(nd.Param("n", 6, 8)), symKeys)
	w.walk()
}

// H_apart: clones and equality, at every element.
func H_apart() {
	w := build(kind(), nd.ChoiceIn(1, nd.Param("n", 4, 5)), symKeys)
	w.apart(nd.Choice(len(w.want)))
}

// H_write: SetValue, at every element.
func H_write() {
	w := build(kind(), nd.ChoiceIn(1, nd.Param("n", 4, 5)), symKeys)
	w.write(nd.Choice(len(w.want)))
}

// H_big: long containers.
func H_big() {
	sizes := []int{7, 20, 127, 128, 129, 257, 300, 600, 1100, 2500}
	k := kind()
	n := sizes[nd.Choice(nd.Param("sizes", 9, 10))]
	p := 0
	if k >= kMap {
		p = nd.Choice(5)
		if n > 150 && p > 2 {
			return
		}
	}
	w := build(k, n, someKeys(p))
	m := len(w.want)
	switch nd.Choice(3) {
	case 0:
		w.walk()
	case 1:
		w.apart([]int{0, m / 2, m - 1}[nd.Choice(3)])
	default:
		w.write([]int{0, m / 2, m - 1}[nd.Choice(3)])
	}
}

// H_at: random access at any position whatsoever.
func H_at() {
	n := nd.Choice(nd.Param("n", 4, 6))
	w := build(nd.Choice(4), n, nil)
	at := w.at[nd.Choice(2)]
	p := nd.Int()
	it := at(p)
	nd.Assert(it.Position() == p, "an iterator is at another position")
	valid := nd.And(p >= 0, p < n)
	nd.Assert(it.IsValid() == valid, "an iterator is valid exactly outside its container")
	switch nd.Choice(3) {
	case 0:
		if valid {
			i := nd.Conc(p)
			w.is(it, i, "at")
			v := nd.Int()
			it.SetValue(v)
			w.want[i] = v
			w.unchanged()
		}
	case 1:
		if nd.And(p >= -1, p < n) {
			it.Next()
			nd.Assert(it.Position() == p+1, "Next does not move by one")
			if p+1 < n {
				w.is(it, nd.Conc(p+1), "next")
			}
			nd.Assert(it.IsValid() == (p+1 < n), "Next to a place valid or not")
		} else {
			it.Next()
			nd.Assert(!it.IsValid() || p == -1, "moving outside the container made an iterator valid")
		}
	default:
		if nd.And(p >= 0, p <= n) {
			prev(it)
			nd.Assert(it.Position() == p-1, "Prev does not move by one")
			if p-1 >= 0 {
				w.is(it, nd.Conc(p-1), "prev")
			}
			nd.Assert(it.IsValid() == (p >= 1), "Prev to a place valid or not")
		} else {
			prev(it)
			nd.Assert(!it.IsValid() || p == n, "moving outside the container made an iterator valid")
		}
	}
	w.unchanged()
}

// H_places: iterators are equal exactly at the same place, for any places.
func H_places() {
	n := nd.Choice(nd.Param("n", 4, 6))
	w := build(nd.Choice(4), n, nil)
	p, q := nd.Int(), nd.Int()
	a, b := w.at[nd.Choice(2)](p), w.at[0](q)
	nd.Assert(a.Equal(b) == (p == q), "equality of positions")
	nd.Assert(b.Equal(a) == (p == q), "equality of positions")
	c := a.Clone()
	nd.Assert(c.Equal(a) && a.Equal(c), "a clone is not equal")
	nd.Assert(c.(iterator.RandomAccessIterator[int]).Position() == p, "a clone is elsewhere")
}

// H_others: iterators of different containers are never equal, at elements.
func H_others() {
	k, l := kind(), kind()
	n := nd.ChoiceIn(1, nd.Param("n", 2, 3))
	v, w := build(k, n, someKeys(0)), build(l, n, someKeys(0))
	for i := range v.want {
		for j := range w.want {
			nd.Assert(!v.reach(i).Equal(w.reach(j)), "iterators of different containers are equal")
		}
	}
	if v.end != nil && w.end != nil {
		nd.Assert(!v.end().Equal(w.end()), "ends of different containers are equal")
	}
}

// H_nothing: iterators over nothing.
func H_nothing() {
	w := build(kind(), 0, nil)
	for _, f := range append(append([]func() iter{}, w.first...), w.last...) {
		it := f()
		nd.Assert(!it.IsValid(), "an iterator over nothing is valid")
		it.Next()
		nd.Assert(!it.IsValid(), "an iterator over nothing is valid")
		it = f()
		if w.last != nil {
			prev(it)
			nd.Assert(!it.IsValid(), "an iterator over nothing is valid")
		}
		nd.Assert(!it.Clone().IsValid(), "an iterator over nothing is valid")
	}
	for _, it := range []iter{bidlist.NewIterator[int](nil), simplelist.NewIterator[int](nil), rbtree.NewIterator[int, int](nil)} {
		nd.Assert(!it.IsValid() && !it.Next().IsValid() && !it.Clone().IsValid(), "an iterator over nothing is valid")
	}
}

// H_found: iterators got by looking keys up move on like any other; after
// deletions too.
func H_found() {
	n := nd.Param("n", 4, 5)
	var ks []int // sorted
	what := nd.Choice(4)
	m := treemap.New[int, int](x.IntCmp)
	mm := treemap.NewMultiMap[int, int](x.IntCmp)
	s := set.New[int](x.IntCmp)
	ms := set.NewMultiSet[int](x.IntCmp)
	gap := nd.Choice(n)
	for i := 0; i < 2*n; i++ { // 0, 2, 4, .. with one missing
		k := 2 * (i * 5 % (2*n + 1))
		m.Insert(k, k)
		mm.Insert(k, k)
		s.Insert(k)
		ms.Insert(k)
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	gone := ks[gap]
	ks = x.Rem(ks, gap)
	m.Erase(gone)
	mm.Erase(gone)
	s.Erase(gone)
	ms.Erase(gone)
	q := x.Key()
	how := nd.Choice(3)
	lo, hi := 0, 0
	for _, k := range ks {
		if k < q {
			lo++
		}
		if k <= q {
			hi++
		}
	}
	var it iter
	get := func(find, lower, upper func() iter) {
		switch how {
		case 0:
			it = find()
			if lo == hi {
				lo = len(ks)
			}
		case 1:
			it = lower()
		default:
			it, lo = upper(), hi
		}
	}
	switch what {
	case 0:
		get(func() iter { return m.Find(q) }, func() iter { return m.LowerBound(q) }, func() iter { return m.UpperBound(q) })
	case 1:
		get(func() iter { return mm.Find(q) }, func() iter { return mm.LowerBound(q) }, func() iter { return mm.UpperBound(q) })
	case 2:
		get(func() iter { return s.Find(q) }, func() iter { return s.LowerBound(q) }, func() iter { return s.UpperBound(q) })
	default:
		get(func() iter { return ms.Find(q) }, func() iter { return ms.LowerBound(q) }, func() iter { return ms.UpperBound(q) })
	}
	back := it.Clone()
	for i := lo; i < len(ks); i++ {
		nd.Assert(it.IsValid() && it.Value() == ks[i], "forward from a found element")
		it.Next()
	}
	nd.Assert(!it.IsValid(), "an iterator past the last element is valid")
	if lo < len(ks) {
		for i := lo; i >= 0; i-- {
			nd.Assert(back.IsValid() && back.Value() == ks[i], "backward from a found element")
			prev(back)
		}
	}
	nd.Assert(!back.IsValid(), "an iterator before the first element is valid")
}
