package c17

import (
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/utils/visitor"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type iter = *treemap.MapIterator[int, int]

// omap is what maps and multimaps have in common.
type omap interface {
	Insert(k, v int)
	Get(k int) (int, error)
	Erase(k int)
	Find(k int) iter
	LowerBound(k int) iter
	UpperBound(k int) iter
	Begin() iter
	First() iter
	Last() iter
	Clear()
	Contains(k int) bool
	Size() int
	Traversal(v visitor.KvVisitor[int, int])
}

type state struct {
	m     omap
	u     *treemap.Map[int, int] // nil for a multimap
	cmp   func(a, b int) int
	s     []x.E // expected content: key, value (a unique number)
	id    int
	limit int
}

func newState(multi, safe bool, order int) *state {
	w := &state{cmp: x.IntOrder(order), limit: 300, id: 1}
	var opts []treemap.Option
	if safe {
		opts = append(opts, treemap.WithGoroutineSafe())
	}
	if multi {
		w.m = treemap.NewMultiMap[int, int](w.cmp, opts...)
	} else {
		w.u = treemap.New[int, int](w.cmp, opts...)
		w.m = w.u
	}
	return w
}

// version is added to a value that is overwritten: values stay unique and
// keep telling in which order the entries were inserted.
const version = 1 << 20

func seq(s []x.E) []x.E {
	r := make([]x.E, len(s))
	for i, e := range s {
		r[i] = x.E{e.K, e.ID % version}
	}
	return r
}

// anyState is a map or multimap, goroutine-safe or not.
func anyState(orders int) *state {
	return newState(nd.Choice(2) == 1, nd.Choice(2) == 1, nd.Choice(orders))
}

// read lists the content in every way there is.
func (w *state) read() []x.E {
	var s []x.E
	w.m.Traversal(func(k, v int) bool {
		nd.Assert(len(s) < w.limit, "Traversal does not end")
		s = append(s, x.E{k, v})
		return true
	})
	k := 0
	for it := w.m.Begin(); it.IsValid(); it.Next() {
		nd.Assert(k < len(s) && it.Key() == s[k].K && it.Value() == s[k].ID, "iteration and Traversal differ")
		k++
	}
	nd.Assert(k == len(s), "iteration ends early")
	f := w.m.First()
	nd.Assert(f.Equal(w.m.Begin()), "Begin and First differ")
	for it := w.m.Last(); it.IsValid(); it.Prev() {
		k--
		nd.Assert(k >= 0 && it.Key() == s[k].K && it.Value() == s[k].ID, "backward iteration is not the forward one reversed")
	}
	nd.Assert(k == 0, "backward iteration ends early")
	nd.Assert(w.m.Size() == len(s), "Size is not the number of entries")
	return s
}

func (w *state) insert(k int) {
	v := w.id
	w.id++
	w.m.Insert(k, v)
	now := w.read()
	nd.Assert(x.InOrder(seq(now), w.order()), "iteration is not in key order (equal keys in insertion order)")
	if w.u != nil && len(now) == len(w.s) {
		// the value of the entry with that key was replaced
		n := 0
		for i := range now {
			nd.Assert(now[i].K == w.s[i].K, "overwriting a value changed a key")
			if now[i].ID != w.s[i].ID {
				n++
				nd.Assert(now[i].ID == v, "a value changed to something else")
				nd.Assert(w.cmp(now[i].K, k) == 0, "another key's value was overwritten")
			}
		}
		nd.Assert(n == 1, "the inserted value is not there")
		w.s = now
		return
	}
	if w.u != nil {
		nd.Assert(x.None(w.s, k, w.cmp), "a key is held twice")
	}
	x.Moved(w.s, now, v, true, "content after Insert")
	for _, e := range now {
		if e.ID == v {
			nd.Assert(e.K == k, "the inserted key changed")
		}
	}
	w.s = now
}

// order is the comparator InOrder needs: in a map no two keys are equal, so
// the insertion order does not matter.
func (w *state) order() func(a, b int) int {
	if w.u == nil {
		return w.cmp
	}
	return func(a, b int) int { return nd.IteInt(w.cmp(a, b) < 0, -1, 1) }
}

// gone asserts that the entries from i to j, exactly, were removed.
func (w *state) gone(i, j int) {
	now := w.read()
	want := append(append([]x.E(nil), w.s[:i]...), w.s[j:]...)
	x.Same(want, now, "content after Erase")
	w.s = now
}

func (w *state) erase(k int) {
	w.m.Erase(k)
	now := w.read()
	j, ok, cut := 0, true, 0
	for _, e := range w.s {
		if j < len(now) && now[j].ID == e.ID {
			ok = nd.And(ok, nd.And(now[j].K == e.K, w.cmp(e.K, k) != 0))
			j++
		} else {
			ok = nd.And(ok, w.cmp(e.K, k) == 0)
			cut++
		}
	}
	nd.Assert(j == len(now), "Erase added or reordered entries")
	nd.Assert(ok, "Erase removed other keys, or not all entries of the key")
	nd.Assert(w.u == nil || cut <= 1, "Erase removed several keys of a map")
	w.s = now
}

func (w *state) clear() {
	w.m.Clear()
	w.s = w.read()
	nd.Assert(len(w.s) == 0, "Clear leaves something")
	nd.Assert(!w.m.First().IsValid() && !w.m.Last().IsValid(), "an empty map has an element")
}

func (w *state) iter(i int) iter {
	it := w.m.Begin()
	for ; i > 0; i-- {
		it.Next()
	}
	return it
}

func (w *state) eraseIter(i int) {
	w.u.EraseIter(w.iter(i))
	w.gone(i, i+1)
}

func (w *state) set(it iter, i int) {
	v := w.s[i].ID + version
	it.SetValue(v)
	w.s[i].ID = v
	now := w.read()
	x.Same(w.s, now, "writing through an iterator")
}

// at is the position of what an iterator designates.
func (w *state) at(it iter) int {
	if !it.IsValid() {
		return len(w.s)
	}
	for i, e := range w.s {
		if e.ID == it.Value() {
			nd.Assert(e.K == it.Key(), "an iterator gives the wrong key")
			return i
		}
	}
	nd.Assert(false, "a lookup yields an entry that is not there")
	return 0
}

// look looks q up in every way.
func (w *state) look(q int) {
	nd.Assert(x.Below(w.s, w.at(w.m.LowerBound(q)), q, w.cmp), "LowerBound is wrong")
	nd.Assert(x.Upto(w.s, w.at(w.m.UpperBound(q)), q, w.cmp), "UpperBound is wrong")
	v, err := w.m.Get(q)
	it := w.m.Find(q)
	c := w.m.Contains(q)
	nd.Assert((err == nil) == c, "Get and Contains disagree")
	nd.Assert(it.IsValid() == c, "Find and Contains disagree")
	if !c {
		nd.Assert(x.None(w.s, q, w.cmp), "a present key is not found")
		return
	}
	nd.Assert(it.Value() == v, "Get and Find disagree")
	p := w.at(it)
	nd.Assert(nd.And(x.Below(w.s, p, q, w.cmp), w.cmp(w.s[p].K, q) == 0), "Find and Get do not give the first equal key")
}

// H_ops: any operations with any keys from the empty container.
func H_ops() {
	w := newState(nd.Choice(2) == 1, false, 0)
	ops := 5
	if w.u != nil {
		ops = 6
	}
	for k := nd.Param("k", 4, 5); k > 0; k-- {
		switch nd.Choice(ops) {
		case 0, 1:
			w.insert(x.Key())
		case 2:
			w.erase(x.Key())
		case 3:
			if len(w.s) > 0 {
				p := nd.Pick(len(w.s))
				w.set(w.iter(p), p)
			}
		case 4:
			w.clear()
		default:
			if len(w.s) > 0 {
				w.eraseIter(nd.Pick(len(w.s)))
			}
		}
	}
}

// H_look: any key looked up among any keys, in every order and mode.
func H_look() {
	w := anyState(x.Orders)
	for i := nd.ChoiceIn(0, nd.Param("n", 3, 5)); i > 0; i-- {
		w.m.Insert(x.Key(), w.id)
		w.id++
	}
	w.s = w.read()
	w.look(x.Key())
}

// H_erase: any key erased among any keys, then a key inserted.
func H_erase() {
	w := newState(nd.Choice(2) == 1, false, 3*nd.Choice(2))
	for i := nd.ChoiceIn(0, nd.Param("n", 3, 4)); i > 0; i-- {
		w.m.Insert(x.Key(), w.id)
		w.id++
	}
	w.s = w.read()
	w.erase(x.Key())
	w.insert(x.Key())
}

// fill inserts a pattern of keys, with the content tracked by w.
func (w *state) fill(pattern, n int) {
	var want []x.E
	for _, e := range x.Pattern(pattern, n) {
		w.m.Insert(e.K, w.id)
		p := 0
		for p < len(want) && w.cmp(want[p].K, e.K) < 0 {
			p++
		}
		if w.u != nil && p < len(want) && w.cmp(want[p].K, e.K) == 0 {
			want[p].ID = w.id
		} else {
			for p < len(want) && w.cmp(want[p].K, e.K) <= 0 {
				p++
			}
			want = x.Ins(want, p, x.E{e.K, w.id})
		}
		w.id++
	}
	w.s = w.read()
	x.Same(want, w.s, "content after insertions")
}

// H_big: one operation with any key on a larger container of any pattern,
// then that key looked up.
func H_big() {
	w := anyState(2)
	w.fill(nd.Choice(x.Patterns), nd.Param("n", 33, 100))
	q := int(nd.Uint8())
	ops := 4
	if w.u != nil {
		ops = 5
	}
	switch nd.Choice(ops) {
	case 0:
		w.insert(q)
	case 1:
		w.erase(q)
	case 2:
		p := nd.Pick(len(w.s))
		w.set(w.iter(p), p)
		return
	case 4:
		w.eraseIter(nd.Pick(len(w.s)))
		return
	}
	w.look(q)
}

// H_hold: iterators obtained earlier stay on their entries while others are
// erased, and can be used to erase and to write.
func H_hold() {
	w := newState(nd.Choice(2) == 1, false, nd.Choice(2))
	w.fill(nd.Choice(x.Patterns), nd.Param("n", 6, 12))
	if w.u != nil && nd.Choice(2) == 1 {
		// erase while iterating, skipping one entry
		skip, k := nd.Pick(len(w.s)), 0
		for it := w.u.Begin(); it.IsValid(); k++ {
			c := it.Clone().(iter)
			it.Next()
			if k != skip {
				w.u.EraseIter(c)
			}
		}
		nd.Assert(w.m.Size() == 1, "erasing while iterating left the wrong number of entries")
		x.Same(w.s[skip:skip+1], w.read(), "erasing while iterating")
		return
	}
	var h []iter
	for it := w.m.First(); it.IsValid(); it.Next() {
		h = append(h, it.Clone().(iter))
	}
	for d := nd.Param("d", 2, 3); d > 0 && len(w.s) > 0; d-- {
		p := nd.Pick(len(w.s))
		if w.u != nil && nd.Choice(2) == 1 {
			w.u.EraseIter(h[p])
			w.gone(p, p+1)
			h = x.Rem(h, p)
		} else {
			k := w.s[p].K
			w.erase(k)
			var r []iter
			for _, it := range h {
				// the model holds the entries left; match by identity
				keep := false
				for _, e := range w.s {
					keep = keep || e.ID == it.Value()
				}
				if keep {
					r = append(r, it)
				}
			}
			h = r
		}
		nd.Assert(len(h) == len(w.s), "entries lost")
		for i, it := range h {
			nd.Assert(it.IsValid() && it.Key() == w.s[i].K && it.Value() == w.s[i].ID, "an iterator designates another entry after an erasure")
		}
	}
	if len(h) > 0 {
		p := nd.Pick(len(h))
		w.set(h[p], p)
	}
}

// H_erase_iter: iterators that designate nothing, or belong to something
// else, erase nothing.
func H_erase_iter() {
	w := newState(false, nd.Choice(2) == 1, 0)
	for i := nd.ChoiceIn(0, 3); i > 0; i-- {
		w.insert(x.Key())
	}
	it := w.m.Last()
	it.Next()
	if nd.Choice(2) == 1 {
		it = w.m.First()
		it.Prev()
	}
	w.u.EraseIter(it)
	w.gone(0, 0)
}

// H_churn: long histories, every content exact, then any key.
func H_churn() {
	w := newState(nd.Choice(2) == 1, nd.Choice(2) == 1, nd.Choice(2))
	r := x.Rand{S: 7 + 1000*nd.Choice(nd.Param("seeds", 3, 30))}
	for k := nd.Param("k", 120, 300); k > 0; k-- {
		switch c := r.N(20); {
		case c < 11:
			w.insert(r.N(50))
		case c < 15:
			w.erase(r.N(50))
		case c < 18 && w.u != nil && len(w.s) > 0:
			w.eraseIter(r.N(len(w.s)))
		case c == 18 && len(w.s) > 0:
			p := r.N(len(w.s))
			w.set(w.iter(p), p)
		case c == 19 && r.N(6) == 0:
			w.clear()
		}
	}
	q := int(nd.Uint8())
	w.insert(q)
	w.look(q)
	w.erase(q)
}

// H_huge: containers of a thousand entries, long histories; then any key is sought, inserted and erased.
func H_huge() {
	w := newState(nd.Choice(2) == 1, nd.Choice(2) == 1, 0)
	w.limit = 1 << 20
	n := nd.Param("n", 900, 4000)
	o := &x.Ord{Multi: w.u == nil}
	span := []int{60, 4000}[nd.Choice(2)]
	if w.u == nil && span == 60 {
		span = 12 // dozens of equal keys
	}
	how := nd.Choice(3)
	r := x.Rand{S: 21}
	add := func(k int) {
		w.m.Insert(k, w.id)
		o.Put(k, w.id, true)
		w.id++
	}
	all := func() { x.Same(o.S, w.read(), "the content") }
	for i := 0; i < n; i++ {
		k := r.N(span)
		if how < 2 {
			k = i * span / n
			if how == 1 {
				k = span - 1 - k
			}
		}
		add(k)
	}
	all()
	for i := 0; i < n; i++ {
		k := r.N(span)
		switch c := r.N(8); {
		case c < 3:
			add(k)
		case c < 6 && (span > 12 || r.N(100) == 0):
			w.m.Erase(k)
			o.Del(k)
		case c == 6 && w.u != nil:
			if p := o.Lower(k); p < len(o.S) {
				it := w.m.LowerBound(k)
				nd.Assert(it.IsValid() && it.Value() == o.S[p].ID, "LowerBound is wrong")
				w.u.EraseIter(it)
				o.Cut(p, p+1)
			}
		default:
			if p := o.Lower(k); p < len(o.S) {
				it := w.m.LowerBound(k)
				it.SetValue(w.id)
				o.S[p].ID = w.id
				w.id++
			}
		}
		if i%300 == 0 {
			all()
		}
	}
	all()
	q := []int{-3, span / 3, span - 9}[nd.Choice(3)] + nd.IntIn(0, 12)
	at := func(it iter) int {
		if !it.IsValid() {
			return len(o.S)
		}
		return o.Pos(it.Value())
	}
	p := at(w.m.LowerBound(q))
	nd.Assert(o.IsLower(p, q), "LowerBound is wrong")
	u := at(w.m.UpperBound(q))
	nd.Assert(u >= p && o.IsUpper(u, q), "UpperBound is wrong")
	f := w.m.Find(q)
	nd.Assert(f.IsValid() == (u > p) && w.m.Contains(q) == (u > p), "Find or Contains is wrong")
	if u > p {
		nd.Assert(at(f) == p, "Find does not give the first equal key")
		v, err := w.m.Get(q)
		nd.Assert(err == nil && v == o.S[p].ID, "Get is wrong")
		w.m.Erase(q)
		o.Cut(p, u)
	} else {
		w.m.Insert(q, w.id)
		o.S = append(o.S[:p:p], append([]x.E{{q, w.id}}, o.S[p:]...)...)
	}
	all()
}

// H_seq: every sequence of calls around two neighbouring keys, with nothing read in between, on maps of several sizes.
func H_seq() {
	size := nd.Choice(3)
	w := newState(nd.Choice(2) == 1, false, 0)
	o := &x.Ord{Multi: w.u == nil}
	add := func(k int) {
		w.m.Insert(k, w.id)
		o.Put(k, w.id, true)
		w.id++
	}
	n := []int{2, 5, 70}[size]
	for i := 0; i < n; i++ {
		add(2 * (i * 3 % n))
	}
	base := []int{2, 8, 70}[size] // its key, the next one absent
	is := func(it iter, p int, what string) {
		nd.Assert(it.IsValid() == (p < len(o.S)), what)
		if p < len(o.S) {
			nd.Assert(it.Key() == o.S[p].K && it.Value() == o.S[p].ID, what)
		}
	}
	steps := nd.Param("k", 4, 5)
	if size == 2 {
		steps--
	}
	for ; steps > 0; steps-- {
		c := nd.Choice(19)
		k := base + c%2
		p := o.Lower(k)
		in := p < o.Upper(k)
		f := p
		if !in {
			f = len(o.S)
		}
		switch c / 2 {
		case 0:
			add(k)
		case 1:
			w.m.Erase(k)
			o.Del(k)
		case 2:
			v, err := w.m.Get(k)
			nd.Assert((err == nil) == in && (!in || v == o.S[p].ID), "Get is wrong")
		case 3:
			is(w.m.Find(k), f, "Find is wrong")
		case 4:
			is(w.m.LowerBound(k), p, "LowerBound is wrong")
		case 5:
			is(w.m.UpperBound(k), o.Upper(k), "UpperBound is wrong")
		case 6:
			nd.Assert(w.m.Contains(k) == in, "Contains is wrong")
		case 7:
			if c == 14 {
				is(w.m.First(), 0, "First is wrong")
			} else if len(o.S) > 0 {
				is(w.m.Last(), len(o.S)-1, "Last is wrong")
			} else {
				nd.Assert(!w.m.Last().IsValid(), "Last is wrong")
			}
		case 8:
			if it := w.m.LowerBound(k); it.IsValid() {
				if c == 16 && w.u != nil {
					w.u.EraseIter(it)
					o.Cut(p, p+1)
				} else {
					it.SetValue(w.id)
					o.S[p].ID = w.id
					w.id++
				}
			}
		default:
			w.m.Clear()
			o.S = nil
		}
	}
	x.Same(o.S, w.read(), "the content")
}
