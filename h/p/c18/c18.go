package c18

import (
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/visitor"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type E = x.E
type iter = *set.SetIterator[E]

// oset is what sets and multisets have in common.
type oset interface {
	Insert(e E)
	Erase(e E)
	Find(e E) iter
	LowerBound(e E) iter
	UpperBound(e E) iter
	Begin() iter
	First() iter
	Last() iter
	Clear()
	Contains(e E) bool
	Size() int
	Traversal(v visitor.Visitor[E])
}

type state struct {
	m   oset
	ms  *set.MultiSet[E] // nil for a set
	cmp func(a, b E) int
	s   []E // expected content, with identities in insertion order
	id  int
}

func newState(multi, safe bool, order int) *state {
	w := &state{cmp: x.Order(order)}
	var opts []set.Option
	if safe {
		opts = append(opts, set.WithGoroutineSafe())
	}
	if multi {
		w.ms = set.NewMultiSet[E](w.cmp, opts...)
		w.m = w.ms
	} else {
		w.m = set.New[E](w.cmp, opts...)
	}
	return w
}

func anyState(orders int) *state {
	return newState(nd.Choice(2) == 1, nd.Choice(2) == 1, nd.Choice(orders))
}

// read lists the content in every way there is.
func (w *state) read() []E {
	var s []E
	w.m.Traversal(func(e E) bool {
		nd.Assert(len(s) < 300, "Traversal does not end")
		s = append(s, e)
		return true
	})
	k := 0
	for it := w.m.Begin(); it.IsValid(); it.Next() {
		nd.Assert(k < len(s) && it.Value() == s[k], "iteration and Traversal differ")
		k++
	}
	nd.Assert(k == len(s), "iteration ends early")
	nd.Assert(w.m.First().Equal(w.m.Begin()), "Begin and First differ")
	for it := w.m.Last(); it.IsValid(); it.Prev() {
		k--
		nd.Assert(k >= 0 && it.Value() == s[k], "backward iteration is not the forward one reversed")
	}
	nd.Assert(k == 0, "backward iteration ends early")
	nd.Assert(w.m.Size() == len(s), "Size is not the number of elements")
	return s
}

// inOrder: increasing in a set; in a multiset non-decreasing.
func (w *state) inOrder(s []E) bool {
	ok := true
	for i := 1; i < len(s); i++ {
		c := w.cmp(s[i-1], s[i])
		if w.ms != nil {
			ok = nd.And(ok, c <= 0)
		} else {
			ok = nd.And(ok, c < 0)
		}
	}
	return ok
}

func (w *state) insert(k int) {
	e := E{k, w.id}
	w.id++
	w.m.Insert(e)
	now := w.read()
	nd.Assert(w.inOrder(now), "iteration is not in element order")
	if w.ms == nil && len(now) == len(w.s) {
		// the element already there stays
		x.Same(w.s, now, "Insert of an equal element changed the set")
		nd.Assert(!w.none(e), "Insert of a new element did nothing")
		return
	}
	if w.ms == nil {
		nd.Assert(w.none(e), "an element is held twice")
	}
	w.moved(w.s, now, e.ID, "content after Insert")
	w.s = now
}

// moved asserts that now is was plus the element of identity id; multisets
// need not keep equal elements in any particular order.
func (w *state) moved(was, now []E, id int, msg string) {
	nd.Assert(len(now) == len(was)+1, msg+": wrong number of elements")
	n := 0
	for _, e := range now {
		if e.ID == id {
			n++
			continue
		}
		found := false
		for _, f := range was {
			if f.ID == e.ID {
				nd.Assert(f == e, msg+": an element changed")
				found = true
			}
		}
		nd.Assert(found, msg+": an element came from nowhere")
	}
	nd.Assert(n == 1, msg+": the inserted element is not there once")
	for i := range now {
		for j := 0; j < i; j++ {
			nd.Assert(now[i].ID != now[j].ID, msg+": an element is duplicated")
		}
	}
}

func (w *state) none(q E) bool {
	ok := true
	for _, e := range w.s {
		ok = nd.And(ok, w.cmp(e, q) != 0)
	}
	return ok
}

// erase removes one element equal to q, if there is one; all removes all.
func (w *state) erase(k int, all bool) {
	q := E{k, -1}
	if all {
		w.ms.EraseAll(q)
	} else {
		w.m.Erase(q)
	}
	now := w.read()
	j, kept, cut, n := 0, true, true, 0
	for _, e := range w.s {
		if j < len(now) && now[j].ID == e.ID {
			nd.Assert(now[j] == e, "an element changed")
			kept = nd.And(kept, w.cmp(e, q) != 0)
			j++
		} else {
			cut = nd.And(cut, w.cmp(e, q) == 0)
			n++
		}
	}
	nd.Assert(j == len(now), "Erase added or reordered elements")
	nd.Assert(cut, "Erase removed an element not equal to the one given")
	if all || n == 0 {
		nd.Assert(kept, "Erase left an equal element")
	}
	nd.Assert(all || n <= 1, "Erase removed more than one element")
	w.s = now
}

func (w *state) clear() {
	w.m.Clear()
	w.s = w.read()
	nd.Assert(len(w.s) == 0, "Clear leaves something")
	nd.Assert(!w.m.First().IsValid() && !w.m.Last().IsValid(), "an empty set has an element")
}

func (w *state) at(it iter) int {
	if !it.IsValid() {
		return len(w.s)
	}
	for i, e := range w.s {
		if e == it.Value() {
			return i
		}
	}
	nd.Assert(false, "a lookup yields an element that is not there")
	return 0
}

func (w *state) below(p int, q E) bool {
	ok := true
	for i := 0; i < p; i++ {
		ok = nd.And(ok, w.cmp(w.s[i], q) < 0)
	}
	if p < len(w.s) {
		ok = nd.And(ok, w.cmp(w.s[p], q) >= 0)
	}
	return ok
}

func (w *state) look(k int) {
	q := E{k, -1}
	nd.Assert(w.below(w.at(w.m.LowerBound(q)), q), "LowerBound is wrong")
	p := w.at(w.m.UpperBound(q))
	ok := true
	for i := 0; i < p; i++ {
		ok = nd.And(ok, w.cmp(w.s[i], q) <= 0)
	}
	if p < len(w.s) {
		ok = nd.And(ok, w.cmp(w.s[p], q) > 0)
	}
	nd.Assert(ok, "UpperBound is wrong")
	if w.ms != nil {
		c := q
		if len(w.s) > 8 {
			c = w.s[len(w.s)/2]
		}
		n := 0
		for _, e := range w.s {
			n += nd.B2I(w.cmp(e, c) == 0)
		}
		nd.Assert(w.ms.Count(c) == n, "Count is wrong")
	}
	it := w.m.Find(q)
	nd.Assert(it.IsValid() == w.m.Contains(q), "Find and Contains disagree")
	if !it.IsValid() {
		nd.Assert(w.none(q), "a present element is not found")
		return
	}
	p = w.at(it)
	nd.Assert(nd.And(w.below(p, q), w.cmp(w.s[p], q) == 0), "Find does not give the first equal element")
}

// H_ops: any operations with any elements from the empty container.
func H_ops() {
	w := newState(nd.Choice(2) == 1, false, 0)
	ops := 4
	if w.ms != nil {
		ops = 5
	}
	for k := nd.Param("k", 4, 5); k > 0; k-- {
		switch nd.Choice(ops) {
		case 0, 1:
			w.insert(x.Key())
		case 2:
			w.erase(x.Key(), false)
		case 3:
			w.clear()
		default:
			w.erase(x.Key(), true)
		}
	}
}

func (w *state) some(n int) {
	for i := nd.ChoiceIn(0, n); i > 0; i-- {
		w.m.Insert(E{x.Key(), w.id})
		w.id++
	}
	w.s = w.read()
}

// H_look: any element looked up among any elements, every order and mode.
func H_look() {
	w := anyState(x.Orders)
	w.some(nd.Param("n", 3, 5))
	w.look(x.Key())
}

// H_erase: any element erased among any elements, then one inserted.
func H_erase() {
	w := newState(nd.Choice(2) == 1, false, 3*nd.Choice(2))
	w.some(nd.Param("n", 3, 4))
	w.erase(x.Key(), w.ms != nil && nd.Choice(2) == 1)
	w.insert(x.Key())
}

func (w *state) fill(pattern, n int) {
	for _, e := range x.Pattern(pattern, n) {
		w.m.Insert(E{e.K, w.id})
		p := 0
		for p < len(w.s) && w.cmp(w.s[p], e) < 0 {
			p++
		}
		if w.ms != nil {
			for p < len(w.s) && w.cmp(w.s[p], e) <= 0 {
				p++
			}
		}
		if w.ms != nil || p == len(w.s) || w.cmp(w.s[p], e) != 0 {
			w.s = x.Ins(w.s, p, E{e.K, w.id})
		}
		w.id++
	}
	now := w.read()
	nd.Assert(len(now) == len(w.s), "content after insertions")
	for i, e := range now {
		nd.Assert(e.K == w.s[i].K && (w.ms != nil || e == w.s[i]), "content after insertions")
	}
	w.s = now
}

// H_big: one operation with any element on a larger container of any pattern.
func H_big() {
	w := anyState(2)
	w.fill(nd.Choice(x.Patterns), nd.Param("n", 33, 100))
	q := int(nd.Uint8())
	ops := 3
	if w.ms != nil {
		ops = 4
	}
	switch nd.Choice(ops) {
	case 0:
		w.insert(q)
	case 1:
		w.erase(q, false)
	case 3:
		w.erase(q, true)
	}
	w.look(q)
}

// H_many: elements with any number of copies, counted and erased.
func H_many() {
	w := newState(true, nd.Choice(2) == 1, nd.Choice(2))
	n := nd.Param("n", 20, 60)
	c := nd.Pick(n + 1)
	for i := 0; i < n; i++ {
		k := 6
		if i >= c {
			k = 4 * (i % 3)
		}
		w.m.Insert(E{k, w.id})
		w.id++
	}
	w.s = w.read()
	nd.Assert(len(w.s) == n, "elements lost")
	nd.Assert(w.ms.Count(E{6, 0}) == c, "Count is wrong")
	if nd.Choice(2) == 1 {
		w.erase(6, true)
		nd.Assert(w.ms.Count(E{6, 0}) == 0, "EraseAll left copies")
		return
	}
	for i := 1; i <= c; i++ {
		w.erase(6, false)
		nd.Assert(w.ms.Count(E{6, 0}) == c-i, "Erase does not remove one copy")
	}
	w.erase(6, false)
	w.look(6)
}

// H_churn: long histories, every content exact, then any element.
func H_churn() {
	w := newState(nd.Choice(2) == 1, nd.Choice(2) == 1, nd.Choice(2))
	r := x.Rand{S: 17 + 1000*nd.Choice(nd.Param("seeds", 3, 30))}
	for k := nd.Param("k", 100, 300); k > 0; k-- {
		switch c := r.N(20); {
		case c < 12:
			w.insert(r.N(50))
		case c < 17:
			w.erase(r.N(50), false)
		case c < 19 && w.ms != nil:
			w.erase(r.N(50), true)
		case c == 19 && r.N(6) == 0:
			w.clear()
		}
	}
	q := int(nd.Uint8())
	w.insert(q)
	w.look(q)
	w.erase(q, false)
}

// H_huge: containers of a thousand elements, long histories; then any element is sought, inserted and erased.
func H_huge() {
	w := newState(nd.Choice(2) == 1, nd.Choice(2) == 1, 0)
	n := nd.Param("n", 900, 4000)
	o := &x.Ord{Multi: w.ms != nil}
	span := []int{60, 4000}[nd.Choice(2)]
	if w.ms != nil && span == 60 {
		span = 12 // dozens of equal elements
	}
	how := nd.Choice(3)
	r := x.Rand{S: 21}
	add := func(k int) {
		w.m.Insert(E{k, w.id})
		o.Put(k, w.id, false)
		w.id++
	}
	all := func() {
		var s []E
		w.m.Traversal(func(e E) bool { s = append(s, e); return len(s) <= w.id+1 })
		nd.Assert(len(s) == len(o.S) && w.m.Size() == len(s), "the content has the wrong size")
		k, ok := 0, true
		for it := w.m.Begin(); it.IsValid(); it.Next() {
			nd.Assert(k < len(s), "iteration goes on")
			ok = nd.And(ok, nd.And(it.Value().K == s[k].K, it.Value().K == o.S[k].K))
			ok = nd.And(ok, w.ms != nil || s[k].ID == o.S[k].ID)
			k++
		}
		nd.Assert(ok && k == len(s), "the content is wrong")
	}
	for i := 0; i < n; i++ {
		k := r.N(span)
		if how < 2 {
			k = i * span / n
			if how == 1 {
				k = span - 1 - k
			}
		}
		add(k)
	}
	all()
	for i := 0; i < n; i++ {
		k := r.N(span)
		switch c := r.N(8); {
		case c < 4:
			add(k)
		case c < 6 && w.ms != nil && (span > 12 || r.N(100) == 0):
			w.ms.EraseAll(E{k, -1})
			o.Del(k)
		default: // of a multiset one copy goes
			w.m.Erase(E{k, -1})
			if p := o.Lower(k); p < o.Upper(k) {
				o.Cut(p, p+1)
			}
		}
		if i%300 == 0 {
			all()
		}
	}
	all()
	q := []int{-3, span / 3, span - 9}[nd.Choice(3)] + nd.IntIn(0, 12)
	p, it := 0, w.m.Begin()
	lb := w.m.LowerBound(E{q, -1})
	for ; it.IsValid() && !it.Equal(lb); it.Next() {
		p++
	}
	nd.Assert(it.IsValid() == lb.IsValid(), "LowerBound is nowhere")
	nd.Assert(o.IsLower(p, q), "LowerBound is wrong")
	u, ub := p, w.m.UpperBound(E{q, -1})
	for ; it.IsValid() && !it.Equal(ub); it.Next() {
		u++
	}
	nd.Assert(it.IsValid() == ub.IsValid(), "UpperBound is before LowerBound")
	nd.Assert(o.IsUpper(u, q), "UpperBound is wrong")
	f := w.m.Find(E{q, -1})
	nd.Assert(f.IsValid() == (u > p) && w.m.Contains(E{q, -1}) == (u > p), "Find or Contains is wrong")
	if u > p {
		nd.Assert(f.Equal(lb), "Find does not give the first equal element")
		if w.ms != nil {
			nd.Assert(w.ms.Count(E{q, -1}) == u-p, "Count is wrong")
			w.ms.EraseAll(E{q, -1})
		} else {
			w.m.Erase(E{q, -1})
		}
		o.Cut(p, u)
	} else {
		w.m.Insert(E{q, w.id})
		o.S = append(o.S[:p:p], append([]E{{q, w.id}}, o.S[p:]...)...)
	}
	all()
}

// H_seq: every sequence of calls around two neighbouring elements, with nothing read in between, on sets of several sizes.
func H_seq() {
	size := nd.Choice(3)
	w := newState(nd.Choice(2) == 1, false, 0)
	o := &x.Ord{Multi: w.ms != nil}
	add := func(k int) {
		w.m.Insert(E{k, w.id})
		o.Put(k, w.id, false)
		w.id++
	}
	n := []int{2, 5, 70}[size]
	for i := 0; i < n; i++ {
		add(2 * (i * 3 % n))
	}
	base := []int{2, 8, 70}[size] // in the set, the next one is not
	is := func(it iter, p int, what string) {
		nd.Assert(it.IsValid() == (p < len(o.S)), what)
		if p < len(o.S) {
			nd.Assert(it.Value() == o.S[p], what)
		}
	}
	steps := nd.Param("k", 4, 5)
	if size == 2 {
		steps--
	}
	for ; steps > 0; steps-- {
		c := nd.Choice(17)
		k := base + c%2
		e := E{k, -1}
		p := o.Lower(k)
		in := p < o.Upper(k)
		f := p
		if !in {
			f = len(o.S)
		}
		switch c / 2 {
		case 0:
			add(k)
		case 1:
			// any one of the copies may go
			w.m.Erase(e)
			if in {
				q := o.Upper(k)
				if q-p > 1 {
					ids := 0
					it := w.m.LowerBound(e)
					for ; it.IsValid() && it.Value().K == k; it.Next() {
						for p+ids < q && o.S[p+ids].ID != it.Value().ID {
							o.Cut(p+ids, p+ids+1)
							q--
						}
						nd.Assert(p+ids < q, "Erase removes the wrong element")
						ids++
					}
					o.Cut(p+ids, q)
					nd.Assert(w.m.Size() == len(o.S), "Erase does not remove one copy")
				} else {
					o.Cut(p, p+1)
				}
			}
		case 2:
			if w.ms == nil {
				nd.Assert(w.m.Contains(e) == in, "Contains is wrong")
			} else if c == 4 {
				nd.Assert(w.ms.Count(e) == o.Upper(k)-p, "Count is wrong")
			} else {
				w.ms.EraseAll(e)
				o.Del(k)
			}
		case 3:
			is(w.m.Find(e), f, "Find is wrong")
		case 4:
			is(w.m.LowerBound(e), p, "LowerBound is wrong")
		case 5:
			is(w.m.UpperBound(e), o.Upper(k), "UpperBound is wrong")
		case 6:
			nd.Assert(w.m.Contains(e) == in, "Contains is wrong")
		case 7:
			if c == 14 {
				is(w.m.First(), 0, "First is wrong")
			} else if len(o.S) > 0 {
				is(w.m.Last(), len(o.S)-1, "Last is wrong")
			} else {
				nd.Assert(!w.m.Last().IsValid(), "Last is wrong")
			}
		default:
			w.m.Clear()
			o.S = nil
		}
	}
	x.Same(o.S, w.read(), "the content")
}
