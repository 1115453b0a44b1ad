package c07

import (
	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type it = iterator.ConstIterator[x.E]

// rng is a range of a container holding s; pos recovers the offset of an
// iterator of the range (len(s) for the end).
type rng struct {
	s    []x.E
	f, l it
	read func() []x.E
	at   func(i int) it
}

// mk builds a container of any kind around s with pads outside the range.
func mk(kind int, s []x.E, lo, hi int) *rng {
	r := &rng{s: s[lo:hi]}
	switch {
	case kind < x.Kinds:
		q := x.MkSeq(kind, s)
		r.f, r.l, r.read = q.At(lo), q.At(hi), q.Read
		r.at = func(i int) it { return q.At(lo + i) }
	case kind == x.Kinds: // bidirectional list; the end is the node after, or nil
		l := bidlist.New[x.E]()
		for _, e := range s {
			l.PushBack(e)
		}
		at := func(i int) *bidlist.ListIterator[x.E] {
			n := l.FrontNode()
			for ; i > 0; i-- {
				n = n.Next()
			}
			return bidlist.NewIterator(n)
		}
		r.f, r.l = at(lo), at(hi)
		r.at = func(i int) it { return at(lo + i) }
		r.read = func() []x.E {
			var o []x.E
			for n := l.FrontNode(); n != nil; n = n.Next() {
				o = append(o, n.Value)
			}
			return o
		}
	case kind == x.Kinds+1:
		l := simplelist.New[x.E]()
		for _, e := range s {
			l.PushBack(e)
		}
		at := func(i int) *simplelist.ListIterator[x.E] {
			n := l.FrontNode()
			for ; i > 0; i-- {
				n = n.Next()
			}
			return simplelist.NewIterator(n)
		}
		r.f, r.l = at(lo), at(hi)
		r.at = func(i int) it { return at(lo + i) }
		r.read = func() []x.E {
			var o []x.E
			for n := l.FrontNode(); n != nil; n = n.Next() {
				o = append(o, n.Value)
			}
			return o
		}
	case kind == x.Kinds+2: // map values, keyed by position
		m := treemap.New[int, x.E](x.IntCmp)
		for i, e := range s {
			m.Insert(i, e)
		}
		at := func(i int) *treemap.MapIterator[int, x.E] { return m.LowerBound(i) }
		r.f, r.l = at(lo), at(hi)
		r.at = func(i int) it { return at(lo + i) }
		r.read = func() []x.E {
			var o []x.E
			m.Traversal(func(k int, v x.E) bool { o = append(o, v); return true })
			return o
		}
	default: // multiset elements ordered by identity
		m := set.NewMultiSet[x.E](func(a, b x.E) int { return a.ID - b.ID })
		for _, e := range s {
			m.Insert(e)
		}
		at := func(i int) *set.SetIterator[x.E] { return m.LowerBound(x.E{0, i}) }
		r.f, r.l = at(lo), at(hi)
		r.at = func(i int) it { return at(lo + i) }
		r.read = func() []x.E {
			var o []x.E
			m.Traversal(func(v x.E) bool { o = append(o, v); return true })
			return o
		}
	}
	return r
}

const kinds = x.Kinds + 4

func small() ([]x.E, int, int, *rng) {
	kind := nd.Choice(kinds)
	n := nd.ChoiceIn(0, nd.Param("n", 4, 6))
	s, lo, hi := x.Small(n, nd.Choice(2), nd.Choice(2))
	return s, lo, hi, mk(kind, s, lo, hi)
}

// unchanged: container and argument iterators as before.
func (r *rng) unchanged(all []x.E) {
	x.Same(all, r.read(), "a reading algorithm changed the container")
	nd.Assert(r.f.Equal(r.at(0)) && r.l.Equal(r.at(len(r.s))), "an argument iterator moved")
}

// H_count: Count and CountIf.
func H_count() {
	all, lo, _, r := small()
	v := x.E{x.Key(), -1}
	want := 0
	for _, e := range r.s {
		want += nd.B2I(e.K == v.K)
	}
	nd.Assert(algorithm.Count[x.E](r.f, r.l, v, x.Cmp) == want, "Count is wrong")
	var ids []int
	t := x.Key()
	got := algorithm.CountIf[x.E](r.f, r.l, func(i it) bool { ids = append(ids, i.Value().ID); return i.Value().K > t })
	want = 0
	for _, e := range r.s {
		want += nd.B2I(e.K > t)
	}
	nd.Assert(got == want, "CountIf is wrong")
	visited(ids, lo, len(r.s))
	r.unchanged(all)
}

// visited: the predicate saw exactly the first n elements of the range in order.
func visited(ids []int, lo, n int) {
	nd.Assert(len(ids) == n, "the predicate was evaluated on the wrong number of elements")
	for i, id := range ids {
		nd.Assert(id == lo+i, "the predicate was evaluated out of order or outside the range")
	}
}

// H_find: Find and FindIf.
func H_find() {
	all, lo, _, r := small()
	v := x.E{x.Key(), -1}
	g := algorithm.Find[x.E](r.f, r.l, v, x.Cmp)
	first := func(pred func(e x.E) bool) int {
		for i, e := range r.s {
			if pred(e) {
				return i
			}
		}
		return len(r.s)
	}
	nd.Assert(g.Equal(r.at(first(func(e x.E) bool { return e.K == v.K }))), "Find is wrong")
	t := x.Key()
	var ids []int
	g = algorithm.FindIf[x.E](r.f, r.l, func(i it) bool { ids = append(ids, i.Value().ID); return i.Value().K > t })
	p := first(func(e x.E) bool { return e.K > t })
	nd.Assert(g.Equal(r.at(p)), "FindIf is wrong")
	for i, id := range ids {
		nd.Assert(id == lo+i, "FindIf evaluated the predicate out of order or outside the range")
	}
	nd.Assert(len(ids) >= min(p+1, len(r.s)), "FindIf skipped an element")
	r.unchanged(all)
	g.Next()
	nd.Assert(r.f.Equal(r.at(0)), "the result aliases the first iterator")
}

// H_minmax: the first extremal element under any order shape.
func H_minmax() {
	all, lo, _, r := small()
	cmp := x.Order(nd.Choice(2))
	mx := algorithm.MaxElement[x.E](r.f, r.l, cmp)
	mn := algorithm.MinElement[x.E](r.f, r.l, cmp)
	if len(r.s) == 0 {
		nd.Assert(mx.Equal(r.l) && mn.Equal(r.l), "extremum of an empty range is not its end")
	} else {
		pos := func(g it) int {
			id := nd.Conc(g.Value().ID) - lo
			nd.Assert(id >= 0 && id < len(r.s), "extremum outside the range")
			nd.Assert(g.Equal(r.at(id)), "extremum is not an iterator of the container")
			return id
		}
		p, q, ok := pos(mx), pos(mn), true
		for i, e := range r.s {
			c, d := cmp(r.s[p], e), cmp(r.s[q], e)
			if i < p {
				ok = nd.And(ok, c > 0)
			} else {
				ok = nd.And(ok, c >= 0)
			}
			if i < q {
				ok = nd.And(ok, d < 0)
			} else {
				ok = nd.And(ok, d <= 0)
			}
		}
		nd.Assert(ok, "MaxElement or MinElement is not the first extremal element")
		nd.ObsInt(p)
		nd.ObsInt(q)
	}
	r.unchanged(all)
}

// H_quant: AnyOf, AllOf, NoneOf for an arbitrary predicate.
func H_quant() {
	all, lo, _, r := small()
	t := x.Key()
	any, every := false, true
	for _, e := range r.s {
		any = nd.Or(any, e.K > t)
		every = nd.And(every, e.K > t)
	}
	for k := 0; k < 3; k++ {
		seen := 0
		pred := func(i it) bool {
			nd.Assert(i.Value().ID == lo+seen, "predicate evaluated out of order or outside the range")
			seen++
			return i.Value().K > t
		}
		switch k {
		case 0:
			nd.Assert(nd.Iff(algorithm.AnyOf[x.E](r.f, r.l, pred), any), "AnyOf is wrong")
		case 1:
			nd.Assert(nd.Iff(algorithm.AllOf[x.E](r.f, r.l, pred), every), "AllOf is wrong")
		default:
			nd.Assert(nd.Iff(algorithm.NoneOf[x.E](r.f, r.l, pred), !any), "NoneOf is wrong")
		}
	}
	r.unchanged(all)
}

// H_reverse: exactly [first,last), every length.
func H_reverse() {
	kind := nd.Choice(x.Kinds + 1)
	n := nd.ChoiceIn(0, nd.Param("n", 9, 16))
	s, lo, hi := x.Small(n, nd.Choice(2), nd.Choice(2))
	if kind == x.Kinds {
		// a list iterator past the last node has no predecessor: the range
		// must end at a node
		s, hi = x.Fresh(lo+n+1), lo+n
	}
	r := mk(kind, s, lo, hi)
	algorithm.Reverse[x.E](r.f.(iterator.BidIterator[x.E]), r.l.(iterator.BidIterator[x.E]))
	want := append([]x.E(nil), s...)
	for i := lo; i < hi; i++ {
		want[i] = s[lo+hi-1-i]
	}
	x.Same(want, r.read(), "Reverse is wrong")
	for _, e := range want {
		nd.ObsInt(e.ID)
	}
}

// H_swap: exactly the two designated elements, also the same one twice.
func H_swap() {
	kind := nd.Choice(x.Kinds + 3) // set iterators are read-only
	n := nd.ChoiceIn(1, nd.Param("n", 5, 8))
	s := x.Fresh(n)
	r := mk(kind, s, 0, n)
	i, j := nd.Choice(n), nd.Choice(n)
	a, b := r.at(i).(iterator.Iterator[x.E]), r.at(j).(iterator.Iterator[x.E])
	algorithm.Swap[x.E](a, b)
	want := append([]x.E(nil), s...)
	want[i], want[j] = s[j], s[i]
	x.Same(want, r.read(), "Swap is wrong")
}

// H_long: long ranges, one arbitrary element anywhere and any value searched.
func H_long() {
	n := nd.Param("n", 150, 400)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	at := []int{0, 1, n / 2, n - 1}[nd.Choice(4)]
	x.SymAt(s, at)
	r := mk(nd.Choice(2), s, 0, n)
	v := x.E{int(nd.Uint8()), -1}
	nd.Assume(v.K == s[at].K)
	want, first := 0, n
	for i := n - 1; i >= 0; i-- {
		if s[i].K == v.K {
			want, first = want+1, i
		}
	}
	nd.Assert(algorithm.Count[x.E](r.f, r.l, v, x.Cmp) == want, "Count is wrong")
	nd.Assert(algorithm.Find[x.E](r.f, r.l, v, x.Cmp).Equal(r.at(first)), "Find is wrong")
	id := nd.Conc(algorithm.MaxElement[x.E](r.f, r.l, x.Cmp).Value().ID)
	for i := range s {
		nd.Assert(s[i].K < s[id].K || s[i].K == s[id].K && i >= id, "MaxElement is wrong")
	}
	id = nd.Conc(algorithm.MinElement[x.E](r.f, r.l, x.Cmp).Value().ID)
	for i := range s {
		nd.Assert(s[i].K > s[id].K || s[i].K == s[id].K && i >= id, "MinElement is wrong")
	}
}

// H_huge: very long ranges, one arbitrary element anywhere and any value searched.
func H_huge() {
	n := nd.Param("n", 1300, 5000)
	s := x.Pattern([]int{0, 1, 7}[nd.Choice(3)], n)
	for i := range s {
		s[i].K &= 0xff
	}
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	x.SymAt(s, at)
	r := mk(nd.Choice(2), s, 0, n)
	v := x.E{s[at].K, -1}
	want, first, top, bot := 0, n, at, at
	for i := n - 1; i >= 0; i-- {
		if s[i].K == v.K {
			want, first = want+1, i
		}
	}
	nd.Assert(algorithm.Count[x.E](r.f, r.l, v, x.Cmp) == want, "Count is wrong")
	nd.Assert(algorithm.Find[x.E](r.f, r.l, v, x.Cmp).Equal(r.at(first)), "Find is wrong")
	for i := range s {
		if c := s[i].K - s[top].K; c > 0 || c == 0 && i < top {
			top = i
		}
		if c := s[i].K - s[bot].K; c < 0 || c == 0 && i < bot {
			bot = i
		}
	}
	nd.Assert(algorithm.MaxElement[x.E](r.f, r.l, x.Cmp).Value().ID == top, "MaxElement is wrong")
	nd.Assert(algorithm.MinElement[x.E](r.f, r.l, x.Cmp).Value().ID == bot, "MinElement is wrong")
	q := x.MkSeq(nd.Choice(2), s)
	algorithm.Reverse[x.E](q.At(0), q.At(n))
	now, ok := q.Read(), true
	nd.Assert(len(now) == n, "Reverse changed the length")
	for i := range now {
		ok = nd.And(ok, nd.And(now[i].ID == n-1-i, now[i].K == s[n-1-i].K))
	}
	nd.Assert(ok, "Reverse is wrong")
}
