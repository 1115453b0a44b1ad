package c19

import (
	"github.com/liyue201/gostl/ds/set"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type E = x.E
type Set = set.Set[E]

var cmp func(a, b E) int
var id int

func mk(safe bool) *Set {
	if safe {
		return set.New[E](cmp, set.WithGoroutineSafe())
	}
	return set.New[E](cmp)
}

func setup(order int) { cmp, id = x.Order(order), 0 }

func put(s *Set, k int) {
	s.Insert(E{k, id})
	id++
}

func read(s *Set) []E {
	var r []E
	for it := s.First(); it.IsValid(); it.Next() {
		nd.Assert(len(r) < 300, "iteration does not end")
		r = append(r, it.Value())
	}
	k := len(r)
	for it := s.Last(); it.IsValid(); it.Prev() {
		k--
		nd.Assert(k >= 0 && it.Value() == r[k], "backward iteration is not the forward one reversed")
	}
	nd.Assert(k == 0 && s.Size() == len(r), "Size is wrong")
	return r
}

func in(s []E, e E) bool {
	ok := false
	for _, f := range s {
		ok = nd.Or(ok, cmp(e, f) == 0)
	}
	return ok
}

// from: every element of r is, by identity, one of a or b.
func from(r, a, b []E) {
	for _, e := range r {
		found := false
		for _, f := range a {
			found = found || e.ID == f.ID
		}
		for _, f := range b {
			found = found || e.ID == f.ID
		}
		nd.Assert(found, "the result has an element of neither operand")
	}
}

func increasing(s []E) bool {
	ok := true
	for i := 1; i < len(s); i++ {
		ok = nd.And(ok, cmp(s[i-1], s[i]) < 0)
	}
	return ok
}

// apply runs operation op and checks its result against the contents.
func apply(op int, s, t *Set) *Set {
	a, b := read(s), read(t)
	var r *Set
	ok := true
	switch op {
	case 0:
		r = s.Union(t)
	case 1:
		r = s.Intersect(t)
	default:
		r = s.Diff(t)
	}
	c := read(r)
	nd.Assert(increasing(c), "the result is not in order without duplicates")
	switch op {
	case 0:
		from(c, a, b)
		for _, e := range a {
			ok = nd.And(ok, in(c, e))
		}
		for _, e := range b {
			ok = nd.And(ok, in(c, e))
		}
		nd.Assert(ok, "Union misses an element")
	case 1:
		from(c, a, b)
		for _, e := range a {
			ok = nd.And(ok, nd.Iff(in(c, e), in(b, e)))
		}
		for _, e := range c {
			ok = nd.And(ok, nd.And(in(a, e), in(b, e)))
		}
		nd.Assert(ok, "Intersect is not the common elements")
	default:
		from(c, a, nil)
		for _, e := range a {
			ok = nd.And(ok, nd.Iff(in(c, e), !in(b, e)))
		}
		nd.Assert(ok, "Diff is not the elements of the first not in the second")
	}
	x.Same(a, read(s), "the first operand changed")
	x.Same(b, read(t), "the second operand changed")
	return r
}

// H_small: any two small sets.
func H_small() {
	setup(3 * nd.Choice(2))
	n := nd.Param("n", 3, 4)
	s := mk(false)
	for i := nd.ChoiceIn(0, n); i > 0; i-- {
		put(s, x.Key())
	}
	t := s
	if nd.Choice(2) == 1 {
		t = mk(false)
		for i := nd.ChoiceIn(0, n-1); i > 0; i-- {
			put(t, x.Key())
		}
	}
	apply(nd.Choice(3), s, t)
}

// H_reversed: the comparator's order is what counts.
func H_reversed() {
	setup(1 + nd.Choice(2))
	s, t := mk(false), mk(true)
	for i := 0; i < 2; i++ {
		put(s, x.Key())
		put(t, x.Key())
	}
	apply(nd.Choice(3), s, t)
}

// touch changes s in some way.
func touch(s *Set) {
	switch nd.Choice(3) {
	case 0:
		put(s, x.Key())
	case 1:
		if it := s.First(); it.IsValid() {
			s.Erase(it.Value())
		}
	default:
		s.Clear()
	}
}

// H_independent: a later change to one of the three sets shows in no other.
func H_independent() {
	setup(0)
	s, t := mk(nd.Choice(2) == 1), mk(nd.Choice(2) == 1)
	sh := nd.Choice(4)
	for i := 0; i < 3; i++ {
		switch sh {
		case 0:
			put(s, x.Key())
		case 1:
			put(t, x.Key())
		case 2:
			put(s, 2*i)
			put(t, 2*i)
		default:
			put(s, 4*i)
			put(t, 4*i+2)
		}
	}
	all := []*Set{s, t, apply(nd.Choice(3), s, t)}
	was := [][]E{read(s), read(t), read(all[2])}
	w := nd.Choice(3)
	touch(all[w])
	for i := range all {
		if i != w {
			x.Same(was[i], read(all[i]), "changing one set changed another")
		}
	}
	// the result is an ordinary set
	apply(nd.Choice(3), all[2], all[nd.Choice(3)])
}

// fill puts a concrete shape of n elements into s, one of them arbitrary.
func fill(s *Set, shape, n int) {
	for i := 0; i < n; i++ {
		switch shape {
		case 0: // even numbers
			put(s, 2*i)
		case 1: // odd numbers
			put(s, 2*i+1)
		case 2: // above
			put(s, 2*n+i)
		case 3: // sparse, descending
			put(s, 8*(n-i))
		case 4: // dense
			put(s, n/2+i)
		default: // one element
			put(s, n)
			return
		}
	}
}

// H_big: larger sets of all shapes, each with one arbitrary element.
func H_big() {
	setup(0)
	n := nd.Param("n", 24, 100)
	s, t := mk(false), mk(false)
	a, b := nd.Choice(6), nd.Choice(6)
	fill(s, a, n)
	fill(t, b, n)
	op := nd.Choice(3)
	switch nd.Choice(2) {
	case 0:
		put(s, int(nd.Uint8()))
	default:
		put(t, int(nd.Uint8()))
	}
	apply(op, s, t)
}

// H_same: a large set with itself.
func H_same() {
	setup(0)
	s := mk(nd.Choice(2) == 1)
	fill(s, nd.Choice(6), nd.Param("n", 24, 100))
	put(s, int(nd.Uint8()))
	r := apply(nd.Choice(3), s, s)
	put(r, 7)
	nd.Assert(increasing(read(r)), "the result lost its order")
}

// H_chain: results as operands.
func H_chain() {
	setup(0)
	s, t := mk(false), mk(false)
	fill(s, nd.Choice(6), 8)
	fill(t, nd.Choice(6), 8)
	put(t, int(nd.Uint8()))
	r := apply(nd.Choice(3), s, t)
	u := apply(nd.Choice(3), r, s)
	apply(nd.Choice(3), t, u)
}

// H_huge: sets of hundreds of elements, built up and thinned out, with one arbitrary element.
func H_huge() {
	setup(0)
	n := nd.Param("n", 700, 3000)
	s, t := mk(nd.Choice(2) == 1), mk(false)
	a, b := &x.Ord{}, &x.Ord{}
	r := x.Rand{S: 3}
	how := nd.Choice(3)
	for i := 0; i < n; i++ {
		k, l := 2*i, 3*i
		switch how {
		case 1:
			k, l = i, n+i // apart
		case 2:
			k, l = r.N(2*n), r.N(n)
		}
		s.Insert(E{k, id})
		a.Put(k, id, false)
		t.Insert(E{l, id + 1})
		b.Put(l, id+1, false)
		id += 2
		if i%3 == 2 {
			d := r.N(2 * n)
			s.Erase(E{d, -1})
			a.Del(d)
			t.Erase(E{d, -1})
			b.Del(d)
		}
	}
	q := []int{-3, n, 2*n - 6}[nd.Choice(3)] + nd.IntIn(0, 8)
	side := nd.Choice(2)
	if side == 0 {
		s.Insert(E{q, id})
	} else {
		t.Insert(E{q, id})
	}
	q = nd.Conc(q)
	[]*x.Ord{a, b}[side].Put(q, id, false)
	op := nd.Choice(3)
	var want []E // keys; identities where only one operand has the key
	i, j := 0, 0
	for i < len(a.S) || j < len(b.S) {
		switch {
		case j == len(b.S) || i < len(a.S) && a.S[i].K < b.S[j].K:
			if op != 1 {
				want = append(want, a.S[i])
			}
			i++
		case i == len(a.S) || b.S[j].K < a.S[i].K:
			if op == 0 {
				want = append(want, b.S[j])
			}
			j++
		default:
			if op != 2 {
				want = append(want, E{a.S[i].K, -1})
			}
			i++
			j++
		}
	}
	var u *Set
	switch op {
	case 0:
		u = s.Union(t)
	case 1:
		u = s.Intersect(t)
	default:
		u = s.Diff(t)
	}
	list := func(s *Set) []E {
		var l []E
		for it := s.First(); it.IsValid(); it.Next() {
			l = append(l, it.Value())
		}
		return l
	}
	c := list(u)
	nd.Assert(len(c) == len(want) && u.Size() == len(want), "the result has the wrong size")
	ok := true
	for k, e := range want {
		ok = nd.And(ok, nd.And(e.K == c[k].K, e.ID < 0 || e.ID == c[k].ID))
	}
	nd.Assert(ok, "the result is wrong")
	x.Same(a.S, list(s), "the first operand changed")
	x.Same(b.S, list(t), "the second operand changed")
}
