package c06

import (
	"github.com/liyue201/gostl/algorithm/sort"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// less: a lexicographically before b under cmp, without forking.
func less(a, b []x.E, cmp func(a, b x.E) int) bool {
	r := false
	for i := len(a) - 1; i >= 0; i-- {
		c := cmp(a[i], b[i])
		r = nd.Or(c < 0, nd.And(c == 0, r))
	}
	return r
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			r = append(r, x.Ins(p, i, n-1))
		}
	}
	return r
}

func check(kind int, s []x.E, lo, hi int, cmp func(a, b x.E) int) {
	q := x.MkSeq(kind, s)
	f, l := q.At(lo), q.At(hi)
	ret := sort.NextPermutation[x.E](f, l, cmp)
	after := q.Read()
	x.Perm(s, after, lo, hi)
	nd.Assert(f.Position() == lo && l.Position() == hi, "NextPermutation moved an argument iterator")
	if !ret {
		x.Same(s, after, "returned false but changed the range")
		dec := true
		for i := lo + 1; i < hi; i++ {
			dec = nd.And(dec, cmp(s[i-1], s[i]) >= 0)
		}
		nd.Assert(dec, "returned false although a greater arrangement exists")
		return
	}
	a, b := s[lo:hi], after[lo:hi]
	nd.Assert(less(a, b, cmp), "the new arrangement is not greater")
	// no arrangement lies strictly between
	ok := true
	for _, p := range perms(hi - lo) {
		c := make([]x.E, hi-lo)
		for i, j := range p {
			c[i] = a[j]
		}
		ok = nd.And(ok, !nd.And(less(a, c, cmp), less(c, b, cmp)))
	}
	nd.Assert(ok, "an arrangement was skipped")
	for i := lo; i < hi; i++ {
		nd.ObsInt(after[i].ID)
	}
}

func H_all_containers() {
	kind := nd.Choice(x.Kinds)
	n := nd.ChoiceIn(0, nd.Param("n", 4, 4))
	s, lo, hi := x.Small(n, nd.Choice(2), nd.Choice(2))
	check(kind, s, lo, hi, x.Cmp)
}

func H_orders() {
	s, lo, hi := x.Small(nd.ChoiceIn(2, 4), 1, 1)
	check(1, s, lo, hi, x.Order(nd.ChoiceIn(1, x.Orders-1)))
}

func H_long() {
	s, lo, hi := x.Small(nd.Param("n", 5, 6), 1, 1)
	check(0, s, lo, hi, x.Cmp)
}

// structural specification for longer ranges: the changed suffix starts at
// the last ascent, whose element is replaced by the least greater one of the
// suffix, and the rest of the suffix is ascending.
func H_structure() {
	s, lo, hi := x.Small(nd.Param("n", 7, 9), 1, 1)
	structure(0, s, lo, hi)
}

// H_huge: long ranges, the tail descending from somewhere, with one arbitrary key before, at or after the turn.
func H_huge() {
	n := []int{40, 300, 1500}[nd.Choice(nd.Param("sizes", 2, 3))]
	s := x.Pattern([]int{0, 4, 7}[nd.Choice(3)], n+2)
	t := []int{0, 1, n / 2, n - 20, n - 2}[nd.Choice(5)]
	for i := t; i < n; i++ {
		s[i+1].K = (n - i) / (1 + nd.Conc(t)%3)
	}
	p := t + nd.Choice(4) - 1
	if p < 0 || p >= n {
		return
	}
	x.SymAt(s, p+1)
	structure(0, s, 1, n+1)
}

func structure(kind int, s []x.E, lo, hi int) {
	n, cmp := hi-lo, x.Cmp
	q := x.MkSeq(kind, s)
	ret := sort.NextPermutation[x.E](q.At(lo), q.At(hi), cmp)
	after := q.Read()
	x.Perm(s, after, lo, hi)
	a, b := s[lo:hi], after[lo:hi]
	if !ret {
		x.Same(s, after, "returned false but changed the range")
		for i := 1; i < n; i++ {
			nd.Assert(cmp(a[i-1], a[i]) >= 0, "returned false although a greater arrangement exists")
		}
		return
	}
	p := n - 2
	for p >= 0 && cmp(a[p], a[p+1]) >= 0 {
		p--
	}
	nd.Assert(p >= 0, "returned true for the last arrangement")
	ok := true
	for i := 0; i < p; i++ {
		ok = nd.And(ok, b[i].K == a[i].K)
	}
	nd.Assert(ok, "the prefix changed")
	ok = cmp(b[p], a[p]) > 0
	for i := p + 1; i < n; i++ {
		ok = nd.And(ok, nd.Or(cmp(a[i], a[p]) <= 0, cmp(a[i], b[p]) >= 0))
	}
	nd.Assert(ok, "the pivot is not replaced by the least greater element")
	nd.Assert(x.Sorted(b[p+1:], cmp), "the suffix is not ascending")
}

// from sorted order every distinct arrangement is visited once
func H_cycle() {
	n := nd.ChoiceIn(0, nd.Param("n", 3, 4))
	s := x.Fresh(n)
	nd.Assume(x.Sorted(s, x.Cmp))
	q := x.MkSeq(1, s)
	count := 1
	for sort.NextPermutation[x.E](q.At(0), q.At(n), x.Cmp) {
		count++
		nd.Assert(count <= 24, "too many arrangements")
	}
	// n! divided by the factorials of the multiplicities
	want, run := 1, 1
	for i := 1; i < n; i++ {
		want *= i + 1
		if s[i].K == s[i-1].K {
			run++
		} else {
			run = 1
		}
		if run > 1 {
			want /= run
		}
	}
	nd.Assert(count == want, "not every distinct arrangement was visited once")
	nd.ObsInt(count)
}
