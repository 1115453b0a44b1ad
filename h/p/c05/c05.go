package c05

import (
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
	"verif.local/h/x"
)

func sorted(n, lo, hi int, cmp func(a, b x.E) int) []x.E {
	s := x.Fresh(lo + n + hi)
	nd.Assume(x.Sorted(s[lo:lo+n], cmp))
	return s
}

func check(kind int, s []x.E, lo, hi int, v x.E, cmp func(a, b x.E) int) {
	q := x.MkSeq(kind, s)
	f, l := q.At(lo), q.At(hi)
	exists := false
	for i := lo; i < hi; i++ {
		exists = nd.Or(exists, cmp(s[i], v) == 0)
	}
	nd.Assert(nd.Iff(sort.BinarySearch[x.E](f, l, v, cmp), exists), "BinarySearch is wrong")
	pos := func(it iterator.RandomAccessIterator[x.E]) int {
		p := nd.Conc(it.Position())
		nd.Assert(p >= lo && p <= hi, "result outside the range")
		nd.Assert(it.Equal(q.At(p)), "result is not an iterator of the container")
		if p < len(s) {
			nd.Assert(it.Value().ID == p, "result does not designate its element")
		}
		nd.ObsInt(p)
		return p
	}
	li := sort.LowerBound[x.E](f, l, v, cmp)
	p, ok := pos(li), true
	for i := lo; i < hi; i++ {
		ok = nd.And(ok, nd.Iff(cmp(s[i], v) >= 0, i >= p))
	}
	nd.Assert(ok, "LowerBound is wrong")
	ui := sort.UpperBound[x.E](f, l, v, cmp)
	p, ok = pos(ui), true
	for i := lo; i < hi; i++ {
		ok = nd.And(ok, nd.Iff(cmp(s[i], v) > 0, i >= p))
	}
	nd.Assert(ok, "UpperBound is wrong")
	x.Same(s, q.Read(), "a search modified the container")
	nd.Assert(f.Position() == lo && l.Position() == hi, "a search moved an argument iterator")
	// results are independent iterators
	li.Next()
	ui.Prev()
	nd.Assert(f.Position() == lo && l.Position() == hi, "a result aliases an argument iterator")
}

func H_all_containers() {
	kind := nd.Choice(x.Kinds)
	n := nd.ChoiceIn(0, nd.Param("n", 5, 8))
	lo, hi := nd.Choice(3), nd.Choice(2)
	check(kind, sorted(n, lo, hi, x.Cmp), lo, lo+n, x.E{x.Key(), -1}, x.Cmp)
}

func H_orders() {
	n := nd.ChoiceIn(1, nd.Param("n", 6, 9))
	cmp := x.Order(nd.ChoiceIn(1, x.Orders-1))
	check(0, sorted(n, 1, 1, cmp), 1, 1+n, x.E{x.Key(), -1}, cmp)
}

func H_long() {
	n := nd.ChoiceIn(1, nd.Param("n", 13, 24))
	check(0, sorted(n, 1, 1, x.Cmp), 1, 1+n, x.E{x.Key(), -1}, x.Cmp)
}

// long mostly concrete arrays, far from the start, with duplicates
func H_patterns() {
	n := nd.Param("n", 100, 300)
	lo := nd.Choice(3) * 10
	s := x.Pattern(nd.Choice(2)*2, lo+n+2)
	if nd.ConcBool(nd.Bool()) { // runs of equal keys
		for i := range s {
			s[i].K = s[i].K / 7
		}
	}
	check(nd.Choice(2), s, lo, lo+n, x.E{int(nd.Int16()), -1}, x.Cmp)
}

// H_huge: very long arrays (in order from the outset), any key of two bytes sought.
func H_huge() {
	n := []int{1100, 3000, 9000}[nd.Choice(nd.Param("sizes", 1, 3))]
	lo := nd.Choice(2) * 10
	s := x.Pattern(0, lo+n+2)
	if nd.Choice(2) == 1 { // runs of equal keys
		for i := range s {
			s[i].K = s[i].K / 300
		}
	}
	q := x.MkSeq(nd.Choice(2), s)
	f, l := q.At(lo), q.At(lo+n)
	v := x.E{int(nd.Int16()), -1}
	p := nd.Conc(sort.LowerBound[x.E](f, l, v, x.Cmp).Position())
	nd.Assert(p >= lo && p <= lo+n, "LowerBound leaves the range")
	nd.Assert(nd.And(p == lo || s[p-1].K < v.K, p == lo+n || s[p].K >= v.K), "LowerBound is wrong")
	found := sort.BinarySearch[x.E](f, l, v, x.Cmp)
	nd.Assert(nd.Iff(found, p < lo+n && s[p].K == v.K), "BinarySearch is wrong")
	u := nd.Conc(sort.UpperBound[x.E](f, l, v, x.Cmp).Position())
	nd.Assert(u >= p && u <= lo+n, "UpperBound leaves the range")
	nd.Assert(nd.And(u == lo || s[u-1].K <= v.K, u == lo+n || s[u].K > v.K), "UpperBound is wrong")
	x.Same(s, q.Read(), "a search modified the container")
}
