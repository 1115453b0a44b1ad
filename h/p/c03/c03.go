package c03

import (
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
	"verif.local/h/x"
)

func check(kind int, s []x.E, lo, hi int, cmp func(a, b x.E) int) {
	q := x.MkSeq(kind, s)
	f, l := q.At(lo), q.At(hi)
	sort.Stable[x.E](f, l, cmp)
	after := q.Read()
	x.Perm(s, after, lo, hi)
	nd.Assert(x.Sorted(after[lo:hi], cmp), "the range is not sorted")
	ok := true
	for i := lo + 1; i < hi; i++ {
		// identities are concrete: neighbours out of original order must not be equal
		if nd.Conc(after[i-1].ID) > nd.Conc(after[i].ID) {
			ok = nd.And(ok, cmp(after[i-1], after[i]) != 0)
		}
	}
	nd.Assert(ok, "equal elements were reordered")
	for i := lo; i < hi; i++ {
		nd.ObsInt(after[i].ID)
	}
}

// every container, every sub-range, every content
func H_all_containers() {
	kind := nd.Choice(x.Kinds)
	n := nd.ChoiceIn(0, nd.Param("n", 4, 5))
	s, lo, hi := x.Small(n, nd.Choice(2), nd.Choice(2))
	check(kind, s, lo, hi, x.Cmp)
}

// every comparator shape
func H_orders() {
	s, lo, hi := x.Small(nd.ChoiceIn(2, nd.Param("n", 5, 6)), 1, 1)
	check(1, s, lo, hi, x.Order(nd.ChoiceIn(1, x.Orders-1)))
}

// longer ranges of a slice
func H_long() {
	s, lo, hi := x.Small(nd.Param("n", 6, 7), 1, 1)
	check(0, s, lo, hi, x.Cmp)
}

// long ranges of every shape with an arbitrary element anywhere
func H_patterns() {
	n := nd.Param("n", 70, 130)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	at := nd.Choice(6)
	x.SymAt(s, (n-1)*at/5)
	check(nd.Choice(2), s, 0, n, x.Cmp)
}

// medium ranges with two arbitrary elements
func H_two() {
	n := nd.Param("n", 17, 25)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	p := nd.Choice(3)
	x.SymAt(s, p*5)
	x.SymAt(s, n-1-p*2)
	check(0, s, 0, n, x.Cmp)
}

// full-width machine integers
func H_ints() {
	n := nd.ChoiceIn(2, nd.Param("n", 4, 5))
	s := nd.Ints(n)
	q := x.MkSeq(0, s)
	var f, l iterator.RandomAccessIterator[int] = q.At(0), q.At(n)
	if nd.Choice(2) == 0 {
		sort.Stable[int](f, l, comparator.IntComparator)
		r := q.Read()
		for i := 1; i < n; i++ {
			nd.Assert(r[i-1] <= r[i], "ints not sorted")
		}
	} else {
		sort.Stable[int](f, l, comparator.Reverse(comparator.Comparator[int](comparator.IntComparator)))
		r := q.Read()
		for i := 1; i < n; i++ {
			nd.Assert(r[i-1] >= r[i], "ints not sorted descending")
		}
	}
}

// H_huge: very long ranges, beyond any size at which an implementation could change its ways.
func H_huge() {
	n := []int{1100, 300, 2600, 6000}[nd.Choice(nd.Param("sizes", 1, 4))]
	s := x.Pattern([]int{0, 1, 4, 5, 7}[nd.Choice(5)], n)
	x.SymAt(s, []int{0, n / 2, n - 1}[nd.Choice(3)])
	check(nd.Choice(2), s, 0, n, x.Cmp)
}
