package c04

import (
	"github.com/liyue201/gostl/algorithm/sort"

	"verif.local/h/nd"
	"verif.local/h/x"
)

func check(kind int, s []x.E, lo, hi, n int, cmp func(a, b x.E) int) {
	q := x.MkSeq(kind, s)
	sort.NthElement[x.E](q.At(lo), q.At(hi), n, cmp)
	after := q.Read()
	if n > hi-lo {
		x.Same(s, after, "n beyond the length changed the range")
	}
	x.Perm(s, after, lo, hi)
	if n >= 0 && n < hi-lo {
		p := lo + n
		ok := true
		for i := lo; i < p; i++ {
			ok = nd.And(ok, cmp(after[i], after[p]) <= 0)
		}
		nd.Assert(ok, "an element before n is greater")
		ok = true
		for i := p + 1; i < hi; i++ {
			ok = nd.And(ok, cmp(after[i], after[p]) >= 0)
		}
		nd.Assert(ok, "an element after n is smaller")
	}
	for i := lo; i < hi; i++ {
		nd.ObsInt(after[i].ID)
	}
}

func H_all_containers() {
	kind := nd.Choice(x.Kinds)
	n := nd.ChoiceIn(0, nd.Param("n", 4, 5))
	s, lo, hi := x.Small(n, nd.Choice(2), nd.Choice(2))
	check(kind, s, lo, hi, nd.ChoiceIn(-1, n+1), x.Cmp)
}

func H_orders() {
	n := nd.ChoiceIn(2, nd.Param("n", 4, 5))
	s, lo, hi := x.Small(n, 1, 1)
	check(1, s, lo, hi, nd.ChoiceIn(0, n-1), x.Order(nd.ChoiceIn(1, x.Orders-1)))
}

func H_long() {
	n := nd.Param("n", 6, 7)
	s, lo, hi := x.Small(n, 1, 1)
	check(0, s, lo, hi, nd.ChoiceIn(0, n-1), x.Cmp)
}

// n is any machine integer
func H_anyn() {
	s, lo, hi := x.Small(4, 1, 1)
	n := nd.Int()
	q := x.MkSeq(1, s)
	sort.NthElement[x.E](q.At(lo), q.At(hi), n, x.Cmp)
	after := q.Read()
	x.Perm(s, after, lo, hi)
	if n > hi-lo {
		x.Same(s, after, "n beyond the length changed the range")
	}
}

func H_patterns() {
	n := nd.Param("n", 60, 120)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	x.SymAt(s, (n-1)*nd.Choice(4)/3)
	check(nd.Choice(2), s, 0, n, []int{0, 1, n / 2, n - 2, n - 1}[nd.Choice(5)], x.Cmp)
}

func H_two() {
	n := nd.Param("n", 15, 21)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	p := nd.Choice(2)
	x.SymAt(s, p*5)
	x.SymAt(s, n-1-p*2)
	check(0, s, 0, n, []int{0, n / 2, n - 2}[nd.Choice(3)], x.Cmp)
}

// H_huge: very long ranges.
func H_huge() {
	n := []int{1100, 300, 2600, 6000}[nd.Choice(nd.Param("sizes", 2, 4))]
	s := x.Pattern(nd.Choice(x.Patterns), n)
	x.SymAt(s, []int{0, n - 1}[nd.Choice(2)])
	kind := 0
	if n == 300 {
		kind = nd.Choice(2)
	}
	check(kind, s, 0, n, []int{0, 5, n / 20, n / 2, n - 1}[nd.Choice(5)], x.Cmp)
}
