package c14

import (
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/priorityqueue"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// arr is a collection for the heap operations.
type arr struct {
	e   []x.E
	cmp func(a, b x.E) int
}

func (h *arr) Len() int           { return len(h.e) }
func (h *arr) Less(i, j int) bool { return h.cmp(h.e[i], h.e[j]) < 0 }
func (h *arr) Swap(i, j int)      { h.e[i], h.e[j] = h.e[j], h.e[i] }
func (h *arr) Push(v x.E)         { h.e = append(h.e, v) }
func (h *arr) Pop() x.E {
	v := h.e[len(h.e)-1]
	h.e = h.e[:len(h.e)-1]
	return v
}

// ordered: no element is less than its parent (fork-free).
func (h *arr) ordered() bool {
	ok := true
	for i := 1; i < len(h.e); i++ {
		ok = nd.And(ok, h.cmp(h.e[i], h.e[(i-1)/2]) >= 0)
	}
	return ok
}

// holds: h has exactly the elements of want that are not nil, by identity.
func (h *arr) holds(want map[int]int) {
	nd.Assert(len(h.e) == len(want), "the collection has the wrong number of elements")
	seen := map[int]bool{}
	ok := true
	for _, e := range h.e {
		id := nd.Conc(e.ID)
		k, in := want[id]
		nd.Assert(in && !seen[id], "the collection lost or duplicated an element")
		seen[id] = true
		ok = nd.And(ok, e.K == k)
	}
	nd.Assert(ok, "an element changed")
}

func set(s []x.E) map[int]int {
	m := map[int]int{}
	for _, e := range s {
		m[e.ID] = e.K
	}
	return m
}

// least asserts that e is one of s and no other is smaller.
func least(e x.E, s []x.E, cmp func(a, b x.E) int) int {
	id := nd.Conc(e.ID)
	at, ok := -1, true
	for i, o := range s {
		if o.ID == id {
			at = i
			ok = nd.And(ok, o.K == e.K)
		}
		ok = nd.And(ok, cmp(e, o) <= 0)
	}
	nd.Assert(at >= 0, "the popped element was not in the collection")
	nd.Assert(ok, "the popped element is not a least one")
	return at
}

// H_init: Init orders any contents.
func H_init() {
	h := &arr{x.Fresh(nd.ChoiceIn(0, nd.Param("n", 7, 9))), x.Order(nd.Choice(2))}
	m := set(h.e)
	heap.Init[x.E](h)
	nd.Assert(h.ordered(), "Init does not establish the heap order")
	h.holds(m)
}

// H_step: from any heap whatsoever, any single operation with any argument
// keeps the heap order and the contents.
func H_step() {
	n := nd.ChoiceIn(0, nd.Param("n", 10, 15))
	h := &arr{x.Fresh(n), x.Order(nd.Choice(2))}
	nd.Assume(h.ordered())
	before := append([]x.E(nil), h.e...)
	want := set(before)
	switch nd.Choice(4) {
	case 0:
		e := x.E{x.Key(), n}
		heap.Push[x.E](h, e)
		want[n] = e.K
	case 1:
		if n == 0 {
			return
		}
		e := heap.Pop[x.E](h)
		delete(want, before[least(e, before, h.cmp)].ID)
	case 2:
		if n == 0 {
			return
		}
		i := nd.Pick(n)
		e := heap.Remove[x.E](h, i)
		nd.Assert(e.ID == before[i].ID && e.K == before[i].K, "Remove returns another element than the one at its index")
		delete(want, before[i].ID)
	default:
		if n == 0 {
			return
		}
		i := nd.Pick(n)
		h.e[i].K = x.Key()
		want[before[i].ID] = h.e[i].K
		heap.Fix[x.E](h, i)
	}
	nd.Assert(h.ordered(), "the heap order is broken")
	h.holds(want)
}

// H_large: large heaps of typical contents with one arbitrary key: Remove and
// Fix at indices on every level, then everything popped in order.
func H_large() {
	n := nd.Param("n", 40, 120)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	x.SymAt(s, []int{0, n - 1}[nd.Choice(2)])
	h := &arr{s, x.Cmp}
	heap.Init[x.E](h)
	nd.Assert(h.ordered(), "Init does not establish the heap order")
	i := []int{0, 2, n / 3, n - 2, n - 1}[nd.Choice(5)]
	if nd.Choice(2) == 0 {
		heap.Remove[x.E](h, i)
	} else {
		h.e[i].K = nd.Choice(2) * 250
		heap.Fix[x.E](h, i)
	}
	nd.Assert(h.ordered(), "the heap order is broken")
	left := append([]x.E(nil), h.e...)
	for len(left) > 0 {
		left = x.Rem(left, least(heap.Pop[x.E](h), left, x.Cmp))
	}
}

// H_pq: any interleaving of pushes and pops of a priority queue.
func H_pq() {
	o := nd.Choice(x.Orders + 1)
	cmp := x.Order(o % x.Orders)
	q := priorityqueue.New[x.E](cmp)
	if o == x.Orders {
		q = priorityqueue.New[x.E](cmp, priorityqueue.WithGoroutineSafe())
	}
	var s []x.E
	for k, id := nd.Param("k", 5, 6), 0; k > 0; k-- {
		switch nd.Pick(3) {
		case 0:
			e := x.E{x.Key(), id}
			id++
			q.Push(e)
			s = append(s, e)
		case 1:
			if len(s) > 0 {
				t := q.Top()
				e := q.Pop()
				nd.Assert(t == e, "Top is not what Pop returns")
				s = x.Rem(s, least(e, s, cmp))
			}
		default:
			q.Clear()
			s = nil
		}
		nd.Assert(q.Size() == len(s), "Size is wrong")
		nd.Assert(q.Empty() == (len(s) == 0), "Empty is wrong")
	}
	for len(s) > 0 {
		t := q.Top()
		e := q.Pop()
		nd.Assert(t == e, "Top is not what Pop returns")
		s = x.Rem(s, least(e, s, cmp))
	}
	nd.Assert(q.Empty(), "elements remain after all were popped")
}

// H_pqlong: long runs, one arbitrary key, pops come out in order.
func H_pqlong() {
	n := nd.Param("n", 100, 400)
	s := x.Pattern(nd.Choice(x.Patterns), n)
	x.SymAt(s, []int{0, n / 3, n - 1}[nd.Choice(3)])
	cmp := x.Order(nd.Choice(2))
	q := priorityqueue.New[x.E](cmp)
	var in []x.E
	for i, e := range s {
		q.Push(e)
		in = append(in, e)
		if i%3 == 2 {
			in = x.Rem(in, least(q.Pop(), in, cmp))
		}
	}
	for len(in) > 0 {
		nd.Assert(q.Size() == len(in), "Size is wrong")
		in = x.Rem(in, least(q.Pop(), in, cmp))
	}
	nd.Assert(q.Empty(), "elements remain after all were popped")
}

// H_huge: thousands of elements, one of them with an arbitrary key, in and out of a priority queue.
func H_huge() {
	n := []int{1500, 600, 5000}[nd.Choice(nd.Param("sizes", 1, 3))]
	s := x.Pattern([]int{0, 1, 7}[nd.Choice(3)], n)
	x.SymAt(s, []int{0, n / 2, n - 1}[nd.Choice(3)])
	cmp := x.Order(nd.Choice(2))
	q := priorityqueue.New[x.E](cmp)
	in := make([]bool, n)
	size, ok := 0, true
	take := func() x.E {
		t := q.Top()
		e := q.Pop()
		nd.Assert(t == e, "Top is not what Pop returns")
		id := nd.Conc(e.ID)
		nd.Assert(id >= 0 && id < n && in[id], "Pop returns what is not there")
		in[id] = false
		ok = nd.And(ok, e.K == s[id].K)
		size--
		return e
	}
	for i, e := range s {
		q.Push(e)
		in[i] = true
		size++
		if i%25 == 24 {
			e := take()
			for j := range s[:i+1] {
				if in[j] {
					ok = nd.And(ok, cmp(e, s[j]) <= 0)
				}
			}
		}
	}
	var last *x.E
	for size > 0 {
		nd.Assert(q.Size() == size, "Size is wrong")
		e := take()
		if last != nil {
			ok = nd.And(ok, cmp(*last, e) <= 0)
		}
		last = &e
	}
	nd.Assert(ok, "Pop does not return a least element")
	nd.Assert(q.Empty(), "elements remain after all were popped")
}

// H_seq: every sequence of pushes, pops and reads on queues of several sizes, drained at the end.
func H_seq() {
	cmp := x.Order(nd.Choice(2))
	q := priorityqueue.New[x.E](cmp)
	in := map[x.E]bool{}
	id, hi := 0, 10
	push := func(k int) {
		q.Push(x.E{k, id})
		in[x.E{k, id}] = true
		id++
	}
	take := func(e x.E) {
		nd.Assert(in[e], "an element comes out that is not in")
		ok := true
		for f := range in {
			ok = ok && cmp(e, f) <= 0
		}
		nd.Assert(ok, "Top or Pop is not a least element")
	}
	for i, n := 0, []int{0, 1, 4, 40}[nd.Choice(4)]; i < n; i++ {
		push(i * 7 % 19)
	}
	for k := nd.Param("k", 5, 6); k > 0; k-- {
		switch c := nd.Choice(7); c {
		case 0, 1, 2: // before, among and after the others
			push([]int{-1, 9, 30}[c])
		case 3: // ever lower
			hi -= 3
			push(hi)
		case 4:
			if len(in) > 0 {
				e := q.Pop()
				take(e)
				delete(in, e)
			}
		case 5:
			if len(in) > 0 {
				take(q.Top())
			}
		default:
			q.Clear()
			in = map[x.E]bool{}
		}
	}
	nd.Assert(q.Size() == len(in) && q.Empty() == (len(in) == 0), "Size or Empty is wrong")
	for len(in) > 0 {
		e := q.Pop()
		take(e)
		delete(in, e)
	}
	nd.Assert(q.Empty(), "elements remain after all were popped")
}
