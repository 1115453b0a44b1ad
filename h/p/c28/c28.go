// Package c28: bad accesses fail and leave everything as it was.
package c28

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"

	"verif.local/h/nd"
	"verif.local/h/shim/fnv"
	"verif.local/h/shim/rand"
	"verif.local/h/shim/sha512"
	"verif.local/h/x"
)

func fails(f func()) {
	nd.Assert(nd.Panics(f), "a bad access returns as if it were good")
}

// ints is what the four random-access containers have in common here.
type ints struct {
	at    func(p int) int
	size  func() int
	more  []func(p int) int // other ways to read at a position
	empty []func() int      // reads and pops that need an element
	add   func(v int)       // adds an element at the back, if that can be
}

func iterOf[I interface{ Value() int }](f func(p int) I) func(p int) int {
	return func(p int) int { return f(p).Value() }
}

// mk makes a container that holds want; more elements were there before.
func mk(kind int, want []int, gone int) ints {
	n := len(want)
	switch kind {
	case 0:
		v := vector.New[int]()
		for _, e := range want {
			v.PushBack(e)
		}
		for i := 0; i < gone; i++ {
			v.PushBack(-7)
		}
		if gone%2 == 0 {
			v.EraseIndexRange(n, n+gone)
		} else {
			for i := 0; i < gone; i++ {
				v.PopBack()
			}
		}
		return ints{v.At, v.Size, []func(int) int{iterOf(v.IterAt)},
			[]func() int{v.Front, v.Back, v.PopBack, func() int { return v.Begin().Value() }, func() int { return v.Last().Value() }}, v.PushBack}
	case 1:
		v := array.New[int](n)
		for i, e := range want {
			v.Set(i, e)
		}
		return ints{v.At, v.Size, []func(int) int{iterOf(v.IterAt)},
			[]func() int{v.Front, v.Back, func() int { return v.Begin().Value() }, func() int { return v.Last().Value() }}, nil}
	case 2:
		v := deque.New[int]()
		for i := 0; i < gone; i++ {
			v.PushBack(-7)
		}
		for _, e := range want {
			v.PushBack(e)
		}
		for i := 0; i < gone; i++ {
			v.PopFront()
		}
		for i := 0; i < gone; i++ {
			v.PushBack(-7)
			v.PushFront(-7)
		}
		for i := 0; i < gone; i++ {
			v.PopBack()
			v.PopFront()
		}
		return ints{v.At, v.Size, []func(int) int{iterOf(v.IterAt)},
			[]func() int{v.Front, v.Back, v.PopBack, v.PopFront, func() int { return v.Begin().Value() }, func() int { return v.Last().Value() }}, v.PushBack}
	}
	s := make([]int, n, n+gone)
	copy(s, want)
	v := slice.NewSliceWrapper(s)
	return ints{v.At, v.Len, []func(int) int{func(p int) int { return v.Begin().IteratorAt(p).Value() }},
		[]func() int{func() int { return v.Begin().Value() }, func() int { return v.Last().Value() }}, nil}
}

func (c ints) holds(want []int) {
	nd.Assert(c.size() == len(want), "a bad access changed the size")
	for i := range want {
		nd.Assert(c.at(i) == want[i], "a bad access changed the contents")
	}
}

// H_at: reading at any position outside fails.
func H_at() {
	kind := nd.Choice(4)
	n := []int{0, 1, 2, 3, 9, 130}[nd.Choice(nd.Param("sizes", 6, 6))]
	gone := []int{0, 3, 4, 140}[nd.Choice(nd.Param("gone", 4, 4))]
	want := make([]int, n)
	for i := range want {
		want[i] = 100 + i
	}
	c := mk(kind, want, gone)
	p := nd.Int()
	nd.Assume(nd.Or(p < 0, p >= n))
	k := nd.Choice(1 + len(c.more))
	if k == 0 {
		fails(func() { c.at(p) })
	} else {
		fails(func() { c.more[k-1](p) })
	}
	c.holds(want)
	if c.add != nil {
		c.add(5)
		c.holds(append(want, 5))
	}
}

// H_empty: reading or popping from nothing fails.
func H_empty() {
	kind := nd.Choice(4)
	gone := []int{0, 1, 2, 140}[nd.Choice(4)]
	c := mk(kind, nil, gone)
	for r := 0; r < 2; r++ {
		k := nd.Choice(len(c.empty))
		fails(func() { c.empty[k]() })
		c.holds(nil)
	}
	if c.add != nil {
		c.add(5)
		c.holds([]int{5})
	}
}

// H_set: a deque reports a Set outside.
func H_set() {
	n := []int{0, 1, 3, 130}[nd.Choice(4)]
	d := deque.New[int]()
	want := make([]int, n)
	for i := range want {
		want[i] = i
		d.PushBack(i)
	}
	p := nd.Int()
	nd.Assume(nd.Or(p < 0, p >= n))
	nd.Assert(d.Set(p, 77) != nil, "Set outside reports nothing")
	c := ints{at: d.At, size: d.Size}
	c.holds(want)
}

// H_list: lists with nothing in them.
func H_list() {
	l := bidlist.New[int]()
	if nd.Choice(2) == 1 {
		l.PushBack(1)
		l.PopFront()
	}
	for r := 0; r < 2; r++ {
		switch nd.Choice(5) {
		case 0:
			fails(func() { l.Front() })
		case 1:
			fails(func() { l.Back() })
		case 2:
			fails(func() { l.PopBack() })
		case 3:
			fails(func() { l.PopFront() })
		default:
			fails(func() { bidlist.NewIterator(l.FrontNode()).Value() })
		}
	}
	nd.Assert(l.FrontNode() == nil && l.BackNode() == nil && l.Len() == 0, "a bad access changed the list")
	l.PushBack(3)
	nd.Assert(l.Len() == 1 && l.Front() == 3 && l.Back() == 3, "a list is unusable after a bad access")
	nd.Assert(l.PopBack() == 3 && l.Empty(), "a list is unusable after a bad access")
	s := simplelist.New[int]()
	nd.Assert(s.FrontNode() == nil && s.BackNode() == nil, "an empty list has nodes")
	fails(func() { simplelist.NewIterator(s.FrontNode()).Value() })
	s.PushBack(4)
	nd.Assert(s.Len() == 1 && s.FrontNode().Value == 4, "a list is unusable after a bad access")
}

// box is a container of the user's, with bad accesses that panic.
type box struct{ s []int }

func (b *box) PushBack(v int)  { b.s = append(b.s, v) }
func (b *box) PushFront(v int) { b.s = append([]int{v}, b.s...) }
func (b *box) PopBack() int    { v := b.s[len(b.s)-1]; b.s = b.s[:len(b.s)-1]; return v }
func (b *box) PopFront() int   { v := b.s[0]; b.s = b.s[1:]; return v }
func (b *box) Back() int       { return b.s[len(b.s)-1] }
func (b *box) Front() int      { return b.s[0] }
func (b *box) Size() int       { return len(b.s) }
func (b *box) Empty() bool     { return len(b.s) == 0 }
func (b *box) Clear()          { b.s = nil }
func (b *box) String() string  { return "" }

// history is how a container became empty.
func history(push func(int), pop func(), clear func()) {
	switch nd.Choice(4) {
	case 1:
		push(1)
		pop()
	case 2:
		for i := 0; i < 3; i++ {
			push(i)
		}
		clear()
	case 3:
		for i := 0; i < 140; i++ {
			push(i)
		}
		for i := 0; i < 140; i++ {
			pop()
		}
	}
}

// H_stack: an empty stack.
func H_stack() {
	var o []stack.Option[int]
	if nd.Choice(2) == 1 {
		o = append(o, stack.WithGoroutineSafe[int]())
	}
	switch nd.Choice(3) {
	case 1:
		o = append(o, stack.WithListContainer[int]())
	case 2:
		o = append(o, stack.WithContainer[int](&box{}))
	}
	s := stack.New[int](o...)
	history(s.Push, func() { s.Pop() }, s.Clear)
	for r := 0; r < 2; r++ {
		if nd.Choice(2) == 0 {
			fails(func() { s.Pop() })
		} else {
			fails(func() { s.Top() })
		}
		nd.Assert(s.Empty() && s.Size() == 0, "a bad access changed the stack")
	}
	s.Push(7)
	s.Push(8)
	nd.Assert(s.Size() == 2 && s.Top() == 8 && s.Pop() == 8 && s.Pop() == 7, "a stack is unusable after a bad access")
	_ = s.String()
	s.Clear()
	nd.Assert(s.Empty(), "a stack is unusable after a bad access")
}

// H_queue: an empty queue.
func H_queue() {
	var o []queue.Option[int]
	if nd.Choice(2) == 1 {
		o = append(o, queue.WithGoroutineSafe[int]())
	}
	switch nd.Choice(3) {
	case 1:
		o = append(o, queue.WithListContainer[int]())
	case 2:
		o = append(o, queue.WithContainer[int](&box{}))
	}
	s := queue.New[int](o...)
	history(s.Push, func() { s.Pop() }, s.Clear)
	for r := 0; r < 2; r++ {
		switch nd.Choice(3) {
		case 0:
			fails(func() { s.Pop() })
		case 1:
			fails(func() { s.Front() })
		default:
			fails(func() { s.Back() })
		}
		nd.Assert(s.Empty() && s.Size() == 0, "a bad access changed the queue")
	}
	s.Push(7)
	s.Push(8)
	nd.Assert(s.Size() == 2 && s.Front() == 7 && s.Back() == 8 && s.Pop() == 7 && s.Pop() == 8, "a queue is unusable after a bad access")
	_ = s.String()
	s.Clear()
	nd.Assert(s.Empty(), "a queue is unusable after a bad access")
}

type minHeap struct{ s []int }

func (h *minHeap) Len() int           { return len(h.s) }
func (h *minHeap) Less(i, j int) bool { return h.s[i] < h.s[j] }
func (h *minHeap) Swap(i, j int)      { h.s[i], h.s[j] = h.s[j], h.s[i] }
func (h *minHeap) Push(v int)         { h.s = append(h.s, v) }
func (h *minHeap) Pop() int           { v := h.s[len(h.s)-1]; h.s = h.s[:len(h.s)-1]; return v }

// H_pq: an empty priority queue, and a heap.
func H_pq() {
	var o []priorityqueue.Option
	if nd.Choice(2) == 1 {
		o = append(o, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New[int](x.IntCmp, o...)
	history(q.Push, func() { q.Pop() }, q.Clear)
	for r := 0; r < 2; r++ {
		if nd.Choice(2) == 0 {
			fails(func() { q.Pop() })
		} else {
			fails(func() { q.Top() })
		}
		nd.Assert(q.Empty() && q.Size() == 0, "a bad access changed the priority queue")
	}
	a, b := x.Key(), x.Key()
	q.Push(a)
	q.Push(b)
	if b < a {
		a, b = b, a
	}
	nd.Assert(q.Size() == 2 && q.Top() == a && q.Pop() == a && q.Pop() == b, "a priority queue is unusable after a bad access")
	q.Clear()
	nd.Assert(q.Empty(), "a priority queue is unusable after a bad access")
	h := &minHeap{}
	fails(func() { heap.Pop[int](h) })
	heap.Push[int](h, b)
	heap.Push[int](h, a)
	nd.Assert(heap.Pop[int](h) == a && heap.Pop[int](h) == b, "a heap is unusable after a bad access")
}

// H_map: keys that are not there.
func H_map() {
	var o []treemap.Option
	if nd.Choice(2) == 1 {
		o = append(o, treemap.WithGoroutineSafe())
	}
	n := nd.Choice(nd.Param("n", 4, 6))
	q := x.Key()
	has := false
	var get func(int) (int, error)
	var find func(int) *treemap.MapIterator[int, int]
	var insert func(k, v int)
	var size func() int
	var erase func(k int)
	var ends func() []*treemap.MapIterator[int, int]
	var clear func()
	if nd.Choice(2) == 0 {
		m := treemap.New[int, int](x.IntCmp, o...)
		get, find, insert, size, erase, clear = m.Get, m.Find, m.Insert, m.Size, m.Erase, m.Clear
		ends = func() []*treemap.MapIterator[int, int] {
			return []*treemap.MapIterator[int, int]{m.First(), m.Begin(), m.Last(), m.LowerBound(q), m.UpperBound(q)}
		}
	} else {
		m := treemap.NewMultiMap[int, int](x.IntCmp, o...)
		get, find, insert, size, erase, clear = m.Get, m.Find, m.Insert, m.Size, m.Erase, m.Clear
		ends = func() []*treemap.MapIterator[int, int] {
			return []*treemap.MapIterator[int, int]{m.First(), m.Begin(), m.Last(), m.LowerBound(q), m.UpperBound(q)}
		}
	}
	for i := 0; i < n; i++ {
		insert(i*3, 100+i)
		has = nd.Or(has, q == i*3)
	}
	nd.Assume(!has)
	for r := 0; r < 2; r++ {
		switch nd.Choice(3) {
		case 0:
			v, err := get(q)
			nd.Assert(err != nil && v == 0, "an absent key is found")
		case 1:
			it := find(q)
			nd.Assert(!it.IsValid(), "an absent key is found")
			fails(func() { it.Value() })
			fails(func() { it.Key() })
		default:
			erase(q)
		}
	}
	nd.Assert(size() == n, "a bad access changed the map")
	for i := 0; i < n; i++ {
		v, err := get(i * 3)
		nd.Assert(err == nil && v == 100+i, "a bad access changed the map")
	}
	insert(q, 1)
	v, err := get(q)
	nd.Assert(err == nil && v == 1 && size() == n+1, "a map is unusable after a bad access")
	clear()
	for _, it := range ends() {
		nd.Assert(!it.IsValid(), "an empty map has elements")
		fails(func() { it.Value() })
	}
	v, err = get(q)
	nd.Assert(err != nil && v == 0 && size() == 0, "an absent key is found")
}

// H_set_keys: elements that are not there.
func H_set_keys() {
	var o []set.Option
	if nd.Choice(2) == 1 {
		o = append(o, set.WithGoroutineSafe())
	}
	n := nd.Choice(nd.Param("n", 4, 6))
	q := x.Key()
	has := false
	var find func(int) *set.SetIterator[int]
	var insert, erase func(int)
	var contains func(int) bool
	var size func() int
	var ends func() []*set.SetIterator[int]
	var clear func()
	if nd.Choice(2) == 0 {
		m := set.New[int](x.IntCmp, o...)
		find, insert, erase, contains, size, clear = m.Find, m.Insert, m.Erase, m.Contains, m.Size, m.Clear
		ends = func() []*set.SetIterator[int] {
			return []*set.SetIterator[int]{m.First(), m.Begin(), m.Last(), m.LowerBound(q), m.UpperBound(q)}
		}
	} else {
		m := set.NewMultiSet[int](x.IntCmp, o...)
		find, insert, erase, contains, size, clear = m.Find, m.Insert, m.Erase, m.Contains, m.Size, m.Clear
		if nd.Choice(2) == 0 {
			erase = m.EraseAll
		}
		ends = func() []*set.SetIterator[int] {
			return []*set.SetIterator[int]{m.First(), m.Begin(), m.Last(), m.LowerBound(q), m.UpperBound(q)}
		}
	}
	for i := 0; i < n; i++ {
		insert(i * 3)
		has = nd.Or(has, q == i*3)
	}
	nd.Assume(!has)
	switch nd.Choice(3) {
	case 0:
		nd.Assert(!contains(q), "an absent element is found")
	case 1:
		it := find(q)
		nd.Assert(!it.IsValid(), "an absent element is found")
		fails(func() { it.Value() })
	default:
		erase(q)
	}
	nd.Assert(size() == n, "a bad access changed the set")
	for i := 0; i < n; i++ {
		nd.Assert(contains(i*3), "a bad access changed the set")
	}
	insert(q)
	nd.Assert(contains(q) && size() == n+1, "a set is unusable after a bad access")
	clear()
	for _, it := range ends() {
		nd.Assert(!it.IsValid(), "an empty set has elements")
		fails(func() { it.Value() })
	}
	nd.Assert(!contains(q) && size() == 0, "an absent element is found")
}

// H_tree: a tree without the key.
func H_tree() {
	t := rbtree.New[int, int](x.IntCmp)
	n := nd.Choice(nd.Param("n", 4, 6))
	q := x.Key()
	has := false
	for i := 0; i < n; i++ {
		t.Insert(i*3, i)
		has = nd.Or(has, q == i*3)
	}
	nd.Assume(!has)
	v, err := t.Find(q)
	nd.Assert(err != nil && v == 0, "an absent key is found")
	nd.Assert(t.FindNode(q) == nil, "an absent key is found")
	fails(func() { rbtree.NewIterator(t.FindNode(q)).Value() })
	fails(func() { rbtree.NewIterator(t.FindNode(q)).Key() })
	if n == 0 {
		nd.Assert(t.First() == nil && t.Last() == nil, "an empty tree has nodes")
		fails(func() { t.IterFirst().Value() })
		fails(func() { t.IterLast().Key() })
	}
	nd.Assert(t.Size() == n && t.Empty() == (n == 0), "a bad access changed the tree")
	t.Insert(q, 50)
	v, err = t.Find(q)
	nd.Assert(err == nil && v == 50, "a tree is unusable after a bad access")
}

// H_tries: hash tries and skip lists without the key; any hash for it.
func H_tries() {
	rand.Fixed = func() (uint64, bool) { return uint64(nd.Stamp()) * 0x9e3779b97f4a7c15, true }
	hq, drawn := uint64(0), false
	fnv.Fixed = func(b []byte) (uint64, bool) {
		if string(b) == "q" {
			if !drawn {
				hq, drawn = uint64(nd.Uint16()), true
			}
			return hq, true
		}
		return uint64(len(b)), true
	}
	safe := nd.Choice(2) == 1
	n := nd.Choice(nd.Param("n", 4, 6))
	names := []string{"", "a", "b", "aa", "aaa", "bb"}
	var ho []hamt.Option
	so := []skiplist.Option{skiplist.WithMaxLevel(3)}
	if safe {
		ho = append(ho, hamt.WithGoroutineSafe())
		so = append(so, skiplist.WithGoroutineSafe())
	}
	h := hamt.New[int](ho...)
	s := skiplist.New[int, int](x.IntCmp, so...)
	q := x.Key()
	has := false
	for i := 0; i < n; i++ {
		h.Insert(hamt.Key(names[i]), i+1)
		s.Insert(i*3, i+1)
		has = nd.Or(has, q == i*3)
	}
	if nd.Choice(2) == 0 {
		for r := 0; r < 2; r++ {
			v, err := h.Get(hamt.Key("q"))
			nd.Assert(err != nil && v == 0, "an absent key is found")
			nd.Assert(!h.Erase(hamt.Key("q")), "an absent key is erased")
		}
		for i := 0; i < n; i++ {
			v, err := h.Get(hamt.Key(names[i]))
			nd.Assert(err == nil && v == i+1, "a bad access changed the trie")
		}
		nd.Assert(len(h.Keys()) == n && len(h.StringKeys()) == n, "a bad access changed the trie")
		h.Insert(hamt.Key("q"), 50)
		v, err := h.Get(hamt.Key("q"))
		nd.Assert(err == nil && v == 50, "a trie is unusable after a bad access")
		return
	}
	nd.Assume(!has)
	for r := 0; r < 2; r++ {
		v, err := s.Get(q)
		nd.Assert(err != nil && v == 0, "an absent key is found")
		nd.Assert(!s.Remove(q), "an absent key is removed")
	}
	for i := 0; i < n; i++ {
		v, err := s.Get(i * 3)
		nd.Assert(err == nil && v == i+1, "a bad access changed the skip list")
	}
	nd.Assert(s.Len() == n && len(s.Keys()) == n, "a bad access changed the skip list")
	s.Insert(q, 50)
	v, err := s.Get(q)
	nd.Assert(err == nil && v == 50 && s.Len() == n+1, "a skip list is unusable after a bad access")
}

// H_ring: a hash ring without nodes.
func H_ring() {
	sha512.Fixed = nil
	var o []ketama.Option
	if nd.Choice(2) == 1 {
		o = append(o, ketama.WithGoroutineSafe())
	}
	k := ketama.New(append(o, ketama.WithReplicas(nd.ChoiceIn(1, 2)))...)
	if nd.Choice(2) == 1 {
		k.Add("a")
		k.Remove("a")
	}
	for r := 0; r < 2; r++ {
		n, ok := k.Get("key")
		nd.Assert(!ok && n == "", "a ring without nodes finds one")
		k.Remove("b")
		nd.Assert(k.Empty(), "a bad access changed the ring")
	}
	k.Add("a")
	n, ok := k.Get("key")
	nd.Assert(ok && n == "a" && !k.Empty(), "a ring is unusable after a bad access")
}
