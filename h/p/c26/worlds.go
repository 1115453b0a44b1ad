// Package c26: iterators of every container.
package c26

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type iter = iterator.ConstIterator[int]

// world is a container with iterators and what it must hold, in order.
type world struct {
	want  []int // values
	keys  []int // keys, for containers that have them
	first []func() iter
	last  []func() iter
	end   func() iter                                      // position after the last, if there is one
	at    []func(p int) iterator.RandomAccessIterator[int] // random access, if there is
	read  func() []int                                     // the values, without iterators
	set   bool                                             // has SetValue
}

const (
	kVector = iota
	kArray
	kDeque
	kSlice
	kBid
	kSimple
	kMap
	kMultiMap
	kSet
	kMultiSet
	kTree
	kinds
)

func fs(f ...func() iter) []func() iter { return f }

// build makes a container of n elements; keys are asked for one by one, in
// the order of insertion.
func build(kind, n int, key func(i int) int) *world {
	w := &world{set: true}
	for i := 0; i < n; i++ {
		w.want = append(w.want, 1000+i)
	}
	switch kind {
	case kVector:
		v := vector.New[int]()
		for _, e := range w.want {
			v.PushBack(e)
		}
		w.first = fs(func() iter { return v.First() }, func() iter { return v.Begin() }, func() iter { return v.IterAt(0) })
		w.last = fs(func() iter { return v.Last() }, func() iter { return v.IterAt(n - 1) })
		w.end = func() iter { return v.End() }
		w.at = append(w.at, func(p int) iterator.RandomAccessIterator[int] { return v.IterAt(p) }, func(p int) iterator.RandomAccessIterator[int] { return v.Last().IteratorAt(p) })
		w.read = func() []int {
			r := []int{}
			for i := 0; i < v.Size(); i++ {
				r = append(r, v.At(i))
			}
			return r
		}
	case kArray:
		v := array.New[int](n)
		for i, e := range w.want {
			v.Set(i, e)
		}
		w.first = fs(func() iter { return v.First() }, func() iter { return v.Begin() }, func() iter { return v.IterAt(0) })
		w.last = fs(func() iter { return v.Last() }, func() iter { return v.IterAt(n - 1) })
		w.end = func() iter { return v.End() }
		w.at = append(w.at, func(p int) iterator.RandomAccessIterator[int] { return v.IterAt(p) }, func(p int) iterator.RandomAccessIterator[int] { return v.Last().IteratorAt(p) })
		w.read = func() []int {
			r := []int{}
			for i := 0; i < v.Size(); i++ {
				r = append(r, v.At(i))
			}
			return r
		}
	case kDeque:
		v := deque.New[int]()
		// wrapped around: some at the front, some at the back, some gone
		h := n / 2
		for i := h - 1; i >= 0; i-- {
			v.PushFront(w.want[i])
		}
		v.PushFront(1)
		v.PopFront()
		for i := h; i < n; i++ {
			v.PushBack(w.want[i])
		}
		w.first = fs(func() iter { return v.First() }, func() iter { return v.Begin() }, func() iter { return v.IterAt(0) })
		w.last = fs(func() iter { return v.Last() }, func() iter { return v.IterAt(n - 1) })
		w.end = func() iter { return v.End() }
		w.at = append(w.at, func(p int) iterator.RandomAccessIterator[int] { return v.IterAt(p) }, func(p int) iterator.RandomAccessIterator[int] { return v.Last().IteratorAt(p) })
		w.read = func() []int {
			r := []int{}
			for i := 0; i < v.Size(); i++ {
				r = append(r, v.At(i))
			}
			return r
		}
	case kSlice:
		s := make([]int, n, n+2)
		copy(s, w.want)
		v := slice.NewSliceWrapper(s)
		w.first = fs(func() iter { return v.First() }, func() iter { return v.Begin() })
		w.last = fs(func() iter { return v.Last() })
		w.end = func() iter { return v.End() }
		w.at = append(w.at, func(p int) iterator.RandomAccessIterator[int] { return v.First().IteratorAt(p) }, func(p int) iterator.RandomAccessIterator[int] { return v.End().IteratorAt(p) })
		w.read = func() []int { return append([]int{}, s...) }
	case kBid:
		l := bidlist.New[int]()
		for _, e := range w.want {
			l.PushBack(e)
		}
		w.first = fs(func() iter { return bidlist.NewIterator(l.FrontNode()) })
		w.last = fs(func() iter { return bidlist.NewIterator(l.BackNode()) })
		w.read = func() []int {
			r := []int{}
			l.Traversal(func(v int) bool { r = append(r, v); return true })
			return r
		}
	case kSimple:
		l := simplelist.New[int]()
		for _, e := range w.want {
			l.PushBack(e)
		}
		w.first = fs(func() iter { return simplelist.NewIterator(l.FrontNode()) })
		w.read = func() []int {
			r := []int{}
			l.Traversal(func(v int) bool { r = append(r, v); return true })
			return r
		}
	case kMap, kMultiMap, kTree:
		var m *treemap.Map[int, int]
		var mm *treemap.MultiMap[int, int]
		var t *rbtree.RbTree[int, int]
		switch kind {
		case kMap:
			m = treemap.New[int, int](x.IntCmp)
			w.first = fs(func() iter { return m.First() }, func() iter { return m.Begin() })
			w.last = fs(func() iter { return m.Last() })
		case kMultiMap:
			mm = treemap.NewMultiMap[int, int](x.IntCmp)
			w.first = fs(func() iter { return mm.First() }, func() iter { return mm.Begin() })
			w.last = fs(func() iter { return mm.Last() })
		default:
			t = rbtree.New[int, int](x.IntCmp)
			w.first = fs(func() iter { return t.IterFirst() }, func() iter { return rbtree.NewIterator(t.Begin()) })
			w.last = fs(func() iter { return t.IterLast() }, func() iter { return rbtree.NewIterator(t.RBegin()) })
		}
		w.want = nil
		for i := 0; i < n; i++ {
			k, v := key(i), 1000+i
			at := len(w.keys)
			for j := range w.keys {
				if w.keys[j] > k {
					at = j
					break
				}
			}
			if kind == kMap && at > 0 && w.keys[at-1] == k {
				w.want[at-1] = v
			} else {
				w.keys, w.want = x.Ins(w.keys, at, k), x.Ins(w.want, at, v)
			}
			switch kind {
			case kMap:
				m.Insert(k, v)
			case kMultiMap:
				mm.Insert(k, v)
			default:
				t.Insert(k, v)
			}
		}
		w.read = func() []int {
			r := []int{}
			f := func(_, v int) bool { r = append(r, v); return true }
			switch kind {
			case kMap:
				m.Traversal(f)
			case kMultiMap:
				mm.Traversal(f)
			default:
				t.Traversal(f)
			}
			return r
		}
	default:
		w.set = false
		var s *set.Set[int]
		var ms *set.MultiSet[int]
		if kind == kSet {
			s = set.New[int](x.IntCmp)
			w.first = fs(func() iter { return s.First() }, func() iter { return s.Begin() })
			w.last = fs(func() iter { return s.Last() })
		} else {
			ms = set.NewMultiSet[int](x.IntCmp)
			w.first = fs(func() iter { return ms.First() }, func() iter { return ms.Begin() })
			w.last = fs(func() iter { return ms.Last() })
		}
		w.want = nil
		for i := 0; i < n; i++ {
			k := key(i)
			at := len(w.want)
			for j := range w.want {
				if w.want[j] > k {
					at = j
					break
				}
			}
			if !(kind == kSet && at > 0 && w.want[at-1] == k) {
				w.want = x.Ins(w.want, at, k)
			}
			if kind == kSet {
				s.Insert(k)
			} else {
				ms.Insert(k)
			}
		}
		w.read = func() []int {
			r := []int{}
			f := func(v int) bool { r = append(r, v); return true }
			if kind == kSet {
				s.Traversal(f)
			} else {
				ms.Traversal(f)
			}
			return r
		}
	}
	return w
}

// symKeys are arbitrary keys.
func symKeys(int) int { return x.Key() }

// someKeys are concrete keys in an order that mixes, with duplicates.
func someKeys(p int) func(int) int {
	return func(i int) int {
		switch p {
		case 0:
			return i
		case 1:
			return -i
		case 2:
			return i * 37 % 101
		case 3:
			return i % 7
		default:
			return i * i % 53
		}
	}
}

func prev(it iter) iter {
	return it.(interface {
		Prev() iterator.ConstBidIterator[int]
	}).Prev()
}

func assign(it iter, v int) {
	if s, ok := it.(interface{ SetValue(int) }); ok {
		s.SetValue(v)
		return
	}
	it.(interface{ SetValue(int) error }).SetValue(v)
}

// is asserts that it stands on element i.
func (w *world) is(it iter, i int, msg string) {
	nd.Assert(it.IsValid(), msg+": invalid on an element")
	nd.Assert(it.Value() == w.want[i], msg+": another element")
	if w.keys != nil {
		nd.Assert(it.(interface{ Key() int }).Key() == w.keys[i], msg+": another key")
	}
	if w.at != nil {
		nd.Assert(it.(iterator.RandomAccessIterator[int]).Position() == i, msg+": another position")
	}
}

// unchanged asserts that the container holds what it must.
func (w *world) unchanged() {
	x.SameInts(w.read(), w.want, "the container is not what it should be")
}

// reach is an iterator at element i, by steps from the first.
func (w *world) reach(i int) iter {
	it := w.first[0]()
	for ; i > 0; i-- {
		it.Next()
	}
	return it
}
