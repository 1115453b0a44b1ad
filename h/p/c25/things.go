package c25

import (
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"

	"verif.local/h/nd"
	"verif.local/h/shim/fnv"
	"verif.local/h/shim/rand"
	"verif.local/h/shim/sha512"
	"verif.local/h/x"
)

// elem is the i-th element put in beforehand.
func elem(i int) int { return (i*7 + 1) % 20 }

func stackThing(list bool) thing {
	mk := func(pre int) inst {
		opts := []stack.Option[int]{stack.WithGoroutineSafe[int]()}
		if list {
			opts = append(opts, stack.WithListContainer[int]())
		}
		s := stack.New[int](opts...)
		for i := 0; i < pre; i++ {
			s.Push(elem(i))
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				s.Push(v)
			case 1:
				return []int{s.Pop()}
			case 2:
				return []int{s.Top()}
			case 3:
				s.Clear()
			case 4:
				return []int{s.Size()}
			case 5:
				return []int{b2i(s.Empty())}
			case 6:
				return runes(s.String())
			case -1:
				s.Push(1)
				out := []int{s.Size()}
				for !s.Empty() {
					out = append(out, s.Pop())
				}
				return out
			}
			return nil
		}
	}
	return thing{mk, 7, []int{0, 1, 2, 3, 4}}
}

func queueThing(list bool) thing {
	mk := func(pre int) inst {
		opts := []queue.Option[int]{queue.WithGoroutineSafe[int]()}
		if list {
			opts = append(opts, queue.WithListContainer[int]())
		}
		s := queue.New[int](opts...)
		for i := 0; i < pre; i++ {
			s.Push(elem(i))
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				s.Push(v)
			case 1:
				return []int{s.Pop()}
			case 2:
				return []int{s.Front()}
			case 3:
				s.Clear()
			case 4:
				return []int{s.Size()}
			case 5:
				return []int{b2i(s.Empty())}
			case 6:
				return runes(s.String())
			case 7:
				return []int{s.Back()}
			case -1:
				s.Push(1)
				out := []int{s.Size()}
				for !s.Empty() {
					out = append(out, s.Pop())
				}
				return out
			}
			return nil
		}
	}
	return thing{mk, 8, []int{0, 1, 2, 3, 7}}
}

func pqThing() thing {
	mk := func(pre int) inst {
		s := priorityqueue.New[x.E](x.Cmp, priorityqueue.WithGoroutineSafe())
		for i := 0; i < pre; i++ {
			s.Push(x.E{K: elem(i), ID: i})
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				s.Push(x.E{K: a, ID: v})
			case 1:
				e := s.Pop()
				return []int{e.K, e.ID}
			case 2:
				e := s.Top()
				return []int{e.K, e.ID}
			case 3:
				s.Clear()
			case 4:
				return []int{s.Size()}
			case 5:
				return []int{b2i(s.Empty())}
			case -1:
				s.Push(x.E{K: 50, ID: 50})
				out := []int{s.Size()}
				for !s.Empty() {
					e := s.Pop()
					out = append(out, e.K, e.ID)
				}
				return out
			}
			return nil
		}
	}
	return thing{mk, 6, []int{0, 1, 2, 3}}
}

// maps is what a map and a multimap have in common.
type maps interface {
	Insert(k, v int)
	Get(k int) (int, error)
	Erase(k int)
	Contains(k int) bool
	Size() int
	Clear()
	Find(k int) *treemap.MapIterator[int, int]
	LowerBound(k int) *treemap.MapIterator[int, int]
	UpperBound(k int) *treemap.MapIterator[int, int]
	Begin() *treemap.MapIterator[int, int]
	First() *treemap.MapIterator[int, int]
	Last() *treemap.MapIterator[int, int]
}

func mapThing(multi bool) thing {
	mk := func(pre int) inst {
		var m maps
		var each func(func(k, v int) bool)
		if multi {
			mm := treemap.NewMultiMap[int, int](x.IntCmp, treemap.WithGoroutineSafe())
			m, each = mm, func(f func(k, v int) bool) { mm.Traversal(f) }
		} else {
			mm := treemap.New[int, int](x.IntCmp, treemap.WithGoroutineSafe())
			m, each = mm, func(f func(k, v int) bool) { mm.Traversal(f) }
		}
		for i := 0; i < pre; i++ {
			m.Insert(elem(i), i)
		}
		all := func() []int {
			out := []int{}
			each(func(k, v int) bool {
				out = append(out, k, v)
				return true
			})
			return out
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				m.Insert(a, v)
			case 1:
				m.Erase(a)
			case 2:
				v, err := m.Get(a)
				return []int{v, b2i(err == nil)}
			case 3:
				m.Clear()
			case 4:
				return []int{m.Size()}
			case 5:
				return []int{b2i(m.Contains(a))}
			case 6:
				return all()
			case 7:
				return []int{b2i(m.Find(a).IsValid())}
			case 8:
				return []int{b2i(m.LowerBound(a).IsValid())}
			case 9:
				return []int{b2i(m.UpperBound(a).IsValid())}
			case 10:
				return []int{b2i(m.Begin().IsValid())}
			case 11:
				return []int{b2i(m.First().IsValid())}
			case 12:
				return []int{b2i(m.Last().IsValid())}
			case -1:
				m.Insert(50, 50)
				return append(all(), m.Size())
			}
			return nil
		}
	}
	return thing{mk, 13, []int{0, 1, 2, 3, 6}}
}

// sets is what a set and a multiset have in common.
type sets interface {
	Insert(k int)
	Erase(k int)
	Contains(k int) bool
	Size() int
	Clear()
	String() string
	Find(k int) *set.SetIterator[int]
	LowerBound(k int) *set.SetIterator[int]
	UpperBound(k int) *set.SetIterator[int]
	Begin() *set.SetIterator[int]
	First() *set.SetIterator[int]
	Last() *set.SetIterator[int]
}

func setThing(multi bool) thing {
	mk := func(pre int) inst {
		var s sets
		var ms *set.MultiSet[int]
		var each func(func(k int) bool)
		if multi {
			ms = set.NewMultiSet[int](x.IntCmp, set.WithGoroutineSafe())
			s, each = ms, func(f func(k int) bool) { ms.Traversal(f) }
		} else {
			us := set.New[int](x.IntCmp, set.WithGoroutineSafe())
			s, each = us, func(f func(k int) bool) { us.Traversal(f) }
		}
		for i := 0; i < pre; i++ {
			s.Insert(elem(i))
		}
		all := func() []int {
			out := []int{}
			each(func(k int) bool {
				out = append(out, k)
				return true
			})
			return out
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				s.Insert(a)
			case 1:
				s.Erase(a)
			case 2:
				return []int{b2i(s.Contains(a))}
			case 3:
				s.Clear()
			case 4:
				return []int{s.Size()}
			case 5:
				return all()
			case 6:
				s.Insert(nd.Conc(a)) // what is printed must be concrete
				return nil
			case 7:
				return []int{b2i(s.Find(a).IsValid())}
			case 8:
				return []int{b2i(s.LowerBound(a).IsValid())}
			case 9:
				return []int{b2i(s.UpperBound(a).IsValid())}
			case 10:
				return []int{b2i(s.Begin().IsValid())}
			case 11:
				return []int{b2i(s.First().IsValid())}
			case 12:
				return []int{b2i(s.Last().IsValid())}
			case 13:
				return runes(s.String())
			case 14:
				return []int{ms.Count(a)}
			case 15:
				ms.EraseAll(a)
			case -1:
				s.Insert(50)
				return append(all(), s.Size())
			}
			return nil
		}
	}
	if multi {
		return thing{mk, 16, []int{0, 1, 14, 15, 5}}
	}
	return thing{mk, 14, []int{0, 1, 2, 3, 5}}
}

var names = []string{"a", "b", "", "ab", "c"}

func name(i int) string { return names[nd.Conc(i)%len(names)] }

// hashes decides what the hash trie sees: spread, colliding in part, equal.
func hashes(mode int) {
	fnv.Fixed = func(b []byte) (uint64, bool) {
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		switch mode {
		case 0:
			h = h << 12
		case 1:
			h = 77
		}
		return h, true
	}
}

func hamtThing(mode int) thing {
	mk := func(pre int) inst {
		hashes(mode)
		h := hamt.New[int](hamt.WithGoroutineSafe())
		for i := 0; i < pre; i++ {
			n := names[i%len(names)]
			if i >= len(names) {
				n += string(rune('a' + i))
			}
			h.Insert(hamt.Key(n), i)
		}
		all := func() []int {
			out := []int{}
			h.Traversal(func(k hamt.Key, v int) bool {
				out = append(append(out, runes(string(k))...), v)
				return true
			})
			return out
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				h.Insert(hamt.Key(name(a)), v)
			case 1:
				return []int{b2i(h.Erase(hamt.Key(name(a))))}
			case 2:
				v, err := h.Get(hamt.Key(name(a)))
				return []int{v, b2i(err == nil)}
			case 3:
				return all()
			case 4:
				out := []int{}
				for _, k := range h.Keys() {
					out = append(append(out, runes(string(k))...), -1)
				}
				return out
			case 5:
				out := []int{}
				for _, k := range h.StringKeys() {
					out = append(append(out, runes(k)...), -1)
				}
				return out
			case -1:
				h.Insert(hamt.Key("zz"), 50)
				return all()
			}
			return nil
		}
	}
	return thing{mk, 6, []int{0, 1, 2, 3}}
}

func skipThing(level int) thing {
	mk := func(pre int) inst {
		rand.Fixed = func() (uint64, bool) { return uint64(nd.Stamp()) * 0x9e3779b97f4a7c15, true }
		s := skiplist.New[int, int](x.IntCmp, skiplist.WithMaxLevel(level), skiplist.WithGoroutineSafe())
		for i := 0; i < pre; i++ {
			s.Insert(elem(i), i)
		}
		all := func() []int {
			out := []int{}
			s.Traversal(func(k, v int) bool {
				out = append(out, k, v)
				return true
			})
			return out
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				s.Insert(a, v)
			case 1:
				return []int{b2i(s.Remove(a))}
			case 2:
				v, err := s.Get(a)
				return []int{v, b2i(err == nil)}
			case 3:
				return all()
			case 4:
				return []int{s.Len()}
			case 5:
				return s.Keys()
			case -1:
				s.Insert(50, 50)
				return append(all(), s.Len())
			}
			return nil
		}
	}
	return thing{mk, 6, []int{0, 1, 2, 3}}
}

func digests() {
	sha512.Fixed = func(b []byte) []uint64 {
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		w := make([]uint64, 8)
		for i := range w {
			h ^= h >> 29
			h *= 0xbf58476d1ce4e5b9
			h ^= h >> 32
			w[i] = h
		}
		return w
	}
}

func bloomThing(how int) thing {
	mk := func(pre int) inst {
		digests()
		var f *bloom.BloomFilter
		switch how {
		case 0:
			f = bloom.New(16, 2, bloom.WithGoroutineSafe())
		default:
			f = bloom.NewFromData(bloom.New(9, 3).Data(), bloom.WithGoroutineSafe())
		}
		for i := 0; i < pre; i++ {
			f.Add(names[i%len(names)])
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				f.Add(name(a))
			case 1:
				return []int{b2i(f.Contains(name(a)))}
			case 2:
				return runes(string(f.Data()))
			case -1:
				f.Add("zz")
				return append(runes(string(f.Data())), b2i(f.Contains("b")))
			}
			return nil
		}
	}
	return thing{mk, 3, []int{0, 1, 2}}
}

func ringThing() thing {
	mk := func(pre int) inst {
		digests()
		k := ketama.New(ketama.WithGoroutineSafe(), ketama.WithReplicas(2))
		for i := 0; i < pre && i < len(names); i++ {
			k.Add(names[i])
		}
		get := func(s string) []int {
			n, ok := k.Get(s)
			return append(runes(n), b2i(ok))
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				k.Add(name(a))
			case 1:
				k.Remove(name(a))
			case 2:
				return get(name(a))
			case 3:
				return []int{b2i(k.Empty())}
			case 4:
				k.Remove(names[0], names[1])
			case 5:
				return get("key")
			case -1:
				var out []int
				for _, s := range []string{"a", "b", "", "x", "y", "z", "key"} {
					out = append(out, get(s)...)
				}
				k.Add("zz")
				return append(out, get("zz")...)
			}
			return nil
		}
	}
	return thing{mk, 6, []int{0, 1, 4, 5}}
}

// algebraThing is a pair of shared sets.
func algebraThing() thing {
	mk := func(pre int) inst {
		s := [2]*set.Set[int]{}
		for i := range s {
			s[i] = set.New[int](x.IntCmp, set.WithGoroutineSafe())
		}
		for i := 0; i < pre; i++ {
			s[i%2].Insert(elem(i))
			if i%3 == 0 {
				s[1-i%2].Insert(elem(i))
			}
		}
		all := func(t *set.Set[int]) []int {
			out := []int{}
			t.Traversal(func(k int) bool {
				out = append(out, k)
				return true
			})
			return out
		}
		return func(op, a, v int) []int {
			switch op {
			case 0:
				return all(s[0].Union(s[1]))
			case 1:
				return all(s[1].Union(s[0]))
			case 2:
				return all(s[0].Intersect(s[1]))
			case 3:
				return all(s[1].Intersect(s[0]))
			case 4:
				return all(s[0].Diff(s[1]))
			case 5:
				return all(s[1].Diff(s[0]))
			case 6:
				s[0].Insert(a)
			case 7:
				s[1].Insert(a)
			case 8:
				s[0].Erase(a)
			case 9:
				s[1].Clear()
			case 10:
				return all(s[0].Union(s[0]))
			case 11:
				return all(s[0].Intersect(s[0]))
			case 12:
				return all(s[0].Diff(s[0]))
			case -1:
				s[0].Insert(50)
				s[1].Insert(51)
				return append(append(all(s[0]), -1), all(s[1])...)
			}
			return nil
		}
	}
	return thing{mk, 13, []int{0, 3, 7}}
}
