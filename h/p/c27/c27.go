// Package c27: traversals stop when the visitor says so.
package c27

import (
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"

	"verif.local/h/nd"
	"verif.local/h/shim/fnv"
	"verif.local/h/shim/rand"
	"verif.local/h/x"
)

// world is a container with a traversal and what it must visit.
type world struct {
	want    []int // what identifies each element, in order if ordered
	ordered bool
	visit   func(f func(id int) bool)
	add     func() // adds one more element, after all others in order
	extra   int    // what identifies it
}

const (
	kBid = iota
	kSimple
	kTree
	kMap
	kMultiMap
	kSet
	kMultiSet
	kSkip
	kHamt
	kinds
)

const top = 10000 // a key above all others

// build makes a container of n insertions.
func build(kind, n int, safe bool, key func(i int) int) *world {
	w := &world{ordered: true, extra: top}
	// note a key-value pair: multi keeps all, otherwise the last value counts
	var keys []int
	note := func(k, v int, multi, keyed bool) {
		at := len(keys)
		for j := range keys {
			if keys[j] > k {
				at = j
				break
			}
		}
		id := v
		if keyed {
			id = k
		}
		if !multi && at > 0 && keys[at-1] == k {
			w.want[at-1] = id
			return
		}
		keys, w.want = x.Ins(keys, at, k), x.Ins(w.want, at, id)
	}
	var insert func(k, v int)
	multi, keyed := false, false
	val := func(f func(int) bool) func(k, v int) bool { return func(_, v int) bool { return f(v) } }
	switch kind {
	case kBid:
		l := bidlist.New[int]()
		w.visit = func(f func(int) bool) { l.Traversal(f) }
		w.add = func() { l.PushBack(top) }
		for i := 0; i < n; i++ {
			l.PushBack(i)
			w.want = append(w.want, i)
		}
		return w
	case kSimple:
		l := simplelist.New[int]()
		w.visit = func(f func(int) bool) { l.Traversal(f) }
		w.add = func() { l.PushBack(top) }
		for i := 0; i < n; i++ {
			l.PushBack(i)
			w.want = append(w.want, i)
		}
		return w
	case kTree:
		t := rbtree.New[int, int](x.IntCmp)
		multi, insert = true, t.Insert
		w.visit = func(f func(int) bool) { t.Traversal(val(f)) }
	case kMap:
		opts := []treemap.Option{}
		if safe {
			opts = append(opts, treemap.WithGoroutineSafe())
		}
		t := treemap.New[int, int](x.IntCmp, opts...)
		insert = t.Insert
		w.visit = func(f func(int) bool) { t.Traversal(val(f)) }
	case kMultiMap:
		opts := []treemap.Option{}
		if safe {
			opts = append(opts, treemap.WithGoroutineSafe())
		}
		t := treemap.NewMultiMap[int, int](x.IntCmp, opts...)
		multi, insert = true, t.Insert
		w.visit = func(f func(int) bool) { t.Traversal(val(f)) }
	case kSet:
		opts := []set.Option{}
		if safe {
			opts = append(opts, set.WithGoroutineSafe())
		}
		t := set.New[int](x.IntCmp, opts...)
		keyed, insert = true, func(k, v int) { t.Insert(k) }
		w.visit = func(f func(int) bool) { t.Traversal(f) }
	case kMultiSet:
		opts := []set.Option{}
		if safe {
			opts = append(opts, set.WithGoroutineSafe())
		}
		t := set.NewMultiSet[int](x.IntCmp, opts...)
		multi, keyed, insert = true, true, func(k, v int) { t.Insert(k) }
		w.visit = func(f func(int) bool) { t.Traversal(f) }
	case kSkip:
		opts := []skiplist.Option{skiplist.WithMaxLevel(4)}
		if safe {
			opts = append(opts, skiplist.WithGoroutineSafe())
		}
		t := skiplist.New[int, int](x.IntCmp, opts...)
		insert = t.Insert
		w.visit = func(f func(int) bool) { t.Traversal(val(f)) }
	default:
		opts := []hamt.Option{}
		if safe {
			opts = append(opts, hamt.WithGoroutineSafe())
		}
		t := hamt.New[int](opts...)
		w.ordered = false
		w.visit = func(f func(int) bool) { t.Traversal(func(_ hamt.Key, v int) bool { return f(v) }) }
		w.add = func() { t.Insert(hamt.Key("top"), top) }
		for i := 0; i < n; i++ {
			t.Insert(hamt.Key(name(i)), i)
			w.want = append(w.want, i)
		}
		return w
	}
	for i := 0; i < n; i++ {
		k := key(i)
		insert(k, i)
		note(k, i, multi, keyed)
	}
	w.add = func() { insert(top, top) }
	return w
}

func name(i int) string { return string(rune('A'+i%26)) + string(rune('0'+i/26)) }

// traverse runs a traversal whose visitor says stop at its s-th call (0 is
// the first) and checks the calls.
func (w *world) traverse(s int) {
	n := len(w.want)
	calls := 0
	over := false
	seen := make([]bool, n)
	w.visit(func(id int) bool {
		nd.Assert(!over, "the visitor is called again after it said stop")
		nd.Assert(calls < n, "more visits than elements")
		if w.ordered {
			nd.Assert(id == w.want[calls], "another element than the next in order")
		} else {
			at := -1
			for i := range w.want {
				if w.want[i] == id {
					at = i
				}
			}
			nd.Assert(at >= 0 && !seen[at], "an element visited twice or not held")
			seen[at] = true
		}
		over = calls == s
		calls++
		return !over
	})
	if over {
		nd.Assert(calls == s+1, "the number of visits is wrong")
	} else {
		nd.Assert(calls == n, "an element is not visited")
	}
}

// after checks that the container is what it was and usable.
func (w *world) after() {
	w.traverse(-1)
	w.add()
	w.want = append(w.want, w.extra)
	w.traverse(-1)
}

func (w *world) run(s int) {
	w.traverse(s)
	w.traverse(nd.Choice(2))
	w.after()
}

func free() { fnv.Fixed, rand.Fixed = nil, nil }

// H_small: small containers of arbitrary keys; the visitor stops anywhere.
func H_small() {
	free()
	rand.Fixed = levels
	k := nd.Choice(kHamt)
	n := nd.Choice(nd.Param("n", 5, 6))
	w := build(k, n, nd.Choice(2) == 1, func(int) int { return x.Key() })
	w.run(nd.IntIn(-1, n))
}

// levels are concrete draws, of varied heights.
func levels() (uint64, bool) {
	return uint64(nd.Stamp()) * 0x9e3779b97f4a7c15, true
}

// H_hamt: hash tries of arbitrary hashes of a kind; the visitor stops anywhere.
func H_hamt() {
	free()
	seen := map[string]uint64{"top": 0}
	fnv.Fixed = func(b []byte) (uint64, bool) {
		h, ok := seen[string(b)]
		if !ok {
			// two bits at three levels and at the last one
			c := uint64(nd.Uint8())
			h = c&3 | c>>2&3<<6 | c>>4&3<<12 | c>>6&3<<60
			seen[string(b)] = h
		}
		return h, true
	}
	n := nd.Choice(nd.Param("n", 4, 5))
	w := build(kHamt, n, false, nil)
	w.run(nd.IntIn(-1, n))
}

// H_deep: hash tries that share hash bits at some levels, or all.
func H_deep() {
	free()
	mode := nd.Choice(5)
	fnv.Fixed = func(b []byte) (uint64, bool) {
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h ^= h >> 31
		switch mode {
		case 0:
			return h, true
		case 1:
			return h << 6, true
		case 2:
			return h << 60, true
		case 3:
			return h &^ 0xfffff8, true
		}
		return h % 3, true
	}
	n := nd.Choice(nd.Param("n", 14, 40))
	w := build(kHamt, n, false, nil)
	w.run(nd.IntIn(-1, n))
}

// H_big: longer containers.
func H_big() {
	free()
	rand.Fixed = levels
	k := nd.Choice(kHamt)
	n := []int{9, 33, 70, 150, 400}[nd.Choice(nd.Param("sizes", 3, 5))]
	p := 0
	if k >= kTree {
		p = nd.Choice(4)
	}
	w := build(k, n, nd.Choice(2) == 1, func(i int) int {
		switch p {
		case 0:
			return i
		case 1:
			return -i
		case 2:
			return i * 37 % 101
		}
		return i % 7
	})
	w.run(nd.IntIn(-1, len(w.want)))
}

// H_tries: hash tries with wide and nested nodes and colliding keys, stopped
// anywhere.
func H_tries() {
	free()
	p := nd.Choice(5)
	ids := map[string]uint64{}
	fnv.Fixed = func(b []byte) (uint64, bool) {
		i, ok := ids[string(b)]
		if !ok {
			i = uint64(len(ids))
			ids[string(b)] = i
		}
		switch p {
		case 0: // as real hashes
			i = (i + 1) * 0x9e3779b97f4a7c15
		case 1: // five children each, three levels
			i = i%5*12 | i/5%5*9<<6 | i/25*13<<12
		case 2: // two of three keys collide, at two levels
			i = i / 3 % 6 * 11 << 6
		case 3: // beside one entry of each node the rest is nested
			l := i % 10
			i = (i/10 + 2) << (l * 6)
		default: // the last two levels
			i = i%7*8<<54 | i/7%15<<60
		}
		return i, true
	}
	n := []int{20, 70, 200}[nd.Choice(nd.Param("sizes", 2, 3))]
	w := build(kHamt, n, nd.Choice(2) == 1, nil)
	w.run(nd.IntIn(-1, n))
}

// H_huge: containers of a thousand elements and more; the visitor stops anywhere in some stretch.
func H_huge() {
	free()
	rand.Fixed = levels
	k := nd.Choice(kHamt + 1)
	n := nd.Param("n", 1100, 4000)
	if k == kHamt {
		fnv.Fixed = func(b []byte) (uint64, bool) {
			h := uint64(0)
			for _, c := range b {
				h = h*257 + uint64(c)
			}
			return h * 0x9e3779b97f4a7c15, true
		}
	}
	w := build(k, n, nd.Choice(2) == 1, func(i int) int { return i })
	w.run([]int{0, n/2 - 3, n - 5}[nd.Choice(3)] + nd.IntIn(-1, 5))
}
