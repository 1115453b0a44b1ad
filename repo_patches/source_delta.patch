From 6aac17cf8c6e094b50cf6099e9fa5b7345c16c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 01/18] fix: import math so utils/comparator compiles

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From cdd0429e14563877607a76abd1d4d425b26b406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 02/18] fix: Complex64Comparator compares real parts of both
 operands

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From f35216d6bfe3a0b240834ecdbeb183aff1a5f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 03/18] fix: comparator.Reverse swaps the operands, negating a
 minimum int does not change its sign

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index f903548..97cd06f 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -42,7 +42,7 @@ func OrderedTypeCmp[T Ordered](a, b T) int {
 // Reverse returns a comparator reverse to cmp
 func Reverse[T any](cmp Comparator[T]) Comparator[T] {
 	return func(a, b T) int {
-		return -cmp(a, b)
+		return cmp(b, a)
 	}
 }
 
-- 
2.43.0


From 8ea213a7fecf2bae1c1439486c19db14e43aab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 04/18] fix: sort.Stable returns on an empty range instead of
 recursing forever

---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From 7e88f0234274e29e74649cd4bd3a8ef899a5e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 05/18] fix: NthElement orders a remaining partition of two
 elements

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 8c0deaf3317781807d10c41a89d134f55095d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 06/18] fix: algorithm.Reverse leaves an empty range alone
 instead of panicking

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From 8614a53ed98e5a1cbf576f7bda897c882fd2a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 07/18] fix: SliceWrapper.Last designates the last element, not
 the end

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 6dca5e6c647f5dcd2debcfaf733da427c9370f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 08/18] fix: bidlist.MoveAfter moves the front node after the
 back node

---
 ds/list/bidlist/list.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a8867cc 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -251,7 +251,13 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 }
 
 func (l *List[T]) moveToAfter(n, at *Node[T]) {
-	if n == at.next || n == at {
+	if n == at {
+		return
+	}
+	if n == at.next {
+		if n == l.head { // the front moves after the back: the ring stays, its front advances
+			l.head = n.next
+		}
 		return
 	}
 	if n == l.head {
-- 
2.43.0


From 0bda93c32d1fa53b96f7b3e95b8dd4b73adb556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 09/18] fix: bidlist.PushBackList and PushFrontList work on an
 empty list

---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a8867cc..ed861f1 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -275,7 +275,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -283,7 +283,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From b9edd190bf811ad1005c5b72c22722e7677690ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 10/18] fix: bidlist.Clear releases its nodes, which otherwise
 still claim to be in the list

---
 ds/list/bidlist/list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index ed861f1..c479bb2 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,6 +190,13 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
+	for n := l.head; n != nil; {
+		next := n.Next()
+		n.next = nil // avoid memory leaks
+		n.prev = nil // avoid memory leaks
+		n.list = nil // no longer a node of the list
+		n = next
+	}
 	l.head = nil
 	l.len = 0
 }
-- 
2.43.0


From 547c9e2d9f1fd393307ad85ac15d8a99f300f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 11/18] fix: rbtree.Delete keeps the nodes and iterators of
 other entries valid

---
 ds/rbtree/rbtree.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index cf7cee9..36902b4 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -197,17 +197,38 @@ func (t *RbTree[K, V]) Delete(node *Node[K, V]) {
 		y.parent.right = x
 	}
 
+	color := y.color
 	if y != z {
-		z.key = y.key
-		z.value = y.value
+		if xparent == z {
+			xparent = y
+		}
+		t.replace(z, y)
 	}
 
-	if y.color {
+	if color {
 		t.rbDeleteFixup(x, xparent)
 	}
 	t.size--
 }
 
+// replace puts y in the place of z, nodes and iterators designating y stay valid
+func (t *RbTree[K, V]) replace(z, y *Node[K, V]) {
+	y.parent, y.left, y.right, y.color = z.parent, z.left, z.right, z.color
+	if y.left != nil {
+		y.left.parent = y
+	}
+	if y.right != nil {
+		y.right.parent = y
+	}
+	if y.parent == nil {
+		t.root = y
+	} else if z == y.parent.left {
+		y.parent.left = y
+	} else {
+		y.parent.right = y
+	}
+}
+
 func (t *RbTree[K, V]) rbDeleteFixup(x, parent *Node[K, V]) {
 	var w *Node[K, V]
 	for x != t.root && getColor(x) {
-- 
2.43.0


From 661b36d747dda15bd75c2d96057eaf7dac859c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 12/18] fix: GenHashInts hashes the previous digest, not the
 seed again, for further words

---
 algorithm/hash/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/hash/hash.go b/algorithm/hash/hash.go
index 756d91f..be6ecd5 100644
--- a/algorithm/hash/hash.go
+++ b/algorithm/hash/hash.go
@@ -11,7 +11,7 @@ func GenHashInts(seed []byte, n int) []uint64 {
 	data := seed
 	var hashInts []uint64
 	for len(hashInts) < n {
-		data := Hash512(data)
+		data = Hash512(data)
 		temp := make([]uint64, len(data)/8)
 		buf := bytes.NewBuffer(data)
 		binary.Read(buf, binary.BigEndian, temp)
-- 
2.43.0


From ee428febfe085f6a2062112f18552745d7008ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 13/18] fix: bloom.NewFromData does not write additions into
 the data passed

---
 ds/bloomfilter/bloom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/bloomfilter/bloom.go b/ds/bloomfilter/bloom.go
index dfac42f..fe56426 100644
--- a/ds/bloomfilter/bloom.go
+++ b/ds/bloomfilter/bloom.go
@@ -75,7 +75,7 @@ func NewFromData(data []byte, opts ...Option) *BloomFilter {
 	reader := bytes.NewReader(data)
 	binary.Read(reader, binary.LittleEndian, &b.m)
 	binary.Read(reader, binary.LittleEndian, &b.k)
-	b.b = bitmap.NewFromData(data[8+8:])
+	b.b = bitmap.NewFromData(append([]byte(nil), data[8+8:]...))
 	return b
 }
 
-- 
2.43.0


From d50030ca4f56eb6a0252e311906dc6b8164d85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 14/18] fix: ketama.Get checks for emptiness under the lock

---
 ds/ketama/ketama.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..42274bf 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,16 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
+
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 78471ccf9ea57ed5642777cdb3318db60350932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 15/18] fix: set algebra locks both sets, not only the receiver

---
 ds/set/set.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..43b4e5a 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -3,6 +3,7 @@ package set
 import (
 	"fmt"
 	gosync "sync"
+	"sync/atomic"
 
 	"github.com/liyue201/gostl/ds/rbtree"
 	"github.com/liyue201/gostl/utils/comparator"
@@ -17,6 +18,7 @@ const (
 
 var (
 	defaultLocker sync.FakeLocker
+	lastID        uint64
 )
 
 // Options holds the Set's options
@@ -41,6 +43,7 @@ type Set[T any] struct {
 	tree   *rbtree.RbTree[T, bool]
 	locker sync.Locker
 	keyCmp comparator.Comparator[T]
+	id     uint64 // the order of creation, in which two sets are locked together
 }
 
 // New creates a new set
@@ -55,6 +58,26 @@ func New[T any](cmp comparator.Comparator[T], opts ...Option) *Set[T] {
 		tree:   rbtree.New[T, bool](cmp),
 		locker: option.locker,
 		keyCmp: cmp,
+		id:     atomic.AddUint64(&lastID, 1),
+	}
+}
+
+// rLockBoth locks the set s and the passed set for reading, in the order of their creation so that
+// concurrent calls on the same sets can't deadlock, and returns a function to unlock them
+func (s *Set[T]) rLockBoth(other *Set[T]) func() {
+	if s == other {
+		s.locker.RLock()
+		return s.locker.RUnlock
+	}
+	first, second := s, other
+	if second.id < first.id {
+		first, second = second, first
+	}
+	first.locker.RLock()
+	second.locker.RLock()
+	return func() {
+		second.locker.RUnlock()
+		first.locker.RUnlock()
 	}
 }
 
@@ -185,8 +208,7 @@ func (s *Set[T]) String() string {
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockBoth(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -209,8 +231,7 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockBoth(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -241,8 +262,7 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockBoth(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-- 
2.43.0


From 1d4c04e5968232e751ef776f6b91feef79c0f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 16/18] fix: hamt.Traversal stops in nested nodes when the
 visitor says so

---
 ds/hamt/hamt.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..e7f3198 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,23 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+// traversal returns false if the visitor stopped it
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From b0f287286873675b89f97f5d3a660833a1c10390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 17/18] fix: iterators of different slice wrappers are not
 equal

---
 ds/slice/iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/iterator.go b/ds/slice/iterator.go
index c7e22dd..f0048e7 100644
--- a/ds/slice/iterator.go
+++ b/ds/slice/iterator.go
@@ -69,7 +69,7 @@ func (iter *SliceIterator[T]) Equal(other iterator.ConstIterator[T]) bool {
 	if !ok {
 		return false
 	}
-	if otherIter.position == iter.position {
+	if otherIter.s == iter.s && otherIter.position == iter.position {
 		return true
 	}
 	return false
-- 
2.43.0


From 2ef4e988096099cd89087f275b6df1546e843e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 18/18] fix: hash trie keeps and hands out its own copies of
 key bytes

Insert kept the caller's slice, so reusing a key buffer changed keys in the
trie, and Keys handed out the trie's own slices, so writing to a returned key
made the entry unreachable.
---
 ds/hamt/hamt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index e7f3198..05941eb 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -265,7 +265,8 @@ func (h *Hamt[T]) Insert(key Key, value T) {
 	h.locker.Lock()
 	defer h.locker.Unlock()
 
-	h.root.insert(0, keyHash, &KvPair[T]{key: key, value: value})
+	// the trie keeps its own copy, the caller may reuse its key
+	h.root.insert(0, keyHash, &KvPair[T]{key: append(Key{}, key...), value: value})
 }
 
 // Get returns the value by the passed key if the key is in the hamt, otherwise returns nil
@@ -295,7 +296,7 @@ func (h *Hamt[T]) Keys() []Key {
 
 	keys := make([]Key, 0)
 	h.root.traversal(func(key Key, _ T) bool {
-		keys = append(keys, key)
+		keys = append(keys, append(Key{}, key...))
 		return true
 	})
 	return keys
-- 
2.43.0

