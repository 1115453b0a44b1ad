// Package x holds helpers shared by the harnesses. Only gostl's public API
// is used.
package x

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"

	"verif.local/h/nd"
)

// E is an element with an order key and an identity.
type E struct{ K, ID int }

// Key is an arbitrary key from a domain in which subtraction cannot overflow.
func Key() int { return int(nd.Int8()) }

// Cmp orders by key; the result has arbitrary magnitude, as a comparator may.
func Cmp(a, b E) int { return a.K - b.K }

// RCmp is the reversed order.
func RCmp(a, b E) int { return b.K - a.K }

// IntCmp orders small ints with results of arbitrary magnitude.
func IntCmp(a, b int) int { return a - b }

// Cmp3 orders by key with results -1, 0, 1.
func Cmp3(a, b E) int {
	if a.K < b.K {
		return -1
	}
	if a.K > b.K {
		return 1
	}
	return 0
}

// Seq is a random-access container holding a sequence.
type Seq[T any] struct {
	Kind int
	At   func(i int) iterator.RandomAccessIterator[T]
	Read func() []T
}

// Kinds is the number of random-access containers.
const Kinds = 4

// MkSeq builds a container of the given kind with contents s.
func MkSeq[T any](kind int, s []T) *Seq[T] {
	n := len(s)
	q := &Seq[T]{Kind: kind}
	switch kind {
	case 0:
		c := make([]T, n, n+1)
		copy(c, s)
		w := slice.NewSliceWrapper(c)
		q.At = func(i int) iterator.RandomAccessIterator[T] { return w.Begin().IteratorAt(i) }
		q.Read = func() []T { return append([]T(nil), c...) }
	case 1:
		v := vector.New[T]()
		for _, e := range s {
			v.PushBack(e)
		}
		q.At = func(i int) iterator.RandomAccessIterator[T] { return v.IterAt(i) }
		q.Read = func() []T {
			r := make([]T, v.Size())
			for i := range r {
				r[i] = v.At(i)
			}
			return r
		}
	case 2:
		a := array.New[T](n)
		for i, e := range s {
			a.Set(i, e)
		}
		q.At = func(i int) iterator.RandomAccessIterator[T] { return a.IterAt(i) }
		q.Read = func() []T {
			r := make([]T, a.Size())
			for i := range r {
				r[i] = a.At(i)
			}
			return r
		}
	default:
		d := deque.New[T]()
		h := n / 2
		for i := h - 1; i >= 0; i-- {
			d.PushFront(s[i])
		}
		for i := h; i < n; i++ {
			d.PushBack(s[i])
		}
		q.At = func(i int) iterator.RandomAccessIterator[T] { return d.IterAt(i) }
		q.Read = func() []T {
			r := make([]T, d.Size())
			for i := range r {
				r[i] = d.At(i)
			}
			return r
		}
	}
	return q
}

// Fresh is n elements with arbitrary keys and identities 0..n-1.
func Fresh(n int) []E {
	s := make([]E, n)
	for i := range s {
		s[i] = E{Key(), i}
	}
	return s
}

// Same asserts that a and b hold the same elements (keys and identities).
func Same(a, b []E, msg string) {
	nd.Assert(len(a) == len(b), msg+": length changed")
	ok := true
	for i := range a {
		ok = nd.And(ok, nd.And(a[i].K == b[i].K, a[i].ID == b[i].ID))
	}
	nd.Assert(ok, msg)
}

// SameInts asserts equality of int slices.
func SameInts(a, b []int, msg string) {
	nd.Assert(len(a) == len(b), msg+": length")
	nd.Assert(EqInts(a, b), msg)
}

// EqInts compares slices of equal length without forking.
func EqInts(a, b []int) bool {
	ok := len(a) == len(b)
	if ok {
		for i := range a {
			ok = nd.And(ok, a[i] == b[i])
		}
	}
	return ok
}

// Perm asserts that after[lo:hi] is a permutation of before[lo:hi] and that
// nothing else changed. Identities in before are 0..n-1 by position.
func Perm(before, after []E, lo, hi int) {
	nd.Assert(len(before) == len(after), "the container changed size")
	ok := true
	for i := range before {
		if i < lo || i >= hi {
			ok = nd.And(ok, nd.And(before[i].K == after[i].K, before[i].ID == after[i].ID))
		}
	}
	nd.Assert(ok, "an element outside the range changed")
	seen := make([]bool, len(before))
	ok = true
	for i := lo; i < hi; i++ {
		id := nd.Conc(after[i].ID)
		nd.Assert(id >= lo && id < hi, "an element of the range came from outside it")
		nd.Assert(!seen[id], "an element of the range was duplicated")
		seen[id] = true
		ok = nd.And(ok, after[i].K == before[id].K)
	}
	nd.Assert(ok, "an element of the range changed its key")
}

// Sorted is the (fork-free) condition that s is non-decreasing under cmp.
func Sorted(s []E, cmp func(a, b E) int) bool {
	ok := true
	for i := 1; i < len(s); i++ {
		ok = nd.And(ok, cmp(s[i-1], s[i]) <= 0)
	}
	return ok
}

// Rem is the elements of s without index i.
func Rem[T any](s []T, i int) []T {
	r := make([]T, 0, len(s)-1)
	r = append(r, s[:i]...)
	return append(r, s[i+1:]...)
}

// Ins is s with v inserted at i.
func Ins[T any](s []T, i int, v T) []T {
	r := make([]T, 0, len(s)+1)
	r = append(r, s[:i]...)
	r = append(r, v)
	return append(r, s[i:]...)
}
