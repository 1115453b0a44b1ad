package c09

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/slice"

	"verif.local/h/nd"
)

func same(a *array.Array[int], s []int) {
	nd.Assert(a.Size() == len(s), "Size changed")
	nd.Assert(a.Empty() == (len(s) == 0), "Empty is wrong")
	d := a.Data()
	nd.Assert(len(d) == len(s), "Data has the wrong length")
	ok := true
	it := a.Begin()
	for i, e := range s {
		nd.Assert(it.IsValid(), "iteration ends early")
		ok = nd.And(ok, nd.And(nd.And(a.At(i) == e, d[i] == e), it.Value() == e))
		it.Next()
	}
	nd.Assert(ok, "contents are wrong")
	nd.Assert(!it.IsValid() && it.Equal(a.End()), "iteration does not end at End")
	if n := len(s); n > 0 {
		nd.Assert(a.Front() == s[0] && a.Back() == s[n-1], "Front or Back is wrong")
		nd.Assert(a.First().Value() == s[0] && a.Last().Value() == s[n-1], "First or Last is wrong")
	}
}

// H_array: any sequence of writes and swaps over two arrays.
func H_array() {
	n, m := nd.ChoiceIn(0, nd.Param("n", 3, 4)), nd.ChoiceIn(0, 3)
	a, b := array.New[int](n), array.New[int](m)
	s, t := make([]int, n), make([]int, m)
	same(a, s)
	same(b, t)
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		switch nd.Choice(6) {
		case 0:
			p, v := nd.Int(), nd.Int()
			a.Set(p, v)
			if p >= 0 && p < n {
				s[nd.Conc(p)] = v
			}
		case 1:
			p, v := nd.Int(), nd.Int()
			b.Set(p, v)
			if p >= 0 && p < m {
				t[nd.Conc(p)] = v
			}
		case 2:
			v := nd.Int()
			a.Fill(v)
			for i := range s {
				s[i] = v
			}
		case 3:
			a.SwapArray(b)
			if n == m {
				s, t = t, s
			}
		case 4:
			b.SwapArray(b)
		default:
			if n > 0 {
				v, i := nd.Int(), nd.Choice(n)
				a.IterAt(i).SetValue(v)
				s[i] = v
			}
		}
		same(a, s)
		same(b, t)
	}
}

// H_large: zero values everywhere, then one arbitrary write, Fill, SwapArray.
func H_large() {
	n := nd.Param("n", 130, 600)
	a, b := array.New[int](n), array.New[int](n)
	s, t := make([]int, n), make([]int, n)
	same(a, s)
	if nd.Choice(2) == 0 {
		a.Fill(7)
		for i := range s {
			s[i] = 7
		}
		same(a, s)
	}
	p, v := nd.Int(), nd.Int()
	a.Set(p, v)
	if p >= 0 && p < n {
		s[nd.Conc(p)] = v
	}
	same(a, s)
	a.SwapArray(b)
	same(a, t)
	same(b, s)
}

// H_sizes: every size up to 70, both arrays full of distinct values, one of them arbitrary.
func H_sizes() {
	n := nd.ChoiceIn(0, nd.Param("n", 70, 300))
	a, b := array.New[int](n), array.New[int](n)
	s, t := make([]int, n), make([]int, n)
	for i := range s {
		s[i], t[i] = i+1, -i-1
		a.Set(i, i+1)
		b.Set(i, -i-1)
	}
	p, v := nd.Int(), nd.Int()
	a.Set(p, v)
	if p >= 0 && p < n {
		s[nd.Conc(p)] = v
	}
	same(a, s)
	a.SwapArray(b)
	same(a, t)
	same(b, s)
	c := array.NewFromArray(b)
	b.Fill(v)
	same(c, s)
	same(a, t)
	for i := range t {
		t[i] = v
	}
	same(b, t)
}

// H_copy: a copied array has the same contents and size.
func H_copy() {
	n := nd.ChoiceIn(0, 5)
	a, s := array.New[int](n), nd.Ints(n)
	for i := range s {
		a.Set(i, s[i])
	}
	same(array.NewFromArray(a), s)
	same(a, s)
}

func view(w *slice.SliceWrapper[int], s []int) {
	n := len(s)
	nd.Assert(w.Len() == n, "Len is wrong")
	ok := true
	it := w.Begin()
	for i, e := range s {
		nd.Assert(it.IsValid(), "iteration ends early")
		ok = nd.And(ok, nd.And(w.At(i) == e, it.Value() == e))
		it.Next()
	}
	nd.Assert(ok, "wrapper contents are wrong")
	nd.Assert(!it.IsValid() && it.Equal(w.End()) && w.End().Position() == n, "End is not after the last element")
	if n > 0 {
		f, l := w.First(), w.Last()
		nd.Assert(f.IsValid() && f.Position() == 0, "First is not at the first element")
		nd.Assert(f.Value() == s[0], "First designates the wrong element")
		nd.Assert(l.IsValid() && l.Position() == n-1, "Last is not at the last element")
		nd.Assert(l.Value() == s[n-1], "Last designates the wrong element")
	}
}

// H_slice: writes on both sides and Attach.
func H_slice() {
	n := nd.ChoiceIn(0, nd.Param("n", 3, 4))
	m := nd.ChoiceIn(0, 3)
	spare := nd.Choice(2)
	cur, other := make([]int, n, n+spare), make([]int, m)
	s, t := make([]int, n), make([]int, m)
	for i := range s {
		cur[i], s[i] = 100+i, 100+i
	}
	for i := range t {
		other[i], t[i] = 200+i, 200+i
	}
	w := slice.NewSliceWrapper(cur)
	view(w, s)
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		switch nd.Choice(4) {
		case 0:
			p, v := nd.Int(), nd.Int()
			w.Set(p, v)
			if p >= 0 && p < len(s) {
				s[nd.Conc(p)] = v
			}
		case 1:
			if len(s) > 0 {
				i, v := nd.Choice(len(s)), nd.Int()
				cur[i], s[i] = v, v
			}
		case 2:
			w.Attach(other)
			cur, other, s, t = other, cur, t, s
		default:
			if len(s) > 0 {
				i, v := nd.Choice(len(s)), nd.Int()
				w.First().IteratorAt(i).SetValue(v)
				s[i] = v
			}
		}
		view(w, s)
		ok := true
		for i := range s {
			ok = nd.And(ok, cur[i] == s[i])
		}
		for i := range t {
			ok = nd.And(ok, other[i] == t[i])
		}
		nd.Assert(ok, "a wrapped or detached slice has the wrong contents")
		if spare == 1 && cap(cur) > len(cur) {
			nd.Assert(cur[:len(cur)+1][len(cur)] == 0, "a write went past the wrapped slice")
		}
	}
}

// H_huge: thousands of elements.
func H_huge() {
	n := []int{1100, 5000}[nd.Choice(2)]
	a, b := array.New[int](n), array.New[int](n)
	s, t := make([]int, n), make([]int, n)
	for i := range s {
		s[i], t[i] = i, -i
		a.Set(i, i)
		b.Set(n-1-i, i-(n-1))
	}
	same(a, s)
	same(b, t)
	p, v := []int{0, n / 2, n - 3}[nd.Choice(3)]+nd.IntIn(0, 2), nd.Int()
	a.Set(p, v)
	s[nd.Conc(p)] = v
	c := array.NewFromArray(a)
	a.SwapArray(b)
	same(a, t)
	same(b, s)
	same(c, s)
	b.Fill(v)
	same(c, s)
	for i := range s {
		s[i] = v
	}
	same(b, s)
	same(a, t)
}
