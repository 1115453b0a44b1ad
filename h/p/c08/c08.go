package c08

import (
	"github.com/liyue201/gostl/ds/vector"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// pair is a vector with the sequence it must equal.
type pair struct {
	v    *vector.Vector[int]
	s    []int
	next int
}

func (m *pair) tag() int {
	m.next++
	return m.next
}

// in: 0 <= p < n, fork-free.
func in(p, n int) bool { return nd.And(p >= 0, p < n) }

// check reads everything back.
func (m *pair) check() {
	v, n := m.v, len(m.s)
	nd.Assert(v.Size() == n, "Size is wrong")
	nd.Assert(v.Empty() == (n == 0), "Empty is wrong")
	nd.Assert(v.Capacity() >= n, "Capacity below Size")
	d := v.Data()
	nd.Assert(len(d) == n, "Data has the wrong length")
	it := v.Begin()
	ok, okd, oki := true, true, true
	for i, e := range m.s {
		ok = nd.And(ok, v.At(i) == e)
		okd = nd.And(okd, d[i] == e)
		nd.Assert(it.IsValid(), "iteration ends early")
		oki = nd.And(oki, it.Value() == e)
		it.Next()
	}
	nd.Assert(ok, "At is wrong")
	nd.Assert(okd, "Data is wrong")
	nd.Assert(oki, "iteration is wrong")
	nd.Assert(!it.IsValid() && it.Equal(v.End()), "iteration does not end at End")
	if n > 0 {
		nd.Assert(v.Front() == m.s[0], "Front is wrong")
		nd.Assert(v.Back() == m.s[n-1], "Back is wrong")
		nd.Assert(v.Last().Value() == m.s[n-1], "Last is wrong")
	}
}

// erase is the specification of removing [p,q).
func (m *pair) erase(p, q int) {
	if p <= q && p >= 0 && q <= len(m.s) {
		p, q = nd.Conc(p), nd.Conc(q)
		m.s = append(append([]int(nil), m.s[:p]...), m.s[q:]...)
	}
}

func (m *pair) insert(p, e int) {
	if p >= 0 && p <= len(m.s) {
		m.s = x.Ins(m.s, nd.Conc(p), e)
	}
}

const ops = 13

// step performs one operation; op is concrete, positions are arbitrary.
func (m *pair) step(op int, pos func() int, val func() int) {
	v := m.v
	switch op {
	case 0:
		e := val()
		v.PushBack(e)
		m.s = append(append([]int(nil), m.s...), e)
	case 1:
		if len(m.s) > 0 {
			e := v.PopBack()
			nd.Assert(e == m.s[len(m.s)-1], "PopBack returns the wrong element")
			m.s = m.s[:len(m.s)-1]
		}
	case 2:
		p, e := pos(), val()
		v.InsertAt(p, e)
		m.insert(p, e)
	case 3:
		p, e := pos(), val()
		v.SetAt(p, e)
		if p >= 0 && p < len(m.s) {
			m.s = append([]int(nil), m.s...)
			m.s[nd.Conc(p)] = e
		}
	case 4:
		p := pos()
		v.EraseAt(p)
		if p >= 0 && p < len(m.s) {
			m.erase(p, p+1)
		}
	case 5:
		p, q := pos(), pos()
		v.EraseIndexRange(p, q)
		m.erase(p, q)
	case 6:
		p, e := pos(), val()
		r := v.Insert(v.IterAt(p), e)
		m.insert(p, e)
		nd.Assert(r.Equal(v.IterAt(p)) && r.Position() == p, "Insert returns the wrong iterator")
	case 7:
		p := pos()
		r := v.Erase(v.IterAt(p))
		if p >= 0 && p < len(m.s) {
			m.erase(p, p+1)
		}
		nd.Assert(r.Equal(v.IterAt(p)) && r.Position() == p, "Erase returns the wrong iterator")
	case 8:
		p, q := pos(), pos()
		r := v.EraseRange(v.IterAt(p), v.IterAt(q))
		m.erase(p, q)
		nd.Assert(r.Equal(v.IterAt(p)) && r.Position() == p, "EraseRange returns the wrong iterator")
	case 9:
		p := pos()
		if p >= 0 {
			v.Resize(p)
			if p < len(m.s) {
				m.s = m.s[:nd.Conc(p)]
			}
		}
	case 10:
		c := []int{-1, 0, 1, len(m.s), len(m.s) + 1, v.Capacity(), v.Capacity() + 1, 11}[nd.Choice(8)]
		v.Reserve(c)
		nd.Assert(v.Capacity() >= c, "Reserve leaves the capacity below the requested one")
	case 11:
		v.ShrinkToFit()
		nd.Assert(v.Capacity() == v.Size(), "ShrinkToFit leaves spare capacity")
	default:
		v.Clear()
		m.s = nil
	}
}

func fill(capacity, n int) *pair {
	m := &pair{v: vector.New[int](vector.WithCapacity(capacity)), next: 1000}
	for i := 0; i < n; i++ {
		m.step(0, nil, m.tag)
	}
	return m
}

// H_ops: every operation sequence from every small state, any positions.
func H_ops() {
	n := nd.ChoiceIn(0, nd.Param("n", 3, 4))
	m := fill([]int{0, 3, 8}[nd.Choice(3)], n)
	for k := nd.Param("k", 2, 3); k > 0; k-- {
		m.step(nd.Choice(ops), nd.Int, nd.Int)
		m.check()
	}
}

// H_history: concrete histories, then any operation at any position.
func H_history() {
	m := fill(0, 0)
	r := 12345 + 1000*nd.Choice(nd.Param("seeds", 6, 40))
	pos := func() int {
		r = (r*1103515245 + 12345) & 0x7fffffff
		return (r>>8)%(len(m.s)+3) - 1
	}
	for k := nd.Param("k", 40, 150); k > 0; k-- {
		r = (r*1103515245 + 12345) & 0x7fffffff
		op := (r >> 8) % 24
		if op >= 10 && op != 11 {
			op = []int{0, 2, 6}[op%3] // mostly growth
		}
		m.step(op, pos, m.tag)
		m.check()
	}
	m.step(nd.Choice(ops), nd.Int, nd.Int)
	m.check()
	m.step(0, nil, m.tag)
	m.check()
}

// H_large: one operation of any kind at any position of a large vector.
func H_large() {
	m := fill(0, nd.Param("n", 70, 300))
	op := nd.Choice(ops)
	pos := nd.Int
	if op == 5 || op == 8 {
		w := []int{0, 1, 2, 63, 64, 65, 70}
		first := true
		var p int
		pos = func() int {
			if first {
				first = false
				p = w[nd.Choice(len(w))]
				return p
			}
			return nd.Int()
		}
	}
	m.step(op, pos, nd.Int)
	m.check()
}

// H_flow: a vector that grows large and gets small again, in every way; one
// element is arbitrary, and it is read at any position.
func H_flow() {
	m := fill(0, 0)
	top := []int{9, 33, 70, 140, 300, 700, 1500, 4000}[nd.Choice(nd.Param("tops", 6, 8))]
	at := nd.Choice(4) * top / 4
	how, low := nd.Choice(5), nd.Choice(3)*top/8
	for i := 0; i < top; i++ {
		e := m.tag()
		if i == at {
			e = nd.Int()
		}
		m.v.PushBack(e)
		m.s = append(m.s, e)
	}
	m.check()
	for i := 0; len(m.s) > low; i++ {
		n := len(m.s)
		switch how {
		case 0:
			m.step(1, nil, nil)
		case 1: // at the front, in the middle, at the back
			m.step(4, func() int { return i % 3 * (n - 1) / 2 }, nil)
		case 2: // ranges
			p := []int{n / 4, n/4 + 1 + n/3}
			if n < 4 {
				p = []int{0, n}
			}
			m.step(5, func() int { q := p[0]; p = p[1:]; return q }, nil)
		case 3: // insertions in between
			m.step(1, nil, nil)
			m.step(1, nil, nil)
			if i%3 == 0 {
				m.step(2, func() int { return len(m.s) / 2 }, m.tag)
			}
		default: // all at once
			m.step(9, func() int { return low }, nil)
		}
		if i%101 == 0 {
			m.check()
		}
	}
	m.check()
	if n := len(m.s); n > 0 {
		q := nd.IntIn(0, n-1)
		nd.Assert(m.v.At(q) == m.s[q], "At is wrong after shrinking")
	}
	for i := 0; i < 3; i++ {
		m.step(2, func() int { return len(m.s) / 2 }, m.tag)
		m.step(0, nil, m.tag)
	}
	m.check()
}
