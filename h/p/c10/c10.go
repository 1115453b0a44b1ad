package c10

import (
	"strconv"

	"github.com/liyue201/gostl/ds/deque"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// pair is a deque with the sequence it must equal.
type pair struct {
	d    *deque.Deque[int]
	s    []int
	next int
}

func (m *pair) tag() int {
	m.next++
	return m.next
}

func (m *pair) check() {
	d, n := m.d, len(m.s)
	nd.Assert(d.Size() == n, "Size is wrong")
	nd.Assert(d.Empty() == (n == 0), "Empty is wrong")
	ok := true
	for i, e := range m.s {
		ok = nd.And(ok, d.At(i) == e)
	}
	nd.Assert(ok, "At is wrong")
	if n > 0 {
		nd.Assert(d.Front() == m.s[0], "Front is wrong")
		nd.Assert(d.Back() == m.s[n-1], "Back is wrong")
	}
}

func (m *pair) checkIter() {
	d, n := m.d, len(m.s)
	it, ok := d.Begin(), true
	for _, e := range m.s {
		nd.Assert(it.IsValid(), "iteration ends early")
		ok = nd.And(ok, it.Value() == e)
		it.Next()
	}
	nd.Assert(!it.IsValid() && it.Equal(d.End()), "iteration does not end at End")
	it = d.Last()
	for i := n - 1; i >= 0; i-- {
		nd.Assert(it.IsValid(), "reverse iteration ends early")
		ok = nd.And(ok, it.Value() == m.s[i])
		it.Prev()
	}
	nd.Assert(!it.IsValid(), "reverse iteration does not end")
	nd.Assert(ok, "iteration is wrong")
}

func (m *pair) pushBack(e int)  { m.d.PushBack(e); m.s = append(append([]int(nil), m.s...), e) }
func (m *pair) pushFront(e int) { m.d.PushFront(e); m.s = x.Ins(m.s, 0, e) }
func (m *pair) popBack() {
	nd.Assert(m.d.PopBack() == m.s[len(m.s)-1], "PopBack returns the wrong element")
	m.s = m.s[:len(m.s)-1]
}
func (m *pair) popFront() {
	nd.Assert(m.d.PopFront() == m.s[0], "PopFront returns the wrong element")
	m.s = m.s[1:]
}

func (m *pair) erase(p, q int) {
	if p >= 0 && p < q && q <= len(m.s) {
		p, q = nd.Conc(p), nd.Conc(q)
		m.s = append(append([]int(nil), m.s[:p]...), m.s[q:]...)
	}
}

const ops = 9

func (m *pair) step(op int, pos, val func() int) {
	d := m.d
	switch op {
	case 0:
		m.pushBack(val())
	case 1:
		m.pushFront(val())
	case 2:
		if len(m.s) > 0 {
			m.popBack()
		}
	case 3:
		if len(m.s) > 0 {
			m.popFront()
		}
	case 4:
		p, e := pos(), val()
		d.Insert(p, e)
		if p >= 0 && p <= len(m.s) {
			m.s = x.Ins(m.s, nd.Conc(p), e)
		}
	case 5:
		p := pos()
		d.EraseAt(p)
		if p >= 0 && p < len(m.s) {
			m.erase(p, p+1)
		}
	case 6:
		p, q := pos(), pos()
		d.EraseRange(p, q)
		m.erase(p, q)
	case 7:
		p, e := pos(), val()
		err := d.Set(p, e)
		if p >= 0 && p < len(m.s) {
			nd.Assert(err == nil, "Set within range reports an error")
			m.s = append([]int(nil), m.s...)
			m.s[nd.Conc(p)] = e
		} else {
			nd.Assert(err != nil, "Set out of range reports no error")
		}
	default:
		d.Clear()
		m.s = nil
	}
}

func fresh() *pair { return &pair{d: deque.New[int](), next: 1000} }

func (m *pair) back(n int) *pair {
	for ; n > 0; n-- {
		e := m.tag()
		m.d.PushBack(e)
		m.s = append(m.s, e)
	}
	return m
}

func (m *pair) front(n int) *pair {
	var f []int
	for ; n > 0; n-- {
		e := m.tag()
		m.d.PushFront(e)
		f = append(f, e)
	}
	for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
		f[i], f[j] = f[j], f[i]
	}
	m.s = append(f, m.s...)
	return m
}

func (m *pair) cut(front, back int) *pair {
	for ; front > 0; front-- {
		m.popFront()
	}
	for ; back > 0; back-- {
		m.popBack()
	}
	return m
}

// shapes are prefilled states over several 128-element blocks.
func shape(i int) *pair {
	m := fresh()
	switch i {
	case 0:
		m.back(128)
	case 1:
		m.front(128)
	case 2:
		m.back(129)
	case 3: // front block holds one element
		m.front(129)
	case 4: // 1 | 128 | 1
		m.back(128).front(1).back(1)
	case 5: // 2 | 1 after shrinking
		m.back(256).cut(126, 127)
	case 6: // partial | full | full | partial, wrapped around the block ring
		m.back(200).front(170).cut(30, 5)
	case 7: // block ring rotated by queue-like use
		m.back(300)
		for j := 0; j < 220; j++ {
			m.back(1).cut(1, 0)
		}
	case 8: // recycled blocks
		m.back(500).cut(0, 380).back(200).cut(100, 0)
	case 9: // emptied and refilled from the other side
		m.back(260).cut(260, 0).front(140)
	case 10: // rings inside blocks rotated, front and back full
		m.front(90).back(166)
		for j := 0; j < 60; j++ {
			m.front(1).cut(0, 1)
		}
	case 11: // full | full | full
		m.back(384)
	case 12: // grown by the front only, over the ring boundary
		m.front(300).back(30)
	case 13: // shrunk far below the block ring's size
		m.back(900).cut(500, 300)
	case 14: // last block holds one element
		m.back(257).cut(60, 0)
	default: // emptied completely after spanning blocks
		m.back(300).cut(150, 150)
	}
	return m
}

const shapes = 16

// H_small: every operation sequence from every small state, any positions.
func H_small() {
	n := nd.ChoiceIn(0, nd.Param("n", 3, 5))
	f := nd.Choice(n + 1)
	m := fresh().front(f).back(n - f)
	for k := nd.Param("k", 2, 3); k > 0; k-- {
		m.step(nd.Choice(ops), m.any, nd.Int)
		m.check()
	}
	m.checkIter()
}

// H_position: one operation at any 64-bit position of a large deque, then
// both ends are used.
func H_position() {
	m := shape(nd.Choice(shapes))
	m.step([]int{4, 5, 7}[nd.Choice(3)], m.any, nd.Int)
	m.check()
	m.checkIter()
	m.pushFront(m.tag())
	m.pushBack(m.tag())
	m.check()
}

// any is any 64-bit position, split by value only where it is in or next to
// the deque.
func (m *pair) any() int {
	p := nd.Int()
	if nd.And(p >= -1, p <= len(m.s)+1) {
		p = nd.Conc(p)
	}
	return p
}

// near is an arbitrary position among the interesting ones.
func (m *pair) near() int {
	n := len(m.s)
	w := []int{0, 1, n / 2, n - 1, n, 63, 127, 128, 129}
	return w[nd.Choice(len(w))]
}

func (m *pair) edge() int {
	n := len(m.s)
	w := []int{0, 1, n / 2, n - 1}
	return w[nd.Choice(len(w))]
}

// H_range: EraseRange with any bounds, one of them near a boundary.
func H_range() {
	m := shape(nd.Choice(shapes))
	p, q := m.near(), 0
	if w := nd.Param("w", 4, 60); nd.Choice(2) == 0 {
		q = p - w + nd.Conc(nd.IntIn(0, 2*w))
	} else {
		q = nd.Int()
		nd.Assume(q >= len(m.s)-w)
		if q <= len(m.s)+1 {
			q = nd.Conc(q)
		}
	}
	if nd.Choice(2) == 0 {
		p, q = q, p
	}
	m.d.EraseRange(p, q)
	m.erase(p, q)
	m.check()
	m.pushFront(m.tag())
	m.pushBack(m.tag())
	m.check()
}

// H_mix: operation sequences near the block boundaries of every shape.
func H_mix() {
	m := shape(nd.Choice(shapes))
	m.step(nd.Choice(ops), m.near, nd.Int)
	m.check()
	for k := nd.Param("k", 1, 2); k > 0; k-- {
		m.step(nd.Choice(ops), m.edge, nd.Int)
		m.check()
	}
	m.checkIter()
}

// H_history: long concrete histories around growing and shrinking sizes, then
// any operation.
func H_history() {
	m := fresh()
	r := 7 + 1000*nd.Choice(nd.Param("seeds", 8, 60))
	rnd := func(n int) int {
		r = (r*1103515245 + 12345) & 0x7fffffff
		return (r >> 8) % n
	}
	pos := func() int { return rnd(len(m.s)+3) - 1 }
	grow := true
	for k := nd.Param("k", 160, 500); k > 0; k-- {
		if len(m.s) > 420 {
			grow = false
		} else if len(m.s) < 20 {
			grow = true
		}
		switch w := rnd(10); {
		case w < 3 && grow:
			m.back(1 + rnd(40))
		case w < 6 && grow:
			m.front(1 + rnd(40))
		case w < 3:
			m.cut(min(len(m.s), rnd(40)), 0)
		case w < 6:
			m.cut(0, min(len(m.s), rnd(40)))
		default:
			m.step([]int{4, 5, 6, 7, 4, 5}[rnd(6)], pos, m.tag)
			m.check()
		}
	}
	m.check()
	m.checkIter()
	m.step(nd.Choice(ops), m.near, nd.Int)
	m.check()
}

// H_string: the printed form.
func H_string() {
	m := fresh().back(nd.Choice(3)).front(nd.Choice(3))
	if nd.Choice(2) == 1 {
		m = shape(3)
	}
	w := "["
	for i, e := range m.s {
		if i > 0 {
			w += " "
		}
		w += strconv.Itoa(e)
	}
	nd.Assert(m.d.String() == w+"]", "String is wrong")
}

// H_huge: deques of thousands of elements: filled and emptied at any ends, edited on the way; one element
// is arbitrary, and any position at the ends, in the middle or around block boundaries is read and written.
func H_huge() {
	m := fresh()
	top := []int{1500, 5000, 20000}[nd.Choice(nd.Param("tops", 2, 3))]
	fill, drain := nd.Choice(3), nd.Choice(4)
	at := nd.Choice(3) * (top - 1) / 2
	r := x.Rand{S: 5}
	lo := make([]int, top) // lo[nlo-1] ... lo[0] s...
	nlo := 0
	for i := 0; i < top; i++ {
		e := m.tag()
		if i == at {
			e = nd.Int()
		}
		if fill == 1 || fill == 2 && r.N(3) == 0 {
			m.d.PushFront(e)
			lo[nlo] = e
			nlo++
		} else {
			m.d.PushBack(e)
			m.s = append(m.s, e)
		}
	}
	all := make([]int, 0, top)
	for i := nlo - 1; i >= 0; i-- {
		all = append(all, lo[i])
	}
	m.s = append(all, m.s...)
	m.check()
	for i := 0; i < 6; i++ {
		m.step(4+i%4, func() int { return r.N(len(m.s)) }, m.tag)
		if i%4 == 2 && len(m.s) < top/2 { // put elements back in the middle
			for j := 0; j < 5; j++ {
				m.step(4, func() int { return len(m.s) / 2 }, m.tag)
			}
		}
	}
	m.check()
	p := []int{0, 127, 128, 129, len(m.s) / 2, len(m.s) - 129, len(m.s) - 2}[nd.Choice(7)] + nd.IntIn(-1, 1)
	if p >= 0 && p < len(m.s) {
		nd.Assert(m.d.At(p) == m.s[nd.Conc(p)], "At is wrong")
		m.step(7, func() int { return p }, nd.Int)
	}
	for i := 0; len(m.s) > 5; i++ {
		switch {
		case drain == 0 || drain == 2 && i%2 == 0:
			m.popFront()
		case drain == 3 && i%64 == 0 && len(m.s) > 400:
			m.step(6, func() int { return len(m.s)/3 + nd.Conc(i)%2*150 }, nil)
			m.popFront()
		default:
			m.popBack()
		}
		if i%997 == 0 {
			m.check()
			m.checkIter()
		}
	}
	m.check()
	m.back(300)
	m.front(300)
	m.check()
}

// H_seq: every sequence of calls at the ends and inside of deques of several shapes, single positions read on the way, everything at the end.
func H_seq() {
	sh := []int{-1, -2, 4, 5, 7, 10, 14}[nd.Choice(7)]
	m := fresh()
	switch sh {
	case -1:
	case -2:
		m.back(3).front(2)
	default:
		m = shape(sh)
	}
	calls := 13
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		c := nd.Choice(calls)
		n := len(m.s)
		switch c {
		case 4: // at a third, in the front half
			m.step(4, func() int { return n / 3 }, m.tag)
		case 5:
			m.step(4, func() int { return n - n/3 }, m.tag)
		case 6:
			m.step(5, func() int { return n / 3 }, m.tag)
		case 7:
			m.step(5, func() int { return n - n/3 - 1 }, m.tag)
		case 8: // a range in the middle
			m.d.EraseRange(n/3, n-n/4)
			m.erase(n/3, n-n/4)
		case 9:
			m.step(8, nil, nil)
		case 10:
			if n > 0 {
				nd.Assert(m.d.At(n/2) == m.s[n/2] && m.d.Front() == m.s[0] && m.d.Back() == m.s[n-1], "a read is wrong")
			}
		case 11:
			m.step(7, func() int { return n / 2 }, m.tag)
		case 12:
			if n > 130 { // take a whole block's worth away
				m.d.EraseRange(0, 129)
				m.erase(0, 129)
			}
		default:
			m.step(c, nil, m.tag)
		}
	}
	m.check()
	m.checkIter()
}

// H_wide: one insertion or removal next to any block boundary of deques over
// many blocks, with the outer blocks filled to any of several degrees; then
// both ends are used.
func H_wide() {
	ends := []int{1, 2, 64, 127, 128}
	f, b := ends[nd.Choice(5)], ends[nd.Choice(5)]
	full := 2 + nd.Choice(nd.Param("blocks", 4, 9))
	m := fresh()
	switch nd.Choice(3) {
	case 0:
		m.back(128*full + b).front(f)
	case 1: // grown by the front
		m.front(f + 128*full).back(b)
	default: // what a queue leaves behind: block ring and outer blocks rotated
		m.back(128*(full+2) + b).cut(256-f, 0)
	}
	p := f + 128*nd.Choice(full+1) - 2 + nd.Conc(nd.IntIn(0, 4))
	at := func() int { return p }
	switch op := nd.Choice(5); op {
	case 0:
		m.step(4, at, nd.Int)
	case 1:
		m.step(5, at, nil)
	case 2: // two insertions
		m.step(4, at, m.tag)
		m.step(4, at, m.tag)
	default:
		q := p + []int{2, 130}[op-3]
		m.d.EraseRange(p, q)
		m.erase(p, q)
	}
	m.check()
	m.pushFront(m.tag())
	m.pushBack(m.tag())
	m.popFront()
	m.popBack()
	m.popBack()
	m.check()
}
