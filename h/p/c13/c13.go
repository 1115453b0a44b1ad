package c13

import (
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// box is a container supplied by the user.
type box struct{ s []int }

func (b *box) PushBack(v int)  { b.s = append(append([]int(nil), b.s...), v) }
func (b *box) PushFront(v int) { b.s = x.Ins(b.s, 0, v) }
func (b *box) Front() int      { return b.s[0] }
func (b *box) Back() int       { return b.s[len(b.s)-1] }
func (b *box) PopFront() int   { v := b.s[0]; b.s = b.s[1:]; return v }
func (b *box) PopBack() int    { v := b.s[len(b.s)-1]; b.s = b.s[:len(b.s)-1]; return v }
func (b *box) Empty() bool     { return len(b.s) == 0 }
func (b *box) Size() int       { return len(b.s) }
func (b *box) String() string  { return "" }
func (b *box) Clear()          { b.s = nil }

const kinds = 7

func mkStack(kind int) *stack.Stack[int] {
	safe := stack.WithGoroutineSafe[int]()
	switch kind {
	case 0:
		return stack.New[int]()
	case 1:
		return stack.New[int](safe)
	case 2:
		return stack.New[int](stack.WithListContainer[int]())
	case 3:
		return stack.New[int](safe, stack.WithListContainer[int]())
	case 4:
		return stack.New[int](stack.WithContainer[int](&box{}), safe)
	case 5:
		return stack.New[int](stack.WithContainer[int](deque.New[int]()))
	}
	return stack.New[int](stack.WithContainer[int](bidlist.New[int]()), safe)
}

func mkQueue(kind int) *queue.Queue[int] {
	safe := queue.WithGoroutineSafe[int]()
	switch kind {
	case 0:
		return queue.New[int]()
	case 1:
		return queue.New[int](safe)
	case 2:
		return queue.New[int](queue.WithListContainer[int]())
	case 3:
		return queue.New[int](safe, queue.WithListContainer[int]())
	case 4:
		return queue.New[int](queue.WithContainer[int](&box{}), safe)
	case 5:
		return queue.New[int](queue.WithContainer[int](deque.New[int]()))
	}
	return queue.New[int](queue.WithContainer[int](bidlist.New[int]()), safe)
}

// pair is a stack (or queue) with the sequence it must hold.
type pair struct {
	st *stack.Stack[int]
	qu *queue.Queue[int]
	s  []int
}

func mk(isQueue bool, kind int) *pair {
	if isQueue {
		return &pair{qu: mkQueue(kind)}
	}
	return &pair{st: mkStack(kind)}
}

func (p *pair) push(v int) {
	if p.qu != nil {
		p.qu.Push(v)
	} else {
		p.st.Push(v)
	}
	p.s = append(p.s[:len(p.s):len(p.s)], v)
}

func (p *pair) pop() {
	n := len(p.s)
	if p.qu != nil {
		nd.Assert(p.qu.Pop() == p.s[0], "the queue is not first in, first out")
		p.s = p.s[1:]
	} else {
		nd.Assert(p.st.Pop() == p.s[n-1], "the stack is not last in, first out")
		p.s = p.s[:n-1]
	}
}

func (p *pair) clear() {
	if p.qu != nil {
		p.qu.Clear()
	} else {
		p.st.Clear()
	}
	p.s = nil
}

func (p *pair) check() {
	n := len(p.s)
	if p.qu != nil {
		nd.Assert(p.qu.Size() == n, "Size is wrong")
		nd.Assert(p.qu.Empty() == (n == 0), "Empty is wrong")
		if n > 0 {
			nd.Assert(p.qu.Front() == p.s[0], "Front is wrong")
			nd.Assert(p.qu.Back() == p.s[n-1], "Back is wrong")
		}
		return
	}
	nd.Assert(p.st.Size() == n, "Size is wrong")
	nd.Assert(p.st.Empty() == (n == 0), "Empty is wrong")
	if n > 0 {
		nd.Assert(p.st.Top() == p.s[n-1], "Top is wrong")
	}
}

func (p *pair) step(op int) {
	switch op {
	case 0:
		p.push(nd.Int())
	case 1:
		if len(p.s) > 0 {
			p.pop()
		}
	default:
		p.clear()
	}
	p.check()
}

func (p *pair) drain() {
	for len(p.s) > 0 {
		p.pop()
		p.check()
	}
}

// H_ops: every operation sequence from the empty state, every container.
func H_ops() {
	p := mk(nd.Choice(2) == 1, nd.Choice(kinds))
	p.check()
	for k := nd.Param("k", 5, 8); k > 0; k-- {
		p.step(nd.Pick(3))
	}
	p.drain()
}

// H_long: any number of elements around the block boundaries, then any
// operations, then everything is taken out.
func H_long() {
	p := mk(nd.Choice(2) == 1, nd.Choice(kinds))
	fill := []int{126, 255, 384}[nd.Choice(nd.Param("fills", 2, 3))] + nd.Pick(4)
	for i := 0; i < fill; i++ {
		p.push(1000 + i)
	}
	p.check()
	out := []int{0, 1, 126, 127, 128, 129}[nd.Choice(6)]
	for i := 0; i < out && len(p.s) > 0; i++ {
		p.pop()
	}
	p.check()
	for k := nd.Param("k", 2, 4); k > 0; k-- {
		p.step(nd.Pick(3))
	}
	p.drain()
	p.push(nd.Int())
	p.check()
}

// H_flow: a long-lived queue or stack whose size keeps moving.
func H_flow() {
	p := mk(nd.Choice(2) == 1, nd.Choice(kinds))
	base := 100 * nd.Choice(nd.Param("bases", 3, 5))
	for i := 0; i < base; i++ {
		p.push(i)
	}
	wave := []int{1, 3, 130}[nd.Choice(3)]
	next := base
	for r := 0; r < nd.Param("rounds", 600, 2500); r += wave {
		for i := 0; i < wave; i++ {
			p.push(next)
			next++
		}
		for i := 0; i < wave; i++ {
			p.pop()
		}
	}
	p.check()
	p.step(nd.Pick(3))
	p.drain()
}

// H_huge: thousands of elements go through; one of them is arbitrary.
func H_huge() {
	p := mk(nd.Choice(2) == 1, nd.Choice(kinds))
	top := []int{1500, 6000}[nd.Choice(nd.Param("tops", 1, 2))]
	at := nd.Choice(3) * (top - 1) / 2
	for round := 0; round < 2; round++ {
		for i := 0; i < top; i++ {
			if i == at {
				p.push(nd.Int())
			} else {
				p.push(i)
			}
			if i%7 == 3 {
				p.pop()
			}
		}
		p.check()
		p.drain()
	}
	p.push(nd.Int())
	p.check()
}
