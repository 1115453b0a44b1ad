package c11

import (
	"github.com/liyue201/gostl/ds/list/bidlist"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type node = bidlist.Node[int]
type list = bidlist.List[int]

// rec is a node ever seen with the value it must carry.
type rec struct {
	n *node
	v int
}

// state is two lists, the node sequences they must hold and all nodes ever
// created (those removed or cleared away included).
type state struct {
	l   [2]*list
	s   [2][]rec
	all []rec
}

func newState() *state {
	pick, val = nd.Pick, nd.Int
	return &state{l: [2]*list{bidlist.New[int](), bidlist.New[int]()}}
}

// take records list i's nodes from position lo (walking) as having values vs.
func (t *state) grab(i, at int) *node {
	n := t.l[i].FrontNode()
	for ; at > 0 && n != nil; at-- {
		n = n.Next()
	}
	return n
}

func (t *state) check() {
	for i := range t.l {
		l, s := t.l[i], t.s[i]
		nd.Assert(l.Len() == len(s) && l.Size() == len(s), "Len is wrong")
		nd.Assert(l.Empty() == (len(s) == 0), "Empty is wrong")
		n, ok := l.FrontNode(), true
		for _, r := range s {
			nd.Assert(n != nil, "the forward walk ends early")
			nd.Assert(n == r.n, "the forward walk meets the wrong node")
			ok = nd.And(ok, n.Value == r.v)
			n = n.Next()
		}
		nd.Assert(n == nil, "the forward walk goes on")
		n = l.BackNode()
		for k := len(s) - 1; k >= 0; k-- {
			nd.Assert(n != nil, "the backward walk ends early")
			nd.Assert(n == s[k].n, "the backward walk meets the wrong node")
			n = n.Prev()
		}
		nd.Assert(n == nil, "the backward walk goes on")
		nd.Assert(ok, "a node holds the wrong value")
		if k := len(s); k > 0 {
			nd.Assert(l.Front() == s[0].v && l.Back() == s[k-1].v, "Front or Back is wrong")
		}
	}
}

func (t *state) pos(i int, n *node) int {
	for k, r := range t.s[i] {
		if r.n == n {
			return k
		}
	}
	return -1
}

func (t *state) put(i, at int, n *node, v int) {
	nd.Assert(n != nil, "an insertion yields no node")
	r := rec{n, v}
	t.s[i] = x.Ins(t.s[i], at, r)
	t.all = append(t.all, r)
}

// any is any node ever seen, in either list or none.
func (t *state) any() rec { return t.all[pick(len(t.all))] }

// pick and val supply the arguments of operations.
var pick, val = nd.Pick, nd.Int

const ops = 13

func (t *state) step(op int) {
	i := 0
	l := t.l[i]
	n := len(t.s[i])
	if op >= 7 && op <= 11 && len(t.all) == 0 {
		return
	}
	switch op {
	case 0:
		v := val()
		l.PushFront(v)
		t.put(i, 0, l.FrontNode(), v)
	case 1:
		v := val()
		l.PushBack(v)
		t.put(i, n, l.BackNode(), v)
	case 2:
		if n > 0 {
			nd.Assert(l.PopFront() == t.s[i][0].v, "PopFront returns the wrong value")
			t.s[i] = t.s[i][1:]
		}
	case 3:
		if n > 0 {
			nd.Assert(l.PopBack() == t.s[i][n-1].v, "PopBack returns the wrong value")
			t.s[i] = t.s[i][:n-1]
		}
	case 4:
		l.Clear()
		t.s[i] = nil
	case 5:
		j := pick(2)
		vs := t.s[j]
		l.PushBackList(t.l[j])
		for k, r := range vs {
			t.put(i, n+k, t.grab(i, n+k), r.v)
		}
	case 6:
		j := pick(2)
		vs := t.s[j]
		l.PushFrontList(t.l[j])
		for k, r := range vs {
			t.put(i, k, t.grab(i, k), r.v)
		}
	case 7, 8:
		m, v := t.any(), val()
		var r *node
		if op == 7 {
			r = l.InsertBefore(v, m.n)
		} else {
			r = l.InsertAfter(v, m.n)
		}
		p := t.pos(i, m.n)
		if p < 0 {
			nd.Assert(r == nil, "inserting at a node of no list or another list yields a node")
			return
		}
		t.put(i, p+op-7, r, v)
	case 9:
		m := t.any()
		nd.Assert(l.Remove(m.n) == m.v, "Remove returns the wrong value")
		if p := t.pos(i, m.n); p >= 0 {
			t.s[i] = x.Rem(t.s[i], p)
		}
	case 10, 11:
		m := t.any()
		if op == 10 {
			l.MoveToFront(m.n)
		} else {
			l.MoveToBack(m.n)
		}
		if p := t.pos(i, m.n); p >= 0 {
			t.s[i] = x.Rem(t.s[i], p)
			at := 0
			if op == 11 {
				at = len(t.s[i])
			}
			t.s[i] = x.Ins(t.s[i], at, m)
		}
	default:
		if len(t.all) == 0 {
			return
		}
		m, a := t.any(), t.any()
		l.MoveAfter(m.n, a.n)
		if p := t.pos(i, m.n); p >= 0 && m.n != a.n && t.pos(i, a.n) >= 0 {
			t.s[i] = x.Rem(t.s[i], p)
			t.s[i] = x.Ins(t.s[i], t.pos(i, a.n)+1, m)
		}
	}
}

// start builds lists of the given lengths, plus one node removed earlier and
// one cleared away earlier when stale.
func start(a, b int, stale bool) *state {
	t := newState()
	if stale {
		t.l[0].PushBack(1)
		t.l[0].PushBack(2)
		r := rec{t.l[0].BackNode(), 2}
		t.l[0].Remove(r.n)
		t.all = append(t.all, rec{t.l[0].FrontNode(), 1}, r)
		t.l[0].Clear()
	}
	for i, n := range []int{a, b} {
		for ; n > 0; n-- {
			v := nd.Int()
			t.l[i].PushBack(v)
			t.put(i, len(t.s[i]), t.l[i].BackNode(), v)
		}
	}
	return t
}

// H_ops: every sequence of operations on one of two lists.
func H_ops() {
	t := start(nd.ChoiceIn(0, nd.Param("a", 3, 4)), nd.Choice(3), nd.Choice(2) == 1)
	t.check()
	for k := nd.Param("k", 2, 2); k > 0; k-- {
		t.step(nd.Pick(ops))
		t.check()
	}
}

// H_deep: longer sequences on short lists.
func H_deep() {
	t := start(nd.ChoiceIn(0, nd.Param("a", 1, 2)), nd.Choice(2), false)
	for k := nd.Param("k", 3, 3); k > 0; k-- {
		t.step(nd.Pick(ops))
		t.check()
	}
}

// H_longlist: one move, insertion or removal in a long list at any node.
func H_longlist() {
	t := start(nd.Param("n", 24, 60), 2, true)
	t.step(nd.Pick(ops))
	t.check()
	t.step(nd.Choice(2))
	t.check()
}

// H_huge: long histories on lists of hundreds of nodes; one value and the last operations' places are arbitrary.
func H_huge() {
	t := start(0, 2, true)
	r := x.Rand{S: 3 + 100*nd.Choice(nd.Param("seeds", 4, 20))}
	v := 0
	pick, val = r.N, func() int { v++; return v }
	top := []int{150, 700}[nd.Choice(2)]
	for i := 0; i < top; i++ {
		if i == top/2 {
			t.l[0].PushFront(nd.Int())
			t.put(0, 0, t.l[0].FrontNode(), t.l[0].FrontNode().Value)
		}
		t.step([]int{0, 1, 7, 8}[r.N(4)])
	}
	t.check()
	for k := nd.Param("k", 800, 3000); k > 0; k-- {
		op := []int{0, 1, 2, 3, 7, 8, 9, 9, 10, 11, 12, 12}[r.N(12)]
		t.step(op)
		if k%50 == 0 {
			t.check()
		}
	}
	t.step(5 + r.N(2)) // a whole list
	t.check()
	for len(t.s[0]) > 3 {
		t.step([]int{2, 3, 9, 12}[r.N(4)])
	}
	t.check()
	pick, val = nd.Pick, nd.Int
	t.step(nd.Choice(4))
	t.check()
}
