package c12

import (
	"github.com/liyue201/gostl/ds/list/simplelist"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type node = simplelist.Node[int]

type rec struct {
	n *node
	v int
}

type state struct {
	l *simplelist.List[int]
	s []rec
}

func (t *state) check() {
	l := t.l
	nd.Assert(l.Len() == len(t.s), "Len is wrong")
	n, ok := l.FrontNode(), true
	for _, r := range t.s {
		nd.Assert(n != nil, "the walk ends early")
		nd.Assert(n == r.n, "the walk meets the wrong node")
		ok = nd.And(ok, n.Value == r.v)
		n = n.Next()
	}
	nd.Assert(n == nil, "the walk goes on")
	nd.Assert(ok, "a node holds the wrong value")
	if k := len(t.s); k > 0 {
		nd.Assert(l.BackNode() == t.s[k-1].n, "BackNode is not the last node")
	} else {
		nd.Assert(l.BackNode() == nil && l.FrontNode() == nil, "an empty list has a node")
	}
}

func (t *state) pre(p int) *node {
	if p == 0 {
		return nil
	}
	return t.s[p-1].n
}

// pick and val supply the arguments of operations.
var pick, val = nd.Pick, nd.Int

const ops = 6

func (t *state) step(op int) {
	l, n := t.l, len(t.s)
	if op >= 2 && n == 0 {
		return
	}
	switch op {
	case 0:
		v := val()
		l.PushFront(v)
		nd.Assert(l.FrontNode() != nil, "no front after PushFront")
		t.s = x.Ins(t.s, 0, rec{l.FrontNode(), v})
	case 1:
		v := val()
		l.PushBack(v)
		nd.Assert(l.BackNode() != nil, "no back after PushBack")
		t.s = x.Ins(t.s, n, rec{l.BackNode(), v})
	case 2:
		p, v := pick(n), val()
		r := l.InsertAfter(v, t.s[p].n)
		t.s = x.Ins(t.s, p+1, rec{r, v})
	case 3:
		p := pick(n)
		nd.Assert(l.Remove(t.pre(p), t.s[p].n) == t.s[p].v, "Remove returns the wrong value")
		t.s = x.Rem(t.s, p)
	case 4:
		p := pick(n)
		m := t.s[p]
		l.MoveToFront(t.pre(p), m.n)
		t.s = x.Ins(x.Rem(t.s, p), 0, m)
	default:
		p := pick(n)
		m := t.s[p]
		l.MoveToBack(t.pre(p), m.n)
		t.s = x.Ins(x.Rem(t.s, p), n-1, m)
	}
}

func start(n int) *state {
	pick, val = nd.Pick, nd.Int
	t := &state{l: simplelist.New[int]()}
	for ; n > 0; n-- {
		t.step(1)
	}
	return t
}

// H_ops: every sequence of operations from every short list.
func H_ops() {
	t := start(nd.ChoiceIn(0, nd.Param("n", 3, 4)))
	t.check()
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		t.step(nd.Pick(ops))
		t.check()
	}
}

// H_deep: longer sequences from the empty list.
func H_deep() {
	t := start(0)
	for k := nd.Param("k", 5, 6); k > 0; k-- {
		t.step(nd.Pick(ops))
		t.check()
	}
}

// H_longlist: two operations anywhere in a long list.
func H_longlist() {
	t := start(nd.Param("n", 20, 50))
	t.step(nd.Pick(ops))
	t.check()
	t.step(nd.Pick(ops))
	t.check()
	t.step(1)
	t.check()
}

// H_huge: long histories on lists of hundreds of nodes.
func H_huge() {
	t := start(0)
	r := x.Rand{S: 3 + 100*nd.Choice(nd.Param("seeds", 4, 20))}
	v := 0
	pick, val = r.N, func() int { v++; return v }
	top := []int{150, 700}[nd.Choice(2)]
	for i := 0; i < top; i++ {
		t.step(r.N(3))
	}
	t.check()
	for k := nd.Param("k", 800, 3000); k > 0; k-- {
		t.step([]int{0, 1, 2, 3, 3, 3, 4, 5}[r.N(8)])
		if k%50 == 0 {
			t.check()
		}
	}
	for len(t.s) > 2 {
		t.step(3 + r.N(3))
	}
	t.check()
	pick, val = nd.Pick, nd.Int
	t.step(nd.Pick(ops))
	t.check()
}
