package c16

import (
	"github.com/liyue201/gostl/ds/rbtree"

	"verif.local/h/nd"
	"verif.local/h/x"
)

type state struct {
	t     *rbtree.RbTree[int, int]
	calls int
	n     int
}

func newState() *state {
	m := &state{}
	m.t = rbtree.New[int, int](func(a, b int) int { m.calls++; return a - b })
	return m
}

func (m *state) insert(k int) { m.t.Insert(k, 0); m.n++ }

func (m *state) del(i int) {
	n := m.t.First()
	for ; i > 0; i-- {
		n = n.Next()
	}
	m.t.Delete(n)
	m.n--
}

func (m *state) valid() {
	ok, err := m.t.IsRbTree()
	nd.Assert(ok && err == nil, "the self-check rejects the tree")
}

// bound is a generous constant times log2(n+1).
func (m *state) bound() int {
	l := 0
	for v := m.n + 1; v > 1; v = (v + 1) / 2 {
		l++
	}
	return 6*l + 6
}

// cheap: every kind of lookup compares few keys.
func (m *state) cheap(q int) {
	b := m.bound()
	for i := 0; i < 4; i++ {
		m.calls = 0
		switch i {
		case 0:
			m.t.FindNode(q)
		case 1:
			m.t.FindLowerBoundNode(q)
		case 2:
			m.t.FindUpperBoundNode(q)
		default:
			m.t.Find(q)
		}
		nd.Assert(m.calls <= b, "a lookup compares more keys than a constant times log2(n+1)")
	}
}

// H_ops: any insertions and deletions from the empty tree.
func H_ops() {
	m := newState()
	for k := nd.Param("k", 6, 7); k > 0; k-- {
		if m.n > 0 && nd.Choice(2) == 1 {
			m.del(nd.Pick(m.n))
		} else {
			m.insert(x.Key())
		}
		m.valid()
	}
}

// H_shapes: every insertion order, then deletions anywhere.
func H_shapes() {
	m := newState()
	for i := nd.Param("n", 7, 8); i > 0; i-- {
		m.insert(x.Key())
	}
	m.valid()
	for i := nd.Param("d", 1, 2); i > 0; i-- {
		m.del(nd.Pick(m.n))
		m.valid()
	}
}

func (m *state) fill(n, pattern int) {
	for _, e := range x.Pattern(pattern, n) {
		m.insert(e.K)
	}
	m.valid()
}

// H_big: any two operations on a larger tree of any pattern.
func H_big() {
	m := newState()
	m.fill(nd.Param("n", 31, 80), nd.Choice(x.Patterns))
	for i := 0; i < 2; i++ {
		if nd.Choice(2) == 1 {
			m.del(nd.Pick(m.n))
		} else {
			m.insert(int(nd.Uint8()))
		}
		m.valid()
	}
}

// H_lookup: the cost of looking any key up in a large tree.
func H_lookup() {
	m := newState()
	n := nd.Param("n", 300, 2000)
	p := nd.Choice(x.Patterns)
	m.fill(n, p)
	switch nd.Choice(4) {
	case 1: // keep one end
		for m.n > n/3 {
			m.t.Delete(m.t.First())
			m.n--
		}
	case 2:
		for m.n > n/3 {
			m.t.Delete(m.t.Last())
			m.n--
		}
	case 3: // thin out
		for i := 0; i < m.n-1; i++ {
			m.del(i)
		}
	}
	m.valid()
	m.cheap(nd.Int() & 0xfff)
}

// H_churn: long mixed histories.
func H_churn() {
	m := newState()
	r := x.Rand{S: 5 + 1000*nd.Choice(nd.Param("seeds", 8, 40))}
	span := []int{20, 400}[nd.Choice(2)]
	for k := nd.Param("k", 300, 1500); k > 0; k-- {
		if m.n > 0 && r.N(20) < 9 {
			m.del(r.N(m.n))
		} else {
			m.insert(r.N(span))
		}
		if k%7 == 0 {
			m.valid()
		}
	}
	m.insert(int(nd.Uint8()))
	m.valid()
	for m.n > 0 {
		m.del(r.N(m.n))
		if m.n%5 == 0 {
			m.valid()
		}
	}
}

// H_path: a tree is grown and cut back to one search path, over and over; what is left must stay balanced.
func H_path() {
	var log []int
	m := &state{}
	m.t = rbtree.New[int, int](func(a, b int) int {
		m.calls++
		log = append(log, a, b)
		return a - b
	})
	r := x.Rand{S: 11 + 100*nd.Choice(nd.Param("seeds", 2, 6))}
	side := nd.Choice(3)  // the path is kept at the low end, the high end, or at random
	order := nd.Choice(3) // the rest is deleted ascending, descending or at random
	lo, hi := 1000000, 1000000
	many := nd.Choice(2) == 1
	rounds, k := 1, nd.Param("n", 12000, 70000)
	if many {
		rounds, k = nd.Param("rounds", 8, 20), nd.Param("m", 60, 150)
	}
	for ; rounds > 0; rounds-- {
		for i := 0; i < k; i++ {
			switch {
			case side == 0:
				lo--
				m.insert(lo)
			case side == 1:
				hi++
				m.insert(hi)
			default:
				m.insert(1000000 + r.N(100000))
			}
		}
		q := m.t.First().Key()
		if side == 1 {
			q = m.t.Last().Key()
		} else if side == 2 {
			n := m.t.First()
			for i := r.N(m.n); i > 0; i-- {
				n = n.Next()
			}
			q = n.Key()
		}
		log = nil
		m.t.FindNode(q)
		keep := map[int]bool{}
		for _, k := range log {
			keep[k] = true
		}
		var rest []*rbtree.Node[int, int]
		for n := m.t.First(); n != nil; n = n.Next() {
			if !keep[n.Key()] {
				rest = append(rest, n)
			}
		}
		for i := range rest {
			if order == 1 {
				i = len(rest) - 1 - i
			} else if order == 2 {
				j := i + r.N(len(rest)-i)
				rest[i], rest[j] = rest[j], rest[i]
			}
			m.t.Delete(rest[i])
			m.n--
		}
		m.valid()
		m.cheap(q)
	}
	m.cheap(nd.Int())
}
