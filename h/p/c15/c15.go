package c15

import (
	"github.com/liyue201/gostl/ds/rbtree"

	"verif.local/h/nd"
	"verif.local/h/x"
)

// state is a tree from int keys to identities with the entries it must hold.
type state struct {
	t   *rbtree.RbTree[int, int]
	s   []x.E
	cmp func(a, b int) int
	id  int
}

func newState(order int) *state {
	cmp := x.IntOrder(order)
	return &state{t: rbtree.New[int, int](cmp), cmp: cmp}
}

// limit exceeds the number of entries there can be.
func (m *state) limit() int { return m.id + 200 }

// walk reads the tree forward and backward, by nodes and by iterators.
func (m *state) walk() []x.E {
	var s []x.E
	n := m.t.First()
	nd.Assert(m.t.Begin() == n, "Begin is not First")
	it := m.t.IterFirst()
	for ; n != nil; n = n.Next() {
		nd.Assert(len(s) <= m.limit(), "iteration does not end")
		s = append(s, x.E{n.Key(), n.Value()})
		nd.Assert(it.IsValid() && it.Value() == n.Value() && it.Key() == n.Key(), "iterator and node walk differ")
		it.Next()
	}
	nd.Assert(!it.IsValid(), "the iterator goes on after the last node")
	k := len(s) - 1
	nd.Assert(m.t.RBegin() == m.t.Last(), "RBegin is not Last")
	it = m.t.IterLast()
	for n = m.t.Last(); n != nil; n = n.Prev() {
		nd.Assert(k >= 0 && s[k].ID == n.Value() && s[k].K == n.Key(), "the backward walk is not the forward one reversed")
		nd.Assert(it.IsValid() && it.Value() == n.Value(), "iterator and node walk differ")
		it.Prev()
		k--
	}
	nd.Assert(k == -1, "the backward walk ends early")
	nd.Assert(!it.IsValid(), "the iterator goes on before the first node")
	return s
}

func (m *state) check(id int, add bool) {
	s := m.walk()
	x.Moved(m.s, s, id, add, "the tree's contents")
	m.s = s
	nd.Assert(m.t.Size() == len(s), "Size is wrong")
	nd.Assert(m.t.Empty() == (len(s) == 0), "Empty is wrong")
}

func (m *state) insert(k int) {
	m.t.Insert(k, m.id)
	m.id++
	m.check(m.id-1, true)
	for _, e := range m.s {
		if e.ID == m.id-1 {
			nd.Assert(e.K == k, "the inserted key changed")
		}
	}
	nd.Assert(x.InOrder(m.s, m.cmp), "iteration is not in key order, equal keys in insertion order")
}

func (m *state) node(i int) *rbtree.Node[int, int] {
	n := m.t.First()
	for ; i > 0; i-- {
		n = n.Next()
	}
	return n
}

func (m *state) del(i int) {
	m.t.Delete(m.node(i))
	m.check(m.s[i].ID, false)
}

func (m *state) clear() {
	m.t.Clear()
	m.s = nil
	nd.Assert(len(m.walk()) == 0 && m.t.Size() == 0 && m.t.Empty(), "Clear leaves something")
}

func (m *state) at(n *rbtree.Node[int, int]) int {
	if n == nil {
		return len(m.s)
	}
	for i, e := range m.s {
		if e.ID == n.Value() {
			return i
		}
	}
	nd.Assert(false, "a lookup yields a node that is not in the tree")
	return 0
}

// look looks q up in every way.
func (m *state) look(q int) {
	nd.Assert(x.Below(m.s, m.at(m.t.FindLowerBoundNode(q)), q, m.cmp), "FindLowerBoundNode is wrong")
	nd.Assert(x.Upto(m.s, m.at(m.t.FindUpperBoundNode(q)), q, m.cmp), "FindUpperBoundNode is wrong")
	n := m.t.FindNode(q)
	v, err := m.t.Find(q)
	nd.Assert((err == nil) == (n != nil), "Find and FindNode disagree")
	if n == nil {
		nd.Assert(x.None(m.s, q, m.cmp), "an existing key is not found")
		return
	}
	nd.Assert(v == n.Value(), "Find and FindNode disagree")
	p := m.at(n)
	nd.Assert(nd.And(x.Below(m.s, p, q, m.cmp), m.cmp(m.s[p].K, q) == 0), "Find does not give the first equal key")
}

// H_build: any keys inserted, any nodes deleted, one more insertion.
func H_build() {
	m := newState(nd.Choice(2))
	for i := nd.ChoiceIn(0, nd.Param("n", 5, 6)); i > 0; i-- {
		m.insert(x.Key())
	}
	for i := nd.Choice(nd.Param("d", 2, 3)); i > 0 && len(m.s) > 0; i-- {
		m.del(nd.Pick(len(m.s)))
	}
	m.insert(x.Key())
}

// H_order: any insertion order of distinct keys builds every tree shape; then
// any deletions.
func H_order() {
	n := nd.Param("n", 6, 7)
	m := newState(0)
	for i := 0; i < n; i++ {
		m.t.Insert(x.Key(), m.id)
		m.id++
	}
	m.s = m.walk()
	nd.Assert(len(m.s) == n, "the tree lost an entry")
	nd.Assert(x.InOrder(m.s, m.cmp), "iteration is not in key order")
	m.del(nd.Pick(len(m.s)))
}

// H_ops: any operation sequence from the empty tree.
func H_ops() {
	m := newState(2)
	for k := nd.Param("k", 4, 6); k > 0; k-- {
		switch nd.Choice(4) {
		case 0, 1:
			m.insert(x.Key())
		case 2:
			if len(m.s) > 0 {
				m.del(nd.Pick(len(m.s)))
			}
		default:
			m.clear()
		}
	}
}

// H_find: lookups of any key in any tree built from any keys.
func H_find() {
	m := newState(nd.Choice(x.Orders))
	for i := nd.ChoiceIn(0, nd.Param("n", 4, 5)); i > 0; i-- {
		m.t.Insert(x.Key(), m.id)
		m.id++
	}
	m.s = m.walk()
	m.look(x.Key())
}

// dups builds a tree with runs of equal keys in a scattered order.
func (m *state) fill(n, pattern int) {
	for i, e := range x.Pattern(pattern, n) {
		m.t.Insert(e.K, i)
	}
	m.id = n
	m.s = m.walk()
	nd.Assert(len(m.s) == n, "the tree lost an entry")
	nd.Assert(x.InOrder(m.s, m.cmp), "iteration is not in key order, equal keys in insertion order")
}

// H_big: any key inserted in or any node deleted from a larger tree, then any
// key looked up.
func H_big() {
	m := newState(nd.Choice(2))
	m.fill(nd.Param("n", 33, 100), nd.Choice(x.Patterns))
	k := int(nd.Uint8())
	switch nd.Choice(3) {
	case 0:
		m.insert(k)
		m.look(k)
	case 1:
		m.del(nd.Pick(len(m.s)))
	default:
		m.look(k)
	}
}

// H_erase: a larger tree emptied in various orders, contents exact throughout.
func H_erase() {
	m := newState(0)
	n := nd.Param("n", 40, 120)
	m.fill(n, nd.Choice(x.Patterns))
	how := nd.Choice(4)
	first := nd.Pick(n)
	m.del(first)
	r := x.Rand{S: first}
	for len(m.s) > 0 {
		switch how {
		case 0:
			m.del(0)
		case 1:
			m.del(len(m.s) - 1)
		case 2:
			m.del(len(m.s) / 2)
		default:
			m.del(r.N(len(m.s)))
		}
	}
	m.insert(x.Key())
}

// H_churn: long mixed histories, then any insertion and a lookup of it.
func H_churn() {
	m := newState(nd.Choice(2))
	r := x.Rand{S: 99 + 1000*nd.Choice(nd.Param("seeds", 6, 40))}
	for k := nd.Param("k", 150, 400); k > 0; k-- {
		if len(m.s) > 0 && r.N(5) < 2 {
			m.del(r.N(len(m.s)))
		} else {
			m.insert(r.N(60))
		}
	}
	k := int(nd.Uint8())
	m.insert(k)
	m.look(k)
}

// H_handles: nodes obtained before other nodes are deleted still designate
// their entries.
func H_handles() {
	m := newState(nd.Choice(2))
	n := nd.ChoiceIn(1, nd.Param("n", 8, 12))
	m.fill(n, nd.Choice(x.Patterns))
	var h []*rbtree.Node[int, int]
	for v := m.t.First(); v != nil; v = v.Next() {
		h = append(h, v)
	}
	for i := nd.Param("d", 3, 5); i > 0 && len(m.s) > 0; i-- {
		p := nd.Pick(len(m.s))
		m.t.Delete(h[p])
		h = x.Rem(h, p)
		m.check(m.s[p].ID, false)
		for j, v := range h {
			nd.Assert(v.Key() == m.s[j].K && v.Value() == m.s[j].ID, "a node designates another entry after a deletion")
		}
		ok, _ := m.t.IsRbTree()
		nd.Assert(ok, "the self-check rejects the tree")
	}
}

// H_huge: trees of a thousand entries and more, long histories; then any key is looked up, inserted and deleted.
func H_huge() {
	m := newState(0)
	o := &x.Ord{Multi: true}
	r := x.Rand{S: 9 + 100*nd.Choice(nd.Param("seeds", 2, 8))}
	n := nd.Param("n", 1200, 5000)
	span := []int{40, 4000}[nd.Choice(2)]
	how := nd.Choice(3)
	add := func(k int) {
		m.t.Insert(k, m.id)
		o.Put(k, m.id, false)
		m.id++
	}
	del := func(p int) {
		nd.Assert(p < len(o.S), "nothing to delete")
		l := o.Lower(o.S[p].K)
		node := m.t.FindNode(o.S[p].K)
		for ; l < p; l++ {
			node = node.Next()
		}
		nd.Assert(node != nil && node.Value() == o.S[p].ID, "a lookup yields the wrong node")
		m.t.Delete(node)
		o.Cut(p, p+1)
	}
	all := func() {
		s := m.walk()
		x.Same(o.S, s, "the tree's contents")
		nd.Assert(m.t.Size() == len(s), "Size is wrong")
	}
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			add(i * span / n)
		case 1:
			add((n - i) * span / n)
		default:
			add(r.N(span))
		}
	}
	all()
	for i := 0; i < n; i++ {
		if r.N(5) < 2 {
			add(r.N(span))
		} else if len(o.S) > 0 {
			del(r.N(len(o.S)))
		}
		if i%300 == 0 {
			all()
		}
	}
	all()
	q := []int{-3, span / 3, span - 9}[nd.Choice(3)] + nd.IntIn(0, 12)
	at := func(n *rbtree.Node[int, int]) int {
		if n == nil {
			return len(o.S)
		}
		return o.Pos(n.Value())
	}
	p := at(m.t.FindLowerBoundNode(q))
	nd.Assert(o.IsLower(p, q), "FindLowerBoundNode is wrong")
	u := at(m.t.FindUpperBoundNode(q))
	nd.Assert(u >= p && o.IsUpper(u, q), "FindUpperBoundNode is wrong")
	node := m.t.FindNode(q)
	nd.Assert((node != nil) == (u > p), "FindNode is wrong")
	if node != nil {
		nd.Assert(at(node) == p, "FindNode does not give the first equal key")
		m.t.Delete(node)
		o.Cut(p, p+1)
	} else {
		m.t.Insert(q, m.id)
		o.S = append(o.S[:p:p], append([]x.E{{q, m.id}}, o.S[p:]...)...)
	}
	x.Same(o.S, m.walk(), "the tree's contents")
}

// H_seq: every sequence of calls around two neighbouring keys, with nothing read in between, on trees of several sizes.
func H_seq() {
	size := nd.Choice(3)
	m := newState(0)
	o := &x.Ord{Multi: true}
	add := func(k int) {
		m.t.Insert(k, m.id)
		o.Put(k, m.id, false)
		m.id++
	}
	n := []int{2, 6, 70}[size]
	for i := 0; i < n; i++ {
		add(2 * (i * 5 % n))
	}
	base := []int{2, 8, 70}[size]
	is := func(v *rbtree.Node[int, int], p int, what string) {
		nd.Assert((v != nil) == (p >= 0 && p < len(o.S)), what)
		if v != nil {
			nd.Assert(v.Key() == o.S[p].K && v.Value() == o.S[p].ID, what)
		}
	}
	steps := nd.Param("k", 4, 5)
	if size == 2 {
		steps--
	}
	for ; steps > 0; steps-- {
		c := nd.Choice(17)
		k := base + c%2
		p := o.Lower(k)
		in := p < o.Upper(k)
		f := p
		if !in {
			f = len(o.S)
		}
		switch c / 2 {
		case 0:
			add(k)
		case 1: // the first entry not less than k, and the last one of its key
			if v := m.t.FindLowerBoundNode(k); v != nil {
				if c == 3 {
					for q := o.Upper(o.S[p].K) - 1; p < q; p++ {
						v = v.Next()
					}
				}
				is(v, p, "FindLowerBoundNode or Next is wrong")
				m.t.Delete(v)
				o.Cut(p, p+1)
			}
		case 2:
			v, err := m.t.Find(k)
			nd.Assert((err == nil) == in && (!in || v == o.S[p].ID), "Find is wrong")
		case 3:
			is(m.t.FindNode(k), f, "FindNode is wrong")
		case 4:
			is(m.t.FindLowerBoundNode(k), p, "FindLowerBoundNode is wrong")
		case 5:
			is(m.t.FindUpperBoundNode(k), o.Upper(k), "FindUpperBoundNode is wrong")
		case 6:
			if c == 12 {
				is(m.t.First(), 0, "First is wrong")
			} else {
				is(m.t.Last(), len(o.S)-1, "Last is wrong")
			}
		case 7:
			nd.Assert(m.t.Size() == len(o.S) && m.t.Empty() == (len(o.S) == 0), "Size is wrong")
			if c == 15 {
				is(m.t.Begin(), 0, "Begin is wrong")
				is(m.t.RBegin(), len(o.S)-1, "RBegin is wrong")
			}
		default:
			m.t.Clear()
			o.S = nil
		}
	}
	x.Same(o.S, m.walk(), "the tree's contents")
	nd.Assert(m.t.Size() == len(o.S), "Size is wrong")
}
