package c21

import (
	"github.com/liyue201/gostl/ds/skiplist"

	"verif.local/h/nd"
	"verif.local/h/shim/rand"
	"verif.local/h/x"
)

type state struct {
	l   *skiplist.Skiplist[int, int]
	cmp func(a, b int) int
	s   []x.E
	id  int
}

// newState is a skip list of the given maximum level; 0 means the default.
func newState(order, level int, safe bool) *state {
	rand.Fixed = nil
	w := &state{cmp: x.IntOrder(order), id: 1}
	var opts []skiplist.Option
	if safe {
		opts = append(opts, skiplist.WithGoroutineSafe())
	}
	if level > 0 {
		opts = append(opts, skiplist.WithMaxLevel(level))
	}
	w.l = skiplist.New[int, int](w.cmp, opts...)
	return w
}

func (w *state) read() []x.E {
	var s []x.E
	w.l.Traversal(func(k, v int) bool {
		nd.Assert(len(s) < 300, "Traversal does not end")
		s = append(s, x.E{k, v})
		return true
	})
	ks := w.l.Keys()
	nd.Assert(len(ks) == len(s), "Keys and Traversal differ")
	ok := true
	for i, k := range ks {
		ok = nd.And(ok, k == s[i].K)
		if i > 0 {
			ok = nd.And(ok, w.cmp(ks[i-1], k) < 0)
		}
	}
	nd.Assert(ok, "Keys are not in strictly increasing order, or differ from Traversal")
	nd.Assert(w.l.Len() == len(s), "Len is not the number of keys")
	return s
}

func (w *state) insert(k int) {
	v := w.id
	w.id++
	w.l.Insert(k, v)
	now := w.read()
	if len(now) == len(w.s) {
		n, at := 0, 0
		for i := range now {
			nd.Assert(now[i].K == w.s[i].K, "overwriting a value changed a key")
			if now[i].ID != w.s[i].ID {
				n++
				at = i
			}
		}
		nd.Assert(n == 1 && now[at].ID == v, "overwriting a value changed another")
		nd.Assert(w.cmp(now[at].K, k) == 0, "another key's value was overwritten")
		w.s = now
		return
	}
	nd.Assert(x.None(w.s, k, w.cmp), "a key is held twice")
	x.Moved(w.s, now, v, true, "content after Insert")
	for _, e := range now {
		if e.ID == v {
			nd.Assert(e.K == k, "the inserted key changed")
		}
	}
	w.s = now
}

func (w *state) remove(k int) {
	ok := w.l.Remove(k)
	now := w.read()
	nd.Assert(ok == (len(now) < len(w.s)), "Remove reports wrongly whether the key was there")
	if !ok {
		nd.Assert(x.None(w.s, k, w.cmp), "a present key is not removed")
		x.Same(w.s, now, "Remove of an absent key changed the list")
		return
	}
	p := 0
	for p < len(now) && now[p].ID == w.s[p].ID {
		p++
	}
	nd.Assert(w.cmp(w.s[p].K, k) == 0, "another key was removed")
	x.Same(x.Rem(w.s, p), now, "content after Remove")
	w.s = now
}

func (w *state) get(k int) {
	v, err := w.l.Get(k)
	if err != nil {
		nd.Assert(x.None(w.s, k, w.cmp), "a present key is not found")
		return
	}
	for _, e := range w.s {
		if e.ID == v {
			nd.Assert(w.cmp(e.K, k) == 0, "Get returns another key's value")
			return
		}
	}
	nd.Assert(false, "Get makes up a value")
}

// H_ops: any operations, any keys, any levels drawn.
func H_ops() {
	w := newState(0, nd.ChoiceIn(1, nd.Param("level", 2, 4)), false)
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		switch nd.Choice(3) {
		case 0, 1:
			w.insert(x.Key())
		default:
			w.remove(x.Key())
		}
	}
}

// H_look: any key sought among any keys at fixed levels.
func H_look() {
	w := newState(nd.Choice(x.Orders), 3, nd.Choice(2) == 1)
	concrete(nd.Choice(3))
	for i := 0; i < nd.Param("n", 3, 4); i++ {
		w.l.Insert(x.Key(), w.id)
		w.id++
	}
	w.s = w.read()
	w.get(x.Key())
}

// H_levels: every maximum level, the level of one element arbitrary.
func H_levels() {
	w := newState(0, nd.Choice(65), false)
	concrete(1)
	w.insert(4)
	w.insert(2)
	rand.Fixed = nil
	w.insert(2*nd.Pick(4) - 1)
	concrete(2)
	w.remove(2)
	w.insert(6)
	w.remove(4)
	for i := -1; i < 7; i++ {
		w.get(i)
	}
}

// H_draws: several arbitrary levels.
func H_draws() {
	w := newState(0, []int{2, 5, 7}[nd.Choice(3)], nd.Choice(2) == 1)
	for i := 0; i < nd.Param("n", 3, 4); i++ {
		w.insert(2 * (i * 2 % 3))
	}
	w.remove(2 * nd.Pick(3))
	for i := -1; i < 7; i++ {
		w.get(i)
	}
}

// concrete makes the next draws a fixed pseudo-random sequence.
func concrete(seed int) {
	s := uint64(seed)
	rand.Fixed = func() (uint64, bool) {
		s = s*6364136223846793005 + 1442695040888963407
		return s ^ s>>29, true
	}
}

// H_big: one operation with any key and any level on a larger list.
func H_big() {
	w := newState(nd.Choice(2), []int{1, 4, 10}[nd.Choice(3)], false)
	concrete(nd.Choice(nd.Param("seeds", 1, 10)))
	for _, e := range x.Pattern([]int{0, 1, 7}[nd.Choice(3)], nd.Param("n", 24, 100)) {
		w.l.Insert(e.K, w.id)
		w.id++
	}
	w.s = w.read()
	rand.Fixed = nil
	k := int(nd.Uint8())
	switch nd.Choice(3) {
	case 0:
		w.insert(k)
	case 1:
		w.remove(k)
	}
	w.get(k)
}

// H_churn: long histories, exact throughout.
func H_churn() {
	w := newState(nd.Choice(x.Orders), []int{1, 2, 5, 10, 64}[nd.Choice(5)], false)
	sd := nd.Choice(nd.Param("seeds", 4, 20))
	concrete(sd)
	r := x.Rand{S: 3 + 1000*sd}
	for k := nd.Param("k", 120, 400); k > 0; k-- {
		if r.N(5) < 3 {
			w.insert(r.N(60))
		} else {
			w.remove(r.N(60))
		}
		w.get(r.N(60))
	}
	k := int(nd.Uint8())
	w.remove(k)
	w.insert(k)
}

// H_huge: a thousand keys and more, long histories; then any key is sought, and inserted or removed.
func H_huge() {
	w := newState(0, []int{4, 10, 32}[nd.Choice(3)], nd.Choice(2) == 1)
	concrete(nd.Choice(nd.Param("seeds", 2, 6)))
	n := nd.Param("n", 1200, 5000)
	o := &x.Ord{}
	r := x.Rand{S: 77}
	span := 4 * n
	how := nd.Choice(3)
	all := func() {
		var s []x.E
		w.l.Traversal(func(k, v int) bool { s = append(s, x.E{k, v}); return len(s) <= 2*n })
		x.Same(o.S, s, "the content")
		ks := w.l.Keys()
		nd.Assert(w.l.Len() == len(s) && len(ks) == len(s), "Len or Keys is wrong")
		ok := true
		for i, k := range ks {
			ok = nd.And(ok, k == s[i].K)
		}
		nd.Assert(ok, "Keys is wrong")
	}
	put := func(k int) {
		w.l.Insert(k, w.id)
		o.Put(k, w.id, true)
		w.id++
	}
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			put(4 * i)
		case 1:
			put(span - 4*i)
		default:
			put(r.N(span))
		}
	}
	all()
	for i := 0; i < 2*n; i++ {
		k := r.N(span)
		if r.N(2) == 0 && len(o.S) > 0 {
			k = o.S[r.N(len(o.S))].K
		}
		p := o.Lower(k)
		in := p < len(o.S) && o.S[p].K == k
		switch r.N(4) {
		case 0:
			put(k)
		case 1:
			v, err := w.l.Get(k)
			nd.Assert((err == nil) == in && (!in || v == o.S[p].ID), "Get is wrong")
		default:
			nd.Assert(w.l.Remove(k) == in, "Remove reports wrongly whether the key was there")
			o.Del(k)
		}
	}
	all()
	q := []int{-3, span / 2, span - 9}[nd.Choice(3)] + nd.IntIn(0, 12)
	v, err := w.l.Get(q)
	q = nd.Conc(q)
	p := o.Lower(q)
	in := p < len(o.S) && o.S[p].K == q
	nd.Assert((err == nil) == in && (!in || v == o.S[p].ID), "Get is wrong")
	put(q)
	all()
	nd.Assert(w.l.Remove(q), "Remove misses a key")
	o.Del(q)
	all()
}

// H_seq: every sequence of calls around three neighbouring keys, with nothing read in between.
func H_seq() {
	size := nd.Choice(3)
	w := newState(0, []int{2, 4, 10}[nd.Choice(3)], false)
	concrete(nd.Choice(nd.Param("seeds", 3, 10)))
	o := &x.Ord{}
	put := func(k int) {
		w.l.Insert(k, w.id)
		o.Put(k, w.id, true)
		w.id++
	}
	n := []int{2, 6, 40}[size]
	for i := 0; i < n; i++ {
		put(2 * (i * 5 % n))
	}
	base := []int{2, 6, 78}[size]
	steps := nd.Param("k", 4, 5)
	if size == 2 {
		steps--
	}
	for ; steps > 0; steps-- {
		c := nd.Choice(9)
		k := base + []int{-2, 0, 1}[c%3]
		p := o.Lower(k)
		in := p < o.Upper(k)
		switch c / 3 {
		case 0:
			put(k)
		case 1:
			nd.Assert(w.l.Remove(k) == in, "Remove reports wrongly whether the key was there")
			o.Del(k)
		default:
			v, err := w.l.Get(k)
			nd.Assert((err == nil) == in && (!in || v == o.S[p].ID), "Get is wrong")
		}
	}
	for _, e := range o.S {
		v, err := w.l.Get(e.K)
		nd.Assert(err == nil && v == e.ID, "a present key is not found")
	}
	x.Same(o.S, w.read(), "the content")
}
