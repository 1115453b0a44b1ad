package c24

import (
	"github.com/liyue201/gostl/ds/ketama"

	"verif.local/h/nd"
	"verif.local/h/shim/sha512"
)

// world is a ring under test and what it must be: which nodes are present,
// and where their points and the keys lie. The positions come from the
// digests the code asks for while a name is added, removed or looked up: the
// first word belongs to the name's first point, and so on.
type world struct {
	k       *ketama.Ketama
	r       int                             // replicas
	present map[string]bool                 // node -> present
	draw    func(name string, i int) uint64 // the i-th digest word of a name
	words   map[string][]uint64             // name -> digest words so far
	seen    map[string][]uint64             // digest input -> digest
	names   []string                        // nodes ever used
	cur     string
}

func newWorld(r int, safe bool, draw func(string, int) uint64) *world {
	w := &world{r: r, present: map[string]bool{}, words: map[string][]uint64{}, seen: map[string][]uint64{}, draw: draw}
	w.k = w.ring(safe)
	sha512.Fixed = w.digest
	return w
}

func (w *world) ring(safe bool) *ketama.Ketama {
	var opts []ketama.Option
	if w.r != 0 {
		opts = append(opts, ketama.WithReplicas(w.r))
	}
	if safe {
		opts = append(opts, ketama.WithGoroutineSafe())
	}
	return ketama.New(opts...)
}

func (w *world) digest(b []byte) []uint64 {
	if d, ok := w.seen[string(b)]; ok {
		return d
	}
	d := make([]uint64, 8)
	for i := range d {
		d[i] = w.draw(w.cur, len(w.words[w.cur])+i)
	}
	w.words[w.cur] = append(w.words[w.cur], d...)
	w.seen[string(b)] = d
	return d
}

func (w *world) note(n string) {
	for _, m := range w.names {
		if m == n {
			return
		}
	}
	w.names = append(w.names, n)
}

func (w *world) add(n string) {
	w.cur = n
	w.note(n)
	w.k.Add(n)
	w.present[n] = true
	nd.Assert(len(w.words[n]) >= w.r, "a node owns fewer points than configured")
}

func (w *world) remove(n string) {
	w.cur = n
	w.note(n)
	w.k.Remove(n)
	w.present[n] = false
}

func (w *world) none() bool {
	for _, n := range w.names {
		if w.present[n] {
			return false
		}
	}
	return true
}

// owns tells whether node i owns the first point at or after h, or, when
// there is none, the first point of all.
func (w *world) owns(i int, h uint64) bool {
	var all []uint64
	for _, n := range w.names {
		if w.present[n] {
			all = append(all, w.words[n][:w.r]...)
		}
	}
	yes, noneAfter := false, true
	for _, q := range all {
		noneAfter = nd.And(noneAfter, q < h)
	}
	for _, p := range w.words[w.names[i]][:w.r] {
		first, least := p >= h, true
		for _, q := range all {
			first = nd.And(first, nd.Or(q < h, q >= p))
			least = nd.And(least, q >= p)
		}
		yes = nd.Or(yes, nd.Or(first, nd.And(noneAfter, least)))
	}
	return yes
}

func (w *world) get(key string) (string, bool) {
	w.cur = key
	return w.k.Get(key)
}

// check looks a key up.
func (w *world) check(key string) {
	got, ok := w.get(key)
	nd.Assert(w.k.Empty() == w.none(), "Empty is wrong")
	nd.Assert(ok == !w.none(), "Get reports a node when none is present or none when one is")
	if !ok {
		nd.Assert(got == "", "Get makes up a node")
		return
	}
	i := w.index(got)
	nd.Assert(i >= 0 && w.present[got], "Get returns a node that is not present")
	nd.Assert(len(w.words[key]) > 0, "the key is not hashed")
	nd.Assert(w.owns(i, w.words[key][0]), "Get does not return the node clockwise from the key")
}

func (w *world) index(n string) int {
	for i := range w.names {
		if w.names[i] == n {
			return i
		}
	}
	return -1
}

// place is one of 256 positions all around the circle: enough for every order
// that the few points drawn this way can have.
func place() uint64 { return uint64(nd.Uint8())<<56 | 0x123456789abcde }

// symbolic gives arbitrary distinct points to nodes (r each) and an
// arbitrary position to keys.
func symbolic(r int, nodes string) func(string, int) uint64 {
	var all []uint64
	return func(name string, i int) uint64 {
		isNode := false
		for _, c := range nodes {
			isNode = isNode || string(c) == name
		}
		if !isNode {
			if i > 0 {
				return uint64(i)
			}
			return place()
		}
		if i >= r {
			return uint64(i)
		}
		p := place()
		for _, q := range all {
			nd.Assume(p != q)
		}
		all = append(all, p)
		return p
	}
}

// spread gives concrete, well-spread words.
func spread(name string, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h = (h ^ uint64(i)) * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

// H_ring: few nodes with arbitrary points, any additions and removals, a key
// at an arbitrary position.
func H_ring() {
	r := nd.ChoiceIn(1, nd.Param("r", 2, 2))
	nodes := "AB"
	w := newWorld(r, nd.Choice(2) == 1, symbolic(r, nodes))
	w.check("k")
	for d := nd.Choice(nd.Param("ops", 3, 4)) + 1; d > 0; d-- {
		n := string(nodes[nd.Choice(2)])
		if nd.Choice(2) == 0 {
			w.add(n)
		} else {
			w.remove(n)
		}
	}
	w.check("k")
	w.check("k")
}

// H_three: three nodes of one point each.
func H_three() {
	nodes := "ABC"
	w := newWorld(1, nd.Choice(2) == 1, symbolic(1, nodes))
	for _, n := range nodes {
		w.add(string(n))
	}
	for d := nd.Choice(nd.Param("ops", 3, 4)); d > 0; d-- {
		n := string(nodes[nd.Choice(3)])
		if nd.Choice(2) == 0 {
			w.add(n)
		} else {
			w.remove(n)
		}
	}
	w.check("k")
}

var many = []string{"a", "", "node-1", "node-10", "n", "b", "abc", "node-2", "x", "zz"}

// key draws an arbitrary position for the key; nodes are spread.
func keyed(name string, i int) uint64 {
	if name == "key" && i == 0 {
		return nd.Uint64()
	}
	return spread(name, i)
}

// H_history: many nodes with many points come and go; the key lies anywhere.
func H_history() {
	r := []int{1, 8, 9, 10, 16, 17, 3, 2, 7, 33}[nd.Choice(nd.Param("rs", 7, 10))]
	w := newWorld(r, nd.Choice(2) == 1, keyed)
	n := nd.Param("nodes", 4, 8)
	s := uint32(nd.Choice(nd.Param("seeds", 2, 6))*977 + 1)
	for i, d := 0, nd.Param("steps", 10, 30); i < d; i++ {
		s = s*1664525 + 1013904223
		node := many[int(s>>16)%n]
		if w.present[node] && s>>30 != 0 {
			w.remove(node)
		} else if s>>29 == 7 {
			w.remove(node)
		} else {
			w.add(node)
		}
		for _, m := range many[:n] { // a node's own name lies on its first point
			if w.present[m] {
				got, ok := w.get(m)
				nd.Assert(ok && got == m, "a key at a node's point is not that node's")
			}
		}
		w.check("other")
	}
	w.check("key")
	for _, node := range many[:n] {
		w.remove(node)
	}
	w.check("key")
	w.add(many[1])
	w.check("key")
}

// H_newcomer: among spread nodes, one node with arbitrary points is added
// and removed: keys move to it and back only; the key lies anywhere.
func H_newcomer() {
	r := nd.ChoiceIn(1, nd.Param("r", 2, 2))
	newcomer := symbolic(r, "N")
	w := newWorld(r, false, func(name string, i int) uint64 {
		if name == "N" || name == "key" {
			return newcomer(name, i)
		}
		return spread(name, i)
	})
	n := nd.Choice(nd.Param("nodes", 4, 6))
	for _, m := range many[:n] {
		w.add(m)
	}
	before, had := w.get("key")
	// the newcomer's points are no one else's
	w.cur = "N"
	w.ring(false).Add("N")
	nd.Assert(len(w.words["N"]) >= r, "a node owns fewer points than configured")
	for _, p := range w.words["N"][:r] {
		for _, m := range many[:n] {
			for _, q := range w.words[m][:r] {
				nd.Assume(p != q)
			}
		}
	}
	w.add("N")
	after, ok := w.get("key")
	nd.Assert(ok, "Get finds no node on a ring")
	nd.Assert(after == "N" || had && after == before, "adding a node moves a key to another node")
	w.check("key")
	w.remove("N")
	again, ok := w.get("key")
	nd.Assert(ok == had && again == before, "removing a node moves another node's key")
	w.check("key")
}

// H_leave: a node leaves: only its keys move, and as if it had never been.
func H_leave() {
	r := []int{1, 3, 8, 10}[nd.Choice(nd.Param("rs", 3, 4))]
	w := newWorld(r, false, keyed)
	n := nd.Param("nodes", 4, 6)
	for _, m := range many[:n] {
		w.add(m)
	}
	gone := many[nd.Choice(n)]
	before, _ := w.get("key")
	w.remove(gone)
	after, ok := w.get("key")
	nd.Assert(ok && after != gone, "a key belongs to a node that left")
	nd.Assert(before == gone || after == before, "removing a node moves another node's key")
	w.check("key")
	other := w.ring(false)
	for i := n - 1; i >= 0; i-- {
		if many[i] != gone {
			w.cur = many[i]
			other.Add(many[i])
		}
	}
	w.cur = "key"
	o, ok := other.Get("key")
	nd.Assert(ok && o == after, "the answer depends on the history")
}

// H_default: a ring of the default number of points: same answers on every
// history, minimal movement.
func H_default() {
	w := newWorld(0, nd.Choice(2) == 1, keyed)
	k, o := w.k, w.ring(false)
	do := func(f func(...string), n string) { w.cur = n; f(n) }
	nd.Assert(k.Empty(), "a new ring is not empty")
	do(k.Add, "a")
	do(k.Add, "b")
	x, ok := w.get("key")
	nd.Assert(ok && !k.Empty(), "Get finds no node on a ring")
	do(k.Add, "c")
	do(k.Add, "b")
	y, ok := w.get("key")
	nd.Assert(ok && (y == x || y == "c"), "adding a node moves a key to another node")
	do(k.Remove, "a")
	do(k.Remove, "x")
	z, ok := w.get("key")
	nd.Assert(ok && (z == y || y == "a") && z != "a", "removing a node moves another node's key")
	do(o.Add, "c")
	do(o.Add, "b")
	w.cur = "key"
	v, ok := o.Get("key")
	nd.Assert(ok && v == z, "the answer depends on the history")
	do(k.Remove, "b")
	do(k.Remove, "c")
	_, ok = w.get("key")
	nd.Assert(!ok && k.Empty(), "nodes remain on an emptied ring")
	nd.Assert(!o.Empty(), "Empty is wrong")
}

// H_several: Add and Remove take several nodes, present or not, even the
// same one twice; nothing at all is fine too.
func H_several() {
	r := []int{3, 1, 9}[nd.Choice(nd.Param("rs", 3, 3))]
	w := newWorld(r, nd.Choice(2) == 1, func(name string, i int) uint64 {
		return keyed(name, i)
	})
	// the names' words are learnt one by one on another ring
	for _, m := range many[:4] {
		w.cur = m
		w.note(m)
		w.ring(false).Add(m)
	}
	w.cur = "-"
	sets := [][]string{{}, {many[1], many[1], many[0]}, {many[3], many[0], many[2]}, many[:4]}
	for d := 0; d < nd.Param("ops", 3, 4); d++ {
		set := sets[nd.Choice(len(sets))]
		if d != 1 {
			w.k.Add(set...)
		} else {
			w.k.Remove(set...)
		}
		for _, m := range set {
			w.present[m] = d != 1
		}
		w.cur = "-"
	}
	w.check("key")
}

// H_ends: points and keys at and around the ends of the circle.
func H_ends() {
	ends := []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	a, b := nd.Choice(len(ends)), nd.Choice(len(ends))
	if a == b {
		return
	}
	w := newWorld(1, false, func(name string, i int) uint64 {
		switch {
		case i > 0:
			return uint64(i)
		case name == "A":
			return ends[a]
		case name == "B":
			return ends[b]
		}
		return nd.Uint64()
	})
	w.add("A")
	w.check("k")
	w.add("B")
	w.check("k")
	w.remove("A")
	w.check("k")
}

type point struct {
	at   uint64
	node string
}

// ring returns the present nodes' points, all concrete, around the circle.
func (w *world) points() []point {
	var ps []point
	for _, n := range w.names {
		if w.present[n] {
			for _, p := range w.words[n][:w.r] {
				ps = append(ps, point{p, n})
			}
		}
	}
	for gap := len(ps) / 2; gap > 0; gap /= 2 { // shell sort
		for i := gap; i < len(ps); i++ {
			for j := i; j >= gap && ps[j].at < ps[j-gap].at; j -= gap {
				ps[j], ps[j-gap] = ps[j-gap], ps[j]
			}
		}
	}
	return ps
}

// checkWide is check for many points, all of them concrete.
func (w *world) checkWide(key string) {
	got, ok := w.get(key)
	nd.Assert(ok == !w.none() && w.k.Empty() == w.none(), "Get or Empty report a node when none is present or none when one is")
	if !ok {
		return
	}
	nd.Assert(len(w.words[key]) > 0, "the key is not hashed")
	h := w.words[key][0]
	ps := w.points()
	yes := ps[0].node == got && h > ps[len(ps)-1].at
	for i, p := range ps {
		if p.node == got {
			in := h <= p.at
			if i > 0 {
				in = nd.And(in, h > ps[i-1].at)
			}
			yes = nd.Or(yes, in)
		}
	}
	nd.Assert(yes, "Get does not return the node clockwise from the key")
}

// H_points: nodes with many points each come and go, none of the points is
// forgotten or left behind; the key lies anywhere.
func H_points() {
	r := []int{11, 20, 24, 40, 64, 65, 100, 130, 160, 257}[nd.Choice(nd.Param("rs", 8, 10))]
	w := newWorld(r, false, keyed)
	w.add("a")
	w.add("b")
	switch nd.Choice(3) {
	case 1:
		w.remove("a")
		w.add("c")
		w.remove("b")
	case 2:
		w.add("c")
		w.remove("c")
		w.add("a")
	}
	w.checkWide("key")
	w.remove("a")
	w.remove("b")
	w.remove("c")
	w.checkWide("key")
}

// H_huge: dozens of nodes, hundreds of points; the key lies anywhere.
func H_huge() {
	r := []int{10, 40}[nd.Choice(2)]
	w := newWorld(r, nd.Choice(2) == 1, keyed)
	n := nd.Param("nodes", 30, 100)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "node"+string(rune('A'+i%26))+string(rune('0'+i/26)))
		w.add(names[i])
	}
	for i := 0; i < n; i += 3 {
		w.remove(names[i])
	}
	for i := 0; i < n; i += 5 {
		w.add(names[i])
	}
	var pts, owner []uint64 // in increasing order
	for i, m := range names {
		if !w.present[m] {
			continue
		}
		for _, p := range w.words[m][:r] {
			j, k := 0, len(pts)
			for j < k {
				if h := (j + k) / 2; pts[h] < p {
					j = h + 1
				} else {
					k = h
				}
			}
			pts, owner = append(pts, 0), append(owner, 0)
			copy(pts[j+1:], pts[j:])
			copy(owner[j+1:], owner[j:])
			pts[j], owner[j] = p, uint64(i)
		}
	}
	got, ok := w.get("key")
	nd.Assert(ok, "Get reports no node")
	h := w.words["key"][0]
	right := false
	for j, p := range pts {
		if names[owner[j]] == got {
			in := h <= p
			if j > 0 {
				in = nd.And(in, h > pts[j-1])
			} else {
				in = nd.Or(in, h > pts[len(pts)-1])
			}
			right = nd.Or(right, in)
		}
	}
	nd.Assert(right, "Get does not return the node clockwise from the key")
}

// H_seq: every sequence of additions, removals and lookups.
func H_seq() {
	w := newWorld([]int{1, 3, 9}[nd.Choice(3)], false, spread)
	if nd.Choice(2) == 1 {
		for _, n := range many[4:] {
			w.add(n)
		}
	}
	for k := nd.Param("k", 4, 5); k > 0; k-- {
		switch c := nd.Choice(9); {
		case c < 3:
			w.add(many[c])
		case c < 6:
			w.remove(many[c-3])
		default:
			w.check([]string{"key", "kez", "node-1"}[c-6])
		}
	}
	for _, k := range []string{"key", "kez", "node-1", "", "a", "q"} {
		w.check(k)
	}
}
