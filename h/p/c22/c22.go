package c22

import (
	"github.com/liyue201/gostl/ds/bitmap"

	"verif.local/h/nd"
)

// state follows one arbitrary position q through every operation: size is the
// size the bitmap must have, on whether bit q must be set.
type state struct {
	b    *bitmap.Bitmap
	size uint64
	q    uint64
	on   bool
}

func round(n uint64) uint64 {
	for n%8 != 0 {
		n++
	}
	return n
}

func newState(n uint64) *state {
	w := &state{b: bitmap.New(n), size: round(n), q: nd.Uint64()}
	w.check()
	return w
}

func (w *state) check() {
	nd.Assert(w.b.Size() == w.size, "Size is wrong")
	nd.Assert(w.b.IsSet(w.q) == w.on, "IsSet is wrong")
}

func (w *state) set(p uint64) {
	ok := w.b.Set(p)
	nd.Assert(ok == (p < w.size), "Set reports wrongly whether the position is below the size")
	w.on = nd.Or(w.on, nd.And(p == w.q, p < w.size))
	w.check()
}

func (w *state) unset(p uint64) {
	ok := w.b.Unset(p)
	nd.Assert(ok == (p < w.size), "Unset reports wrongly whether the position is below the size")
	w.on = nd.And(w.on, p != w.q)
	w.check()
}

func (w *state) resize(n uint64) {
	w.b.Resize(n)
	w.size = round(n)
	w.on = nd.And(w.on, w.q < w.size)
	w.check()
}

func (w *state) clear() {
	w.b.Clear()
	w.on = false
	w.check()
}

func (w *state) op(maxSize int) {
	switch nd.Choice(6) {
	case 0, 1:
		w.set(nd.Uint64())
	case 2:
		w.unset(nd.Uint64())
	case 3:
		w.resize(uint64(nd.Pick(maxSize + 1)))
	case 4:
		w.clear()
	default: // replaced by one built from its data
		w.b = bitmap.NewFromData(w.b.Data())
		w.check()
	}
}

// H_ops: any operations on a bitmap of any small size.
func H_ops() {
	m := nd.Param("size", 17, 33)
	w := newState(uint64(nd.Pick(m + 1)))
	for k := nd.Param("k", 2, 3); k > 0; k-- {
		w.op(m)
	}
}

// H_bits: any bits set and unset in bitmaps of several sizes.
func H_bits() {
	sizes := []uint64{8, 24, 64, 65, 128, 200, 512, 1000}
	w := newState(sizes[nd.Choice(nd.Param("sizes", 7, 8))])
	for k := nd.Param("k", 3, 4); k > 0; k-- {
		if nd.Choice(2) == 0 {
			w.set(nd.Uint64())
		} else {
			w.unset(nd.Uint64())
		}
	}
}

// full makes a bitmap with a concrete pattern of bits.
func full(n uint64, pattern int) *state {
	w := &state{b: bitmap.New(n), size: round(n), q: nd.Uint64()}
	for p := uint64(0); p < n; p++ {
		v := pattern == 0 || pattern == 1 && p%2 == 0 || pattern == 2 && p%3 == 0 || pattern == 3 && p/8%2 == 1
		if v {
			nd.Assert(w.b.Set(p), "Set refuses a position below the size")
			w.on = nd.Or(w.on, p == w.q)
		}
	}
	w.check()
	return w
}

// H_resize: larger bitmaps of several patterns shrunk and grown to any size.
func H_resize() {
	n := nd.Param("size", 40, 200)
	w := full(uint64(n), nd.Choice(4))
	w.resize(uint64(nd.Pick(n + 60)))
	switch nd.Choice(3) {
	case 0:
		w.resize(uint64(n + 20))
	case 1:
		w.set(nd.Uint64())
		w.resize(uint64(n / 3))
	default:
		w.clear()
		w.resize(uint64(n))
	}
	w.set(nd.Uint64())
}

// H_data: a bitmap built from any bytes, or from another one's data.
func H_data() {
	n := nd.ChoiceIn(0, nd.Param("bytes", 4, 12))
	d := make([]byte, n)
	for i := range d {
		d[i] = nd.Uint8()
	}
	b := bitmap.NewFromData(d)
	nd.Assert(b.Size() == uint64(n)*8, "Size is not eight bits a byte")
	q := nd.Uint64()
	on := b.IsSet(q)
	nd.Assert(nd.Implies(on, q < b.Size()), "a bit beyond the size is set")
	c := bitmap.NewFromData(b.Data())
	nd.Assert(c.Size() == b.Size() && c.IsSet(q) == on, "a bitmap built from Data differs")
	w := &state{b: c, size: c.Size(), q: q, on: on}
	if n > 0 && nd.Choice(2) == 0 {
		w.resize(uint64(nd.Pick(8 * n)))
	}
	w.set(nd.Uint64())
	w.unset(nd.Uint64())
}

// H_large: sizes for which implementations could switch representation.
func H_large() {
	sizes := []uint64{1 << 12, 1<<12 + 1, 1<<13 - 7}
	n := sizes[nd.Choice(3)]
	w := &state{b: bitmap.New(n), size: round(n), q: uint64(nd.Pick(64)) * 129}
	for i := uint64(0); i < 64; i++ {
		p := i * 67
		w.b.Set(p)
		w.on = w.on || p == w.q && p < w.size
		if p%4 == 1 {
			w.b.Unset(p + 1)
			w.b.Unset(p)
			w.on = w.on && p != w.q && p+1 != w.q
		}
		w.check()
	}
	w.resize(n * 2)
	w.resize(n/2 + 3)
	w.resize(n)
	w.clear()
}

// H_clear: bitmaps of many sizes and patterns are cleared, then any bit is set.
func H_clear() {
	sizes := []uint64{1, 64, 65, 72, 100, 120, 136, 200, 264, 520, 1032, 2056}
	w := full(sizes[nd.Choice(nd.Param("sizes", 9, 12))], nd.Choice(2))
	switch nd.Choice(3) {
	case 1:
		w.resize(w.size / 2)
	case 2:
		w.resize(w.size + 9)
	}
	w.clear()
	w.set(nd.Uint64())
}

// H_seq: every sequence of calls on bitmaps of several sizes, single bits read on the way, all of them at the end.
func H_seq() {
	n := []uint64{0, 8, 24, 64, 136, 520}[nd.Choice(6)]
	b, on := bitmap.New(n), make([]bool, 1100)
	for k := nd.Param("k", 4, 5); k > 0; k-- {
		c := nd.Choice(10)
		p := []uint64{0, n / 2, n - 1, n}[c%4]
		switch {
		case c < 4:
			nd.Assert(b.Set(p) == (p < n), "Set reports wrongly whether the position is below the size")
			if p < n {
				on[p] = true
			}
		case c == 4 || c == 6:
			nd.Assert(b.Unset(p) == (p < n), "Unset reports wrongly whether the position is below the size")
			if p < n {
				on[p] = false
			}
		case c == 5:
			nd.Assert(b.IsSet(p) == on[p] && b.IsSet(n-1) == (n > 0 && on[n-1]), "IsSet is wrong")
		case c == 7:
			b.Clear()
			on = make([]bool, 1100)
		case c == 8:
			n = round(n/2 + 1)
			b.Resize(n)
			for i := n; i < uint64(len(on)); i++ {
				on[i] = false
			}
		default:
			if n < 500 {
				n = round(n + 60)
				b.Resize(n)
			}
		}
	}
	nd.Assert(b.Size() == n, "Size is wrong")
	d := b.Data()
	for i := uint64(0); i < n+70; i++ {
		nd.Assert(b.IsSet(i) == on[i], "IsSet is wrong")
	}
	c := bitmap.NewFromData(append([]byte(nil), d...))
	nd.Assert(c.Size() == n, "NewFromData has the wrong size")
	for i := uint64(0); i < n; i++ {
		nd.Assert(c.IsSet(i) == on[i], "NewFromData is wrong")
	}
}
