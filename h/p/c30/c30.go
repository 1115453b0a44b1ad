package c30

import (
	"github.com/liyue201/gostl/ds/pair"

	"verif.local/h/nd"
)

// val is a component: a dynamic type and an arbitrary value of it.
type val struct {
	kind int
	i    int
	f    float64
	any  any
}

type point struct {
	x int
	y string
}

type myInt int

var texts = []string{"", "a", "b"}

var cells [2]int

const kinds = 12

func mk(kind int) val {
	v := val{kind: kind}
	switch kind {
	case 0: // nil
	case 1:
		v.i = nd.Int()
		v.any = v.i
	case 2:
		x := nd.Uint8()
		v.i, v.any = int(x), x
	case 3:
		x := nd.Bool()
		v.i, v.any = nd.B2I(x), x
	case 4:
		v.i = nd.Pick(len(texts))
		v.any = texts[v.i]
	case 5:
		v.f = nd.Float64()
		v.any = v.f
	case 6:
		v.i = nd.Int()
		v.any = myInt(v.i)
	case 7:
		x := nd.Pick(2)
		y := nd.Int8()
		v.i, v.any = int(y)*2+x, point{int(y), texts[x]}
	case 8:
		v.i = nd.Choice(2)
		v.any = &cells[v.i]
	case 9:
		a, b := nd.Int16(), nd.Int16()
		v.i, v.any = int(a)<<16|int(uint16(b)), [2]int16{a, b}
	case 10:
		x := nd.Int64()
		v.i, v.any = int(x), x
	default:
		x := nd.Int8()
		v.i, v.any = int(x), any(point{int(x), ""}) // the same type as kind 7, without text
		v.kind, v.i = 7, int(x)*2
	}
	return v
}

func eq(a, b val) bool {
	if a.kind != b.kind {
		return false
	}
	if a.kind == 5 {
		return a.f == b.f
	}
	return a.i == b.i
}

// same tells whether a component is still what was put in (a NaN is not
// equal to itself, but still there).
func same(got any, v val) bool {
	if v.kind == 5 {
		f, ok := got.(float64)
		return ok && nd.Or(f == v.f, nd.And(f != f, v.f != v.f))
	}
	return got == v.any
}

func holds(p *pair.Pair, f, b val, msg string) {
	nd.Assert(same(p.Front, f) && same(p.Back, b), msg+": the fields")
	nd.Assert(same(p.Fronts(), f), msg+": Fronts")
	nd.Assert(same(p.Backs(), b), msg+": Backs")
}

// H_hold: a pair made or reset holds what it was given.
func H_hold() {
	a, b, c, d := mk(nd.Choice(kinds)), mk(nd.Choice(kinds)), mk(nd.Choice(kinds)), mk(nd.Choice(kinds))
	p := pair.MakePair(a.any, b.any)
	holds(p, a, b, "made")
	q := pair.MakePair(c.any, a.any)
	p.New(c.any, d.any)
	holds(p, c, d, "reset")
	holds(q, c, a, "another one")
	p.New(b.any, b.any)
	holds(p, b, b, "reset again")
}

// H_equal: equality of the same kinds of components, of any values.
func H_equal() {
	k, l := nd.Choice(kinds), nd.Choice(kinds)
	compare(mk(k), mk(l), mk(k), mk(l))
}

// H_kinds: equality across kinds.
func H_kinds() {
	compare(mk(nd.Choice(kinds)), mk(nd.Choice(kinds)), mk(nd.Choice(kinds)), mk(nd.Choice(kinds)))
}

func compare(a, b, c, d val) {
	p, q := pair.MakePair(a.any, b.any), pair.MakePair(c.any, d.any)
	want := nd.And(eq(a, c), eq(b, d))
	nd.Assert(p.Equal(*q) == want, "Equal is not the equality of both components")
	nd.Assert(q.Equal(*p) == want, "Equal is not symmetric")
	holds(p, a, b, "after Equal")
	holds(q, c, d, "after Equal")
	nd.Assert(p.Equal(*p) == nd.And(eq(a, a), eq(b, b)), "a pair is not equal to itself")
	// crossed components
	x := pair.MakePair(b.any, a.any)
	nd.Assert(p.Equal(*x) == nd.And(eq(a, b), eq(b, a)), "Equal with the components exchanged")
}
