package main

// Hash-consed SMT terms (bit-vectors, booleans, IEEE floats) with constant
// folding, an SMT-LIB2 printer and an evaluator under a model.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // val
	OVar             // val = variable index
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OSlt
	OZExt
	OSExt
	OExtract // val = lo ; width = w
	OConcat
	OFFromBits // BV -> FP
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFToF  // FP -> FP other width
	OFToBV // unused placeholder (unsupported)
)

const (
	SBool = 0
	SF32  = 132
	SF64  = 164
)

type Term struct {
	op      Op
	w       uint8
	id      uint32
	a, b, c *Term
	val     uint64
	size    int32
	hasFP   bool
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

type TermTable struct {
	m       map[termKey]*Term
	next    uint32
	tt, ff  *Term
	evalGen uint32
	evalVal []uint64
	evalEp  []uint32
}

func NewTermTable() *TermTable {
	t := &TermTable{m: map[termKey]*Term{}, next: 1}
	t.tt = t.mk(OConst, SBool, nil, nil, nil, 1)
	t.ff = t.mk(OConst, SBool, nil, nil, nil, 0)
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tb *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tb.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: tb.next, size: 1}
	tb.next++
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			if t.size > 1<<29 {
				t.size = 1 << 29
			}
			t.hasFP = t.hasFP || x.hasFP
		}
	}
	if w == SF32 || w == SF64 {
		t.hasFP = true
	}
	tb.m[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tb *TermTable) BV(v uint64, w uint8) *Term { return tb.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (tb *TermTable) Bool(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TermTable) Var(idx int, w uint8) *Term {
	return tb.mk(OVar, w, nil, nil, nil, uint64(idx))
}
func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tb.mk(ONot, SBool, a, nil, nil, 0)
}
func (tb *TermTable) And(a, b *Term) *Term {
	if a == tb.ff || b == tb.ff {
		return tb.ff
	}
	if a == tb.tt {
		return b
	}
	if b == tb.tt || a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, SBool, a, b, nil, 0)
}
func (tb *TermTable) Or(a, b *Term) *Term {
	if a == tb.tt || b == tb.tt {
		return tb.tt
	}
	if a == tb.ff {
		return b
	}
	if b == tb.ff || a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, SBool, a, b, nil, 0)
}
func (tb *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tt
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == SBool {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
		switch a.op {
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				l, r := a.b.val == b.val, a.c.val == b.val
				switch {
				case l && r:
					return tb.tt
				case l:
					return a.a
				case r:
					return tb.Not(a.a)
				default:
					return tb.ff
				}
			}
			if a.b.isConst() && a.b.val != b.val {
				return tb.And(tb.Not(a.a), tb.Eq(a.c, b))
			}
			if a.c.isConst() && a.c.val != b.val {
				return tb.And(a.a, tb.Eq(a.b, b))
			}
		case OZExt:
			if b.val > mask(a.a.w) {
				return tb.ff
			}
			return tb.Eq(a.a, tb.BV(b.val, a.a.w))
		case OSExt:
			lo := b.val & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.val {
				return tb.ff
			}
			return tb.Eq(a.a, tb.BV(lo, a.a.w))
		case OAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.BV(b.val-a.b.val, a.w))
			}
			if b.val == 0 && a.b.op == ONeg {
				return tb.Eq(a.a, a.b.a)
			}
			if b.val == 0 && a.a.op == ONeg {
				return tb.Eq(a.a.a, a.b)
			}
		case ONeg:
			return tb.Eq(a.a, tb.BV(-b.val, a.w))
		case OBNot:
			return tb.Eq(a.a, tb.BV(^b.val, a.w))
		}
	} else if a.op == b.op && (a.op == OZExt || a.op == OSExt) && a.a.w == b.a.w {
		return tb.Eq(a.a, b.a)
	}
	if a.w != SBool {
		if r := tb.narrowCmp(OEq, a, b); r != nil {
			return r
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tb.mk(OEq, SBool, a, b, nil, 0)
}
func (tb *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == SBool {
		if a == tb.tt {
			return tb.Or(c, b)
		}
		if a == tb.ff {
			return tb.And(tb.Not(c), b)
		}
		if b == tb.tt {
			return tb.Or(tb.Not(c), a)
		}
		if b == tb.ff {
			return tb.And(c, a)
		}
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	return tb.mk(OIte, a.w, c, a, b, 0)
}
func (tb *TermTable) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.val+b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return tb.Add(a.a, tb.BV(a.b.val+b.val, a.w))
		}
		return tb.mk(OAdd, a.w, a, b, nil, 0)
	}
	if a.op == ONeg && a.a == b || b.op == ONeg && b.a == a {
		return tb.BV(0, a.w)
	}
	if a.op == OAdd && a.b.isConst() {
		return tb.Add(tb.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return tb.Add(tb.Add(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAdd, a.w, a, b, nil, 0)
}
func (tb *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.BV(-a.val, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	if a.op == OAdd && a.b.isConst() {
		return tb.Add(tb.Neg(a.a), tb.BV(-a.b.val, a.w))
	}
	return tb.mk(ONeg, a.w, a, nil, nil, 0)
}
func (tb *TermTable) Sub(a, b *Term) *Term {
	if a == b {
		return tb.BV(0, a.w)
	}
	return tb.Add(a, tb.Neg(b))
}

func foldBin(op Op, x, y uint64, w uint8) uint64 {
	switch op {
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OSDiv:
		if y == 0 {
			if sx(x, w) < 0 {
				return 1
			}
			return mask(w)
		}
		if sx(y, w) == -1 {
			return -x
		}
		return uint64(sx(x, w) / sx(y, w))
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSRem:
		if y == 0 {
			return x
		}
		if sx(y, w) == -1 {
			return 0
		}
		return uint64(sx(x, w) % sx(y, w))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w) >> y)
	}
	panic("foldBin")
}

func (tb *TermTable) Bin(op Op, a, b *Term) *Term {
	if op == OAdd {
		return tb.Add(a, b)
	}
	if a.isConst() && b.isConst() {
		return tb.BV(foldBin(op, a.val, b.val, a.w), a.w)
	}
	comm := op == OMul || op == OBAnd || op == OBOr || op == OBXor
	if comm && a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
			if v == mask(a.w) {
				return tb.Neg(a)
			}
			if bits.OnesCount64(v) == 1 {
				return tb.Bin(OShl, a, tb.BV(uint64(bits.TrailingZeros64(v)), a.w))
			}
		case OUDiv:
			if v == 1 {
				return a
			}
			if bits.OnesCount64(v) == 1 {
				return tb.Bin(OLShr, a, tb.BV(uint64(bits.TrailingZeros64(v)), a.w))
			}
		case OSDiv:
			if v == 1 {
				return a
			}
		case OURem:
			if bits.OnesCount64(v) == 1 {
				return tb.Bin(OBAnd, a, tb.BV(v-1, a.w))
			}
		case OBAnd:
			if v == 0 {
				return b
			}
			if v == mask(a.w) {
				return a
			}
			// low mask: zext(extract)
			if v&(v+1) == 0 {
				n := uint8(bits.Len64(v))
				return tb.ZExt(tb.Extract(a, 0, n), a.w)
			}
		case OBOr:
			if v == 0 {
				return a
			}
			if v == mask(a.w) {
				return b
			}
		case OBXor:
			if v == 0 {
				return a
			}
			if v == mask(a.w) {
				return tb.BNot(a)
			}
		case OShl:
			if v == 0 {
				return a
			}
			if v >= uint64(a.w) {
				return tb.BV(0, a.w)
			}
			return tb.Concat(tb.Extract(a, 0, a.w-uint8(v)), tb.BV(0, uint8(v)))
		case OLShr:
			if v == 0 {
				return a
			}
			if v >= uint64(a.w) {
				return tb.BV(0, a.w)
			}
			return tb.ZExt(tb.Extract(a, uint8(v), a.w-uint8(v)), a.w)
		case OAShr:
			if v == 0 {
				return a
			}
			if v >= uint64(a.w) {
				v = uint64(a.w) - 1
			}
			return tb.SExt(tb.Extract(a, uint8(v), a.w-uint8(v)), a.w)
		}
	}
	if a.isConst() && a.val == 0 && (op == OShl || op == OLShr || op == OAShr) {
		return a
	}
	if a == b {
		switch op {
		case OBAnd, OBOr:
			return a
		case OBXor:
			return tb.BV(0, a.w)
		}
	}
	if op == OBOr {
		// (zext/concat with disjoint zero halves) -> keep simple: concat(x,0)|zext(y)
		if r := tb.orConcat(a, b); r != nil {
			return r
		}
		if r := tb.orConcat(b, a); r != nil {
			return r
		}
	}
	if comm && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, a.w, a, b, nil, 0)
}

// orConcat: concat(x, 0_k) | zext(y) with y.w <= k  ==> concat(x, zext(y,k))
// and       zext(concat(x,0_k)) likewise.
func (tb *TermTable) orConcat(a, b *Term) *Term {
	if b.op != OZExt {
		return nil
	}
	hi := a
	ext := uint8(0)
	if a.op == OZExt {
		hi = a.a
		ext = a.w - hi.w
	}
	if hi.op != OConcat || !hi.b.isConst() || hi.b.val != 0 || b.a.w > hi.b.w {
		return nil
	}
	r := tb.Concat(hi.a, tb.ZExt(b.a, hi.b.w))
	if ext > 0 {
		r = tb.ZExt(r, a.w)
	}
	return r
}

func (tb *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.BV(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, a.w, a, nil, nil, 0)
}
func (tb *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return tb.ff
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 0 {
		return tb.ff
	}
	if a.isConst() && a.val == mask(a.w) {
		return tb.ff
	}
	if a.op == OZExt && b.isConst() {
		if b.val > mask(a.a.w) {
			return tb.tt
		}
		return tb.Ult(a.a, tb.BV(b.val, a.a.w))
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	return tb.mk(OUlt, SBool, a, b, nil, 0)
}
func (tb *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tb.ff
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if b.isConst() && b.val == uint64(1)<<(b.w-1) {
		return tb.ff
	}
	if a.isConst() && a.val == mask(a.w)>>1 {
		return tb.ff
	}
	if a.op == OZExt && a.a.w < a.w && b.isConst() {
		s := sx(b.val, b.w)
		if s <= 0 {
			return tb.ff
		}
		return tb.Ult(a, b)
	}
	if b.op == OZExt && b.a.w < b.w && a.isConst() {
		if sx(a.val, a.w) < 0 {
			return tb.tt
		}
		return tb.Ult(a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w && a.a.w < a.w {
		return tb.Ult(a.a, b.a)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return tb.Slt(a.a, b.a)
	}
	if r := tb.narrowCmp(OSlt, a, b); r != nil {
		return r
	}
	return tb.mk(OSlt, SBool, a, b, nil, 0)
}

// rng bounds the signed value of a term; ok is false when nothing useful is
// known. Bounds stay within 2^40, so sums below cannot overflow.
func (tb *TermTable) rng(t *Term, d int) (lo, hi int64, ok bool) {
	const lim = int64(1) << 40
	switch t.op {
	case OConst:
		v := sx(t.val, t.w)
		return v, v, v >= -lim && v <= lim
	case OSExt:
		if t.a.w <= 32 {
			return -(int64(1) << (t.a.w - 1)), int64(1)<<(t.a.w-1) - 1, true
		}
	case OZExt:
		if t.a.w <= 32 {
			return 0, int64(1)<<t.a.w - 1, true
		}
	case OAdd:
		if d > 0 {
			l1, h1, k1 := tb.rng(t.a, d-1)
			l2, h2, k2 := tb.rng(t.b, d-1)
			if k1 && k2 {
				l, h := l1+l2, h1+h2
				return l, h, l >= -lim && h <= lim && (t.w >= 48 || l >= -(int64(1)<<(t.w-1)) && h < int64(1)<<(t.w-1))
			}
		}
	case ONeg:
		if d > 0 {
			l, h, k := tb.rng(t.a, d-1)
			return -h, -l, k && (t.w >= 48 || -l < int64(1)<<(t.w-1))
		}
	case OIte:
		if d > 0 {
			l1, h1, k1 := tb.rng(t.b, d-1)
			l2, h2, k2 := tb.rng(t.c, d-1)
			if k1 && k2 {
				return min(l1, l2), max(h1, h2), true
			}
		}
	}
	return 0, 0, false
}

// at rebuilds a term with a known range at a smaller width.
func (tb *TermTable) at(t *Term, w uint8) *Term {
	switch t.op {
	case OConst:
		return tb.BV(t.val, w)
	case OSExt:
		if t.a.w > w {
			return tb.Extract(t.a, 0, w)
		}
		return tb.SExt(t.a, w)
	case OZExt:
		if t.a.w > w {
			return tb.Extract(t.a, 0, w)
		}
		return tb.ZExt(t.a, w)
	case OAdd:
		return tb.Add(tb.at(t.a, w), tb.at(t.b, w))
	case ONeg:
		return tb.Neg(tb.at(t.a, w))
	case OIte:
		return tb.Ite(t.a, tb.at(t.b, w), tb.at(t.c, w))
	}
	panic("at")
}

// narrowCmp decides or shrinks a comparison of terms with small ranges.
func (tb *TermTable) narrowCmp(op Op, a, b *Term) *Term {
	const depth = 6
	l1, h1, k1 := tb.rng(a, depth)
	if !k1 {
		return nil
	}
	l2, h2, k2 := tb.rng(b, depth)
	if !k2 {
		return nil
	}
	if op == OSlt {
		if h1 < l2 {
			return tb.tt
		}
		if l1 >= h2 {
			return tb.ff
		}
	} else if h1 < l2 || h2 < l1 {
		return tb.ff
	}
	// x - y < 0, 0 < x - y
	if op == OSlt && b.isConst() && b.val == 0 && a.op == OAdd {
		if a.b.op == ONeg {
			return tb.Slt(a.a, a.b.a)
		}
		if a.a.op == ONeg {
			return tb.Slt(a.b, a.a.a)
		}
	}
	if op == OSlt && a.isConst() && a.val == 0 && b.op == OAdd {
		if b.b.op == ONeg {
			return tb.Slt(b.b.a, b.a)
		}
		if b.a.op == ONeg {
			return tb.Slt(b.a.a, b.b)
		}
	}
	// x + c1 < c2
	if op == OSlt && b.isConst() && a.op == OAdd && a.b.isConst() {
		return tb.Slt(a.a, tb.BV(b.val-a.b.val, a.w))
	}
	if op == OSlt && a.isConst() && b.op == OAdd && b.b.isConst() {
		return tb.Slt(tb.BV(a.val-b.b.val, a.w), b.a)
	}
	lo, hi := min(l1, l2), max(h1, h2)
	w := uint8(bits.Len64(uint64(max(hi, -lo-1)))) + 1
	// intermediate sums may exceed the final range only modulo 2^w, which is
	// harmless: the value is determined modulo 2^w and fits.
	if w < a.w {
		x, y := tb.at(a, w), tb.at(b, w)
		if op == OSlt {
			return tb.Slt(x, y)
		}
		return tb.Eq(x, y)
	}
	return nil
}
func (tb *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.BV(a.val, w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a, w)
	}
	return tb.mk(OZExt, w, a, nil, nil, 0)
}
func (tb *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.BV(uint64(sx(a.val, a.w)), w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == OSExt {
		return tb.SExt(a.a, w)
	}
	return tb.mk(OSExt, w, a, nil, nil, 0)
}
func (tb *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return tb.BV(a.val>>lo, w)
	}
	switch a.op {
	case OExtract:
		return tb.Extract(a.a, uint8(a.val)+lo, w)
	case OZExt:
		if lo >= a.a.w {
			return tb.BV(0, w)
		}
		if lo+w <= a.a.w {
			return tb.Extract(a.a, lo, w)
		}
		return tb.ZExt(tb.Extract(a.a, lo, a.a.w-lo), w)
	case OSExt:
		if lo+w <= a.a.w {
			return tb.Extract(a.a, lo, w)
		}
	case OConcat:
		if lo+w <= a.b.w {
			return tb.Extract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, lo-a.b.w, w)
		}
		return tb.Concat(tb.Extract(a.a, 0, lo+w-a.b.w), tb.Extract(a.b, lo, a.b.w-lo))
	case OBAnd, OBOr, OBXor:
		return tb.Bin(a.op, tb.Extract(a.a, lo, w), tb.Extract(a.b, lo, w))
	case OBNot:
		return tb.BNot(tb.Extract(a.a, lo, w))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Extract(a.b, lo, w), tb.Extract(a.c, lo, w))
		}
	case OAdd, OMul:
		if lo == 0 {
			return tb.Bin(a.op, tb.Extract(a.a, 0, w), tb.Extract(a.b, 0, w))
		}
	}
	return tb.mk(OExtract, w, a, nil, nil, uint64(lo))
}
func (tb *TermTable) Concat(a, b *Term) *Term { // a high, b low
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tb.BV(a.val<<b.w|b.val, w)
	}
	if a.isConst() && a.val == 0 {
		return tb.ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.val == b.val+uint64(b.w) {
		return tb.Extract(a.a, uint8(b.val), w)
	}
	// right-nested merging: concat(concat(x, ext), ext)
	if a.op == OConcat && a.b.op == OExtract && b.op == OExtract && a.b.a == b.a && a.b.val == b.val+uint64(b.w) {
		return tb.Concat(a.a, tb.Extract(b.a, uint8(b.val), a.b.w+b.w))
	}
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a && a.val == b.a.val+uint64(b.a.w) {
		return tb.Concat(tb.Extract(a.a, uint8(b.a.val), a.w+b.a.w), b.b)
	}
	if a.op == OZExt {
		return tb.ZExt(tb.Concat(a.a, b), w)
	}
	return tb.mk(OConcat, w, a, b, nil, 0)
}

// ---- floats

func fw(w uint8) uint8 {
	if w == SF32 {
		return 32
	}
	return 64
}
func (tb *TermTable) FConst(bitsv uint64, s uint8) *Term {
	return tb.mk(OConst, s, nil, nil, nil, bitsv)
}
func (tb *TermTable) FFromBits(a *Term, s uint8) *Term {
	if a.isConst() {
		return tb.FConst(a.val, s)
	}
	return tb.mk(OFFromBits, s, a, nil, nil, 0)
}
func fval(v uint64, s uint8) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, s uint8) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func foldF(op Op, x, y uint64, s uint8) uint64 {
	a, b := fval(x, s), fval(y, s)
	bo := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch op {
	case OFLt:
		return bo(a < b)
	case OFLe:
		return bo(a <= b)
	case OFEq:
		return bo(a == b)
	case OFIsNaN:
		return bo(a != a)
	}
	if s == SF32 {
		p, q := float32(a), float32(b)
		switch op {
		case OFAdd:
			return fbits(float64(p+q), s)
		case OFSub:
			return fbits(float64(p-q), s)
		case OFMul:
			return fbits(float64(p*q), s)
		case OFDiv:
			return fbits(float64(p/q), s)
		}
	}
	switch op {
	case OFAdd:
		return fbits(a+b, s)
	case OFSub:
		return fbits(a-b, s)
	case OFMul:
		return fbits(a*b, s)
	case OFDiv:
		return fbits(a/b, s)
	case OFNeg:
		return fbits(-a, s)
	}
	panic("foldF")
}
func (tb *TermTable) FOp(op Op, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bv uint64
		if b != nil {
			bv = b.val
		}
		r := foldF(op, a.val, bv, a.w)
		switch op {
		case OFLt, OFLe, OFEq, OFIsNaN:
			return tb.Bool(r == 1)
		}
		return tb.FConst(r, a.w)
	}
	switch op {
	case OFLt, OFLe, OFEq, OFIsNaN:
		if op == OFEq && a == b {
			return tb.Not(tb.FOp(OFIsNaN, a, nil))
		}
		if op == OFLt && a == b {
			return tb.ff
		}
		if op == OFEq && a.id > b.id {
			a, b = b, a
		}
		return tb.mk(op, SBool, a, b, nil, 0)
	}
	return tb.mk(op, a.w, a, b, nil, 0)
}
func (tb *TermTable) FConv(a *Term, s uint8) *Term {
	if a.w == s {
		return a
	}
	if a.isConst() {
		return tb.FConst(fbits(fval(a.val, a.w), s), s)
	}
	return tb.mk(OFToF, s, a, nil, nil, 0)
}

// ---- evaluation under a model

func (tb *TermTable) beginEval() {
	tb.evalGen++
	if int(tb.next) > len(tb.evalVal) {
		n := int(tb.next)*2 + 1024
		v := make([]uint64, n)
		copy(v, tb.evalVal)
		e := make([]uint32, n)
		copy(e, tb.evalEp)
		tb.evalVal, tb.evalEp = v, e
	}
}

// Eval evaluates t under model (indexed by variable index; missing = 0).
func (tb *TermTable) Eval(t *Term, model []uint64) uint64 {
	tb.beginEval()
	return tb.ev(t, model)
}
func (tb *TermTable) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(m) {
			return m[t.val] & maskS(t.w)
		}
		return 0
	}
	if tb.evalEp[t.id] == tb.evalGen {
		return tb.evalVal[t.id]
	}
	var r uint64
	switch t.op {
	case ONot:
		r = tb.ev(t.a, m) ^ 1
	case OAnd:
		r = tb.ev(t.a, m)
		if r == 1 {
			r = tb.ev(t.b, m)
		}
	case OOr:
		r = tb.ev(t.a, m)
		if r == 0 {
			r = tb.ev(t.b, m)
		}
	case OEq:
		if tb.ev(t.a, m) == tb.ev(t.b, m) {
			r = 1
		}
	case OIte:
		if tb.ev(t.a, m) == 1 {
			r = tb.ev(t.b, m)
		} else {
			r = tb.ev(t.c, m)
		}
	case OAdd:
		r = (tb.ev(t.a, m) + tb.ev(t.b, m)) & mask(t.w)
	case OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		r = foldBin(t.op, tb.ev(t.a, m), tb.ev(t.b, m), t.w) & mask(t.w)
	case OBNot:
		r = ^tb.ev(t.a, m) & mask(t.w)
	case ONeg:
		r = -tb.ev(t.a, m) & mask(t.w)
	case OUlt:
		if tb.ev(t.a, m) < tb.ev(t.b, m) {
			r = 1
		}
	case OSlt:
		if sx(tb.ev(t.a, m), t.a.w) < sx(tb.ev(t.b, m), t.b.w) {
			r = 1
		}
	case OZExt:
		r = tb.ev(t.a, m)
	case OSExt:
		r = uint64(sx(tb.ev(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = (tb.ev(t.a, m) >> t.val) & mask(t.w)
	case OConcat:
		r = tb.ev(t.a, m)<<t.b.w | tb.ev(t.b, m)
	case OFFromBits:
		r = tb.ev(t.a, m)
	case OFLt, OFLe, OFEq, OFAdd, OFSub, OFMul, OFDiv:
		r = foldF(t.op, tb.ev(t.a, m), tb.ev(t.b, m), t.a.w)
	case OFIsNaN, OFNeg:
		r = foldF(t.op, tb.ev(t.a, m), 0, t.a.w)
	case OFToF:
		r = fbits(fval(tb.ev(t.a, m), t.a.w), t.w)
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	tb.evalEp[t.id] = tb.evalGen
	tb.evalVal[t.id] = r
	return r
}
func maskS(w uint8) uint64 {
	if w == SBool {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OSlt: "bvslt",
	OConcat: "concat", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFNeg: "fp.neg",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE"}

func sortStr(w uint8) string {
	switch w {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func fpDims(w uint8) string {
	if w == SF32 {
		return "8 24"
	}
	return "11 53"
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d", t.val, t.w) }

// emitter prints a term, naming shared sub-terms through emit callbacks.
type emitter struct {
	sb    *strings.Builder
	named map[uint32]bool // already defined/declared in solver
	log   []uint32
}

func (e *emitter) ref(t *Term, out *strings.Builder) {
	switch t.op {
	case OConst:
		switch {
		case t.w == SBool:
			if t.val == 1 {
				out.WriteString("true")
			} else {
				out.WriteString("false")
			}
		case t.w == SF32 || t.w == SF64:
			fmt.Fprintf(out, "((_ to_fp %s) (_ bv%d %d))", fpDims(t.w), t.val, fw(t.w))
		default:
			fmt.Fprintf(out, "(_ bv%d %d)", t.val, t.w)
		}
	case OVar:
		out.WriteString(varName(t))
	default:
		if e.named[t.id] {
			fmt.Fprintf(out, "t%d", t.id)
			return
		}
		e.body(t, out)
	}
}
func (e *emitter) body(t *Term, out *strings.Builder) {
	out.WriteByte('(')
	switch t.op {
	case OZExt:
		fmt.Fprintf(out, "(_ zero_extend %d)", t.w-t.a.w)
	case OSExt:
		fmt.Fprintf(out, "(_ sign_extend %d)", t.w-t.a.w)
	case OExtract:
		fmt.Fprintf(out, "(_ extract %d %d)", int(t.val)+int(t.w)-1, t.val)
	case OFFromBits:
		fmt.Fprintf(out, "(_ to_fp %s)", fpDims(t.w))
	case OFToF:
		fmt.Fprintf(out, "(_ to_fp %s) RNE", fpDims(t.w))
	default:
		out.WriteString(opName[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			out.WriteByte(' ')
			e.ref(x, out)
		}
	}
	out.WriteByte(')')
}

// prepare declares variables and names larger sub-terms of t (post-order).
func (e *emitter) prepare(t *Term) {
	if t.op == OConst || e.named[t.id] {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(e.sb, "(declare-const %s %s)\n", varName(t), sortStr(t.w))
		e.named[t.id] = true
		e.log = append(e.log, t.id)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			e.prepare(x)
		}
	}
	if t.size > 6 {
		var b strings.Builder
		e.body(t, &b)
		fmt.Fprintf(e.sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), b.String())
		e.named[t.id] = true
		e.log = append(e.log, t.id)
	}
}

// growEval makes room for terms created since beginEval.
func (tb *TermTable) growEval() {
	if int(tb.next) > len(tb.evalVal) {
		n := int(tb.next)*2 + 1024
		v := make([]uint64, n)
		copy(v, tb.evalVal)
		e := make([]uint32, n)
		copy(e, tb.evalEp)
		tb.evalVal, tb.evalEp = v, e
	}
}

// str prints a term in full (diagnostics only).
func (tb *TermTable) str(t *Term) string {
	var b strings.Builder
	e := emitter{sb: &strings.Builder{}, named: map[uint32]bool{}}
	e.ref(t, &b)
	return b.String()
}
