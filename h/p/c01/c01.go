package c01

import (
	"github.com/liyue201/gostl/utils/comparator"

	"verif.local/h/nd"
)

func sgn(x int) int { return nd.B2I(x > 0) - nd.B2I(x < 0) }

// chk: r has the sign described by lt and eq.
func chk(r int, lt, eq bool, what string) {
	nd.Assert(nd.And(nd.Iff(r < 0, lt), nd.Iff(r == 0, eq)), what+": wrong sign")
}

func one[T comparator.Integer](f func(a, b T) int, a, b, c T, what string) {
	ab := f(a, b)
	chk(ab, a < b, a == b, what)
	rv := comparator.Reverse(comparator.Comparator[T](f))
	chk(rv(a, b), a > b, a == b, "Reverse of "+what)
	// laws, independently of the natural order
	ba, bc, ac, aa := f(b, a), f(b, c), f(a, c), f(a, a)
	nd.Assert(aa == 0, what+": not reflexive")
	nd.Assert(sgn(ab) == -sgn(ba), what+": not antisymmetric")
	nd.Assert(nd.Implies(nd.And(ab <= 0, bc <= 0), ac <= 0), what+": not transitive")
}

func H_int() {
	one(comparator.IntComparator, nd.Int(), nd.Int(), nd.Int(), "IntComparator")
	one(comparator.OrderedTypeCmp[int], nd.Int(), nd.Int(), nd.Int(), "OrderedTypeCmp[int]")
}
func H_uint() {
	one(comparator.UintComparator, nd.Uint(), nd.Uint(), nd.Uint(), "UintComparator")
	one(comparator.OrderedTypeCmp[uint], nd.Uint(), nd.Uint(), nd.Uint(), "OrderedTypeCmp[uint]")
}
func H_int8() {
	one(comparator.Int8Comparator, nd.Int8(), nd.Int8(), nd.Int8(), "Int8Comparator")
	one(comparator.OrderedTypeCmp[int8], nd.Int8(), nd.Int8(), nd.Int8(), "OrderedTypeCmp[int8]")
}
func H_uint8() {
	one(comparator.Uint8Comparator, nd.Uint8(), nd.Uint8(), nd.Uint8(), "Uint8Comparator")
	one(comparator.OrderedTypeCmp[uint8], nd.Uint8(), nd.Uint8(), nd.Uint8(), "OrderedTypeCmp[uint8]")
}
func H_int16() {
	one(comparator.Int16Comparator, nd.Int16(), nd.Int16(), nd.Int16(), "Int16Comparator")
	one(comparator.OrderedTypeCmp[int16], nd.Int16(), nd.Int16(), nd.Int16(), "OrderedTypeCmp[int16]")
}
func H_uint16() {
	one(comparator.Uint16Comparator, nd.Uint16(), nd.Uint16(), nd.Uint16(), "Uint16Comparator")
	one(comparator.OrderedTypeCmp[uint16], nd.Uint16(), nd.Uint16(), nd.Uint16(), "OrderedTypeCmp[uint16]")
}
func H_int32() {
	one(comparator.Int32Comparator, nd.Int32(), nd.Int32(), nd.Int32(), "Int32Comparator")
	one(comparator.OrderedTypeCmp[int32], nd.Int32(), nd.Int32(), nd.Int32(), "OrderedTypeCmp[int32]")
}
func H_uint32() {
	one(comparator.Uint32Comparator, nd.Uint32(), nd.Uint32(), nd.Uint32(), "Uint32Comparator")
	one(comparator.OrderedTypeCmp[uint32], nd.Uint32(), nd.Uint32(), nd.Uint32(), "OrderedTypeCmp[uint32]")
}
func H_int64() {
	one(comparator.Int64Comparator, nd.Int64(), nd.Int64(), nd.Int64(), "Int64Comparator")
	one(comparator.OrderedTypeCmp[int64], nd.Int64(), nd.Int64(), nd.Int64(), "OrderedTypeCmp[int64]")
}
func H_uint64() {
	one(comparator.Uint64Comparator, nd.Uint64(), nd.Uint64(), nd.Uint64(), "Uint64Comparator")
	one(comparator.OrderedTypeCmp[uint64], nd.Uint64(), nd.Uint64(), nd.Uint64(), "OrderedTypeCmp[uint64]")
}
func H_uintptr() {
	one(comparator.UintptrComparator, nd.Uintptr(), nd.Uintptr(), nd.Uintptr(), "UintptrComparator")
	one(comparator.OrderedTypeCmp[uintptr], nd.Uintptr(), nd.Uintptr(), nd.Uintptr(), "OrderedTypeCmp[uintptr]")
}

func H_bool() {
	a, b := nd.Bool(), nd.Bool()
	r := comparator.BoolComparator(a, b)
	chk(r, nd.And(!a, b), nd.Iff(a, b), "BoolComparator")
	chk(comparator.Reverse(comparator.Comparator[bool](comparator.BoolComparator))(a, b), nd.And(a, !b), nd.Iff(a, b), "Reverse of BoolComparator")
}

func H_float64() {
	a, b := nd.Float64(), nd.Float64()
	an, bn := a != a, b != b
	lt := nd.Or(nd.And(an, !bn), a < b)
	gt := nd.Or(nd.And(!an, bn), a > b)
	eq := nd.Or(nd.And(an, bn), a == b)
	chk(comparator.Float64Comparator(a, b), lt, eq, "Float64Comparator")
	chk(comparator.Reverse(comparator.Comparator[float64](comparator.Float64Comparator))(a, b), gt, eq, "Reverse of Float64Comparator")
	nd.Assume(!nd.Or(an, bn))
	chk(comparator.OrderedTypeCmp(a, b), lt, eq, "OrderedTypeCmp[float64]")
}

func H_float32() {
	a, b := nd.Float32(), nd.Float32()
	an, bn := a != a, b != b
	lt := nd.Or(nd.And(an, !bn), a < b)
	gt := nd.Or(nd.And(!an, bn), a > b)
	eq := nd.Or(nd.And(an, bn), a == b)
	chk(comparator.Float32Comparator(a, b), lt, eq, "Float32Comparator")
	chk(comparator.Reverse(comparator.Comparator[float32](comparator.Float32Comparator))(a, b), gt, eq, "Reverse of Float32Comparator")
	nd.Assume(!nd.Or(an, bn))
	chk(comparator.OrderedTypeCmp(a, b), lt, eq, "OrderedTypeCmp[float32]")
}

func H_complex128() {
	ar, ai, br, bi := nd.Float64(), nd.Float64(), nd.Float64(), nd.Float64()
	nd.Assume(nd.And(nd.And(ar == ar, ai == ai), nd.And(br == br, bi == bi)))
	lt := nd.Or(ar < br, nd.And(ar == br, ai < bi))
	gt := nd.Or(ar > br, nd.And(ar == br, ai > bi))
	eq := nd.And(ar == br, ai == bi)
	f := comparator.Complex128Comparator
	chk(f(complex(ar, ai), complex(br, bi)), lt, eq, "Complex128Comparator")
	chk(comparator.Reverse(comparator.Comparator[complex128](f))(complex(ar, ai), complex(br, bi)), gt, eq, "Reverse of Complex128Comparator")
}

func H_complex64() {
	ar, ai, br, bi := nd.Float32(), nd.Float32(), nd.Float32(), nd.Float32()
	nd.Assume(nd.And(nd.And(ar == ar, ai == ai), nd.And(br == br, bi == bi)))
	lt := nd.Or(ar < br, nd.And(ar == br, ai < bi))
	gt := nd.Or(ar > br, nd.And(ar == br, ai > bi))
	eq := nd.And(ar == br, ai == bi)
	f := comparator.Complex64Comparator
	chk(f(complex(ar, ai), complex(br, bi)), lt, eq, "Complex64Comparator")
	chk(comparator.Reverse(comparator.Comparator[complex64](f))(complex(ar, ai), complex(br, bi)), gt, eq, "Reverse of Complex64Comparator")
}

func str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Uint8()
	}
	return string(b)
}

func H_string() {
	max := nd.Param("maxlen", 3, 6)
	la, lb := nd.ChoiceIn(0, max), nd.ChoiceIn(0, max)
	a, b := str(la), str(lb)
	lt, gt, eq := false, false, true // bytewise, with eq the prefixes so far
	for i := 0; i < la && i < lb; i++ {
		lt = nd.Or(lt, nd.And(eq, a[i] < b[i]))
		gt = nd.Or(gt, nd.And(eq, a[i] > b[i]))
		eq = nd.And(eq, a[i] == b[i])
	}
	if la < lb {
		lt, eq = nd.Or(lt, eq), false
	} else if la > lb {
		gt, eq = nd.Or(gt, eq), false
	}
	chk(comparator.StringComparator(a, b), lt, eq, "StringComparator")
	chk(comparator.OrderedTypeCmp(a, b), lt, eq, "OrderedTypeCmp[string]")
	chk(comparator.Reverse(comparator.Comparator[string](comparator.StringComparator))(a, b), gt, eq, "Reverse of StringComparator")
}

// Reverse of a comparator with results of any magnitude.
func H_reverse() {
	neg, pos := nd.Int(), nd.Int()
	nd.Assume(nd.And(neg < 0, pos > 0))
	a, b := nd.Int(), nd.Int()
	c := func(a, b int) int { return nd.IteInt(a < b, neg, nd.IteInt(a == b, 0, pos)) }
	chk(comparator.Reverse(comparator.Comparator[int](c))(a, b), a > b, a == b, "Reverse of a comparator with arbitrary magnitudes")
	chk(comparator.Reverse(comparator.Reverse(comparator.Comparator[int](c)))(a, b), a < b, a == b, "double Reverse")
}
