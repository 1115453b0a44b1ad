package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// Value is one register or memory cell.
//
//	ints/bools/floats : concrete in N (ints normalised to 64 bit), symbolic in P=*Term
//	strings           : P=nil "" | string | *SymStr
//	pointers          : P=nil | *Obj with N=cell offset | *SymPtr
//	slices            : P=nil | *SliceVal
//	interfaces        : P=nil | *Iface
//	funcs             : P=nil | *Closure
//	maps              : P=nil | *MapVal
//	structs, arrays   : P=*Agg (flattened cells)
//	complex           : P=nil | *Cplx
//	tuples            : P=*Tuple
type Value struct {
	P any
	N uint64
}

type Obj struct {
	id    int
	cells []Value
	hb    []hbCell
}

type SliceVal struct {
	obj *Obj
	off int // cell offset
	len int
	cap int
}

type SymPtr struct {
	obj  *Obj
	base int
	n    int     // number of candidate elements (1 cell each)
	idx  *Term   // 64-bit, known in [0,n)
	ii   intInfo // element type (w 0: bool)
}

type SymStr struct{ b []Value }

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *Fn
	free []Value
}

type Agg struct{ v []Value }
type Tuple struct{ v []Value }
type Cplx struct{ re, im Value }

type MapVal struct {
	keys []Value
	vals []Value
	kt   types.Type
	idx  map[any]int // concrete keys
	sym  bool        // some key is symbolic
}

type MapIter struct {
	keys []Value
	m    *MapVal
	i    int
	str  string
	isS  bool
}

type RType struct {
	id      int
	t       types.Type
	name    string
	methods sync.Map // string -> *Fn
	impl    sync.Map // types.Type -> bool
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ---- int type info

type intInfo struct {
	w      uint8
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func floatOf(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return 0, false
}
func complexOf(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Complex64:
		return SF32, true
	case types.Complex128, types.UntypedComplex:
		return SF64, true
	}
	return 0, false
}

func norm(v uint64, i intInfo) uint64 {
	switch i.w {
	case 64:
		return v
	case 32:
		if i.signed {
			return uint64(int64(int32(v)))
		}
		return uint64(uint32(v))
	case 16:
		if i.signed {
			return uint64(int64(int16(v)))
		}
		return uint64(uint16(v))
	case 8:
		if i.signed {
			return uint64(int64(int8(v)))
		}
		return uint64(uint8(v))
	}
	return v
}

// term lifts an int value to a term of its width.
func (m *Machine) term(v Value, w uint8) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.tb.BV(v.N, w)
}
func (m *Machine) bterm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.tb.Bool(v.N != 0)
}
func (m *Machine) fterm(v Value, s uint8) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return m.tb.FConst(v.N, s)
}

// fromTerm converts a term back into a Value, folding constants.
func (m *Machine) fromTerm(t *Term, i intInfo) Value {
	if t.isConst() {
		if i.signed {
			return Value{N: uint64(sx(t.val, t.w))}
		}
		return Value{N: t.val}
	}
	return Value{P: t}
}
func fromBool(t *Term) Value {
	if t.isConst() {
		return Value{N: t.val}
	}
	return Value{P: t}
}
func fromF(t *Term) Value {
	if t.isConst() {
		return Value{N: t.val}
	}
	return Value{P: t}
}
func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}
func strLen(v Value) int {
	switch p := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(p)
	case *SymStr:
		return len(p.b)
	}
	panic("strLen")
}
func strByte(v Value, i int) Value {
	switch p := v.P.(type) {
	case string:
		return Value{N: uint64(p[i])}
	case *SymStr:
		return p.b[i]
	}
	panic("strByte")
}
func bytesToStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for _, x := range b {
		if x.P != nil {
			conc = false
			break
		}
	}
	if conc {
		s := make([]byte, len(b))
		for i, x := range b {
			s[i] = byte(x.N)
		}
		return Value{P: string(s)}
	}
	return Value{P: &SymStr{append([]Value(nil), b...)}}
}
func strBytes(v Value) []Value {
	switch p := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(p))
		for i := range r {
			r[i].N = uint64(p[i])
		}
		return r
	case *SymStr:
		return p.b
	}
	panic("strBytes")
}
func concStr(v Value) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return "", true
	case string:
		return p, true
	}
	return "", false
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return m.tb.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return m.tb.ff
	}
	r := m.tb.tt
	for i, n := 0, strLen(a); i < n; i++ {
		r = m.tb.And(r, m.tb.Eq(m.term(strByte(a, i), 8), m.term(strByte(b, i), 8)))
		if r == m.tb.ff {
			return r
		}
	}
	return r
}
func (m *Machine) strLt(a, b Value) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return m.tb.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := m.tb.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strByte(a, i), 8), m.term(strByte(b, i), 8)
		r = m.tb.Or(m.tb.Ult(x, y), m.tb.And(m.tb.Eq(x, y), r))
	}
	return r
}

// equal compares two values of static type t.
// ptrParts is the object a pointer points into and, when it is symbolic, the cell.
func (m *Machine) ptrParts(v Value) (*Obj, *Term) {
	switch p := v.P.(type) {
	case *SymPtr:
		return p.obj, m.tb.Add(p.idx, m.tb.BV(uint64(p.base), 64))
	case *Obj:
		return p, nil
	}
	return nil, nil
}

func (m *Machine) equal(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if i, ok := intOf(u); ok {
			if a.P == nil && b.P == nil {
				return m.tb.Bool(a.N == b.N)
			}
			return m.tb.Eq(m.term(a, i.w), m.term(b, i.w))
		}
		if isBool(u) {
			return m.tb.Eq(m.bterm(a), m.bterm(b))
		}
		if isString(u) {
			return m.strEq(a, b)
		}
		if s, ok := floatOf(u); ok {
			return m.tb.FOp(OFEq, m.fterm(a, s), m.fterm(b, s))
		}
		if s, ok := complexOf(u); ok {
			ar, ai := cparts(a)
			br, bi := cparts(b)
			return m.tb.And(m.tb.FOp(OFEq, m.fterm(ar, s), m.fterm(br, s)), m.tb.FOp(OFEq, m.fterm(ai, s), m.fterm(bi, s)))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return m.tb.Bool(a.P == b.P && a.N == b.N)
		}
	case *types.Pointer:
		ao, at := m.ptrParts(a)
		bo, bt := m.ptrParts(b)
		if ao != nil && bo != nil && (at != nil || bt != nil) {
			if ao != bo {
				return m.tb.ff
			}
			if at == nil {
				at = m.tb.BV(a.N, 64)
			}
			if bt == nil {
				bt = m.tb.BV(b.N, 64)
			}
			return m.tb.Eq(at, bt)
		}
		if at != nil || bt != nil {
			return m.tb.ff // with nil
		}
		return m.tb.Bool(a.P == b.P && a.N == b.N)
	case *types.Chan:
		return m.tb.Bool(a.P == b.P)
	case *types.Signature, *types.Slice, *types.Map:
		// only comparison with nil is legal
		return m.tb.Bool((a.P == nil) == (b.P == nil))
	case *types.Interface:
		if a.P == nil || b.P == nil {
			return m.tb.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return m.tb.ff
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic("comparing uncomparable type " + x.t.t.String())
		}
		return m.equal(x.t.t, x.v, y.v)
	case *types.Struct:
		r := m.tb.tt
		x, y := a.P.(*Agg).v, b.P.(*Agg).v
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := cellsOf(ft)
			if u.Field(i).Name() != "_" {
				r = m.tb.And(r, m.equal(ft, sub(x, o, n, ft), sub(y, o, n, ft)))
			}
			o += n
		}
		return r
	case *types.Array:
		r := m.tb.tt
		x, y := a.P.(*Agg).v, b.P.(*Agg).v
		n := cellsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = m.tb.And(r, m.equal(u.Elem(), sub(x, i*n, n, u.Elem()), sub(y, i*n, n, u.Elem())))
		}
		return r
	}
	m.unsupported("equality on " + t.String())
	return nil
}

func sub(cells []Value, off, n int, t types.Type) Value {
	if isAgg(t) {
		return Value{P: &Agg{cells[off : off+n : off+n]}}
	}
	return cells[off]
}

func cparts(v Value) (Value, Value) {
	if v.P == nil {
		return Value{}, Value{}
	}
	c := v.P.(*Cplx)
	return c.re, c.im
}

// debug formatting of a value
func (m *Machine) show(t types.Type, v Value, model []uint64) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if i, ok := intOf(u); ok {
			n := v.N
			if v.P != nil {
				tm := v.P.(*Term)
				n = m.tb.Eval(tm, model)
				if i.signed {
					n = uint64(sx(n, tm.w))
				}
			}
			if i.signed {
				return fmt.Sprint(int64(n))
			}
			return fmt.Sprint(n)
		}
		if isBool(u) {
			if v.P != nil {
				return fmt.Sprint(m.tb.Eval(v.P.(*Term), model) == 1)
			}
			return fmt.Sprint(v.N == 1)
		}
		if isString(u) {
			var sb strings.Builder
			for _, c := range strBytes(v) {
				n := c.N
				if c.P != nil {
					n = m.tb.Eval(c.P.(*Term), model)
				}
				sb.WriteByte(byte(n))
			}
			return sb.String()
		}
		if s, ok := floatOf(u); ok {
			n := v.N
			if v.P != nil {
				n = m.tb.Eval(v.P.(*Term), model)
			}
			return fmt.Sprint(fval(n, s))
		}
	}
	return "?"
}
