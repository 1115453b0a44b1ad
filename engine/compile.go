package main

// Lowers go/ssa functions to a compact register code that the machine runs.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opc uint8

const (
	opNop opc = iota
	opAlloc
	opIntBin // fast integer arithmetic / comparison
	opBin    // generic
	opLoad
	opStore
	opNot
	opNeg
	opCompl
	opFieldAddr
	opField
	opIndexAddrS // slice
	opIndexAddrA // pointer to array
	opIndex
	opJump
	opIf
	opReturn
	opCall
	opInvoke
	opCallClosure
	opBuiltin
	opGo
	opDefer
	opRunDefers
	opPanic
	opMakeIface
	opTypeAssert
	opExtract
	opMakeSlice
	opMakeMap
	opMakeClosure
	opSlice
	opConvert
	opMove
	opMapUpdate
	opLookup
	opRange
	opNext
	opSliceToArr
	opUnsupported
)

type move struct{ dst, src int32 }

type edge struct {
	pc       int32
	moves    []move
	conflict bool
}

type Instr struct {
	op    opc
	tok   token.Token
	w     uint8
	sg    bool
	cok   bool // CommaOk etc.
	dst   int32
	a, b  int32
	c, d  int32
	n     int32
	n2    int32
	t     types.Type
	t2    types.Type
	rt    *RType
	fn    *Fn
	args  []int32
	e1    *edge
	e2    *edge
	s     string
	ii    intInfo
	ei    intInfo // element type for symbolic indexing
	pos   token.Pos
	meth  *types.Func
	inner *Instr
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	code     []Instr
	consts   []Value
	globs    []globReg
	recoverP int32 // pc of recover block, -1 none
	results  []types.Type
	intr     intrinsic
	ready    atomic.Bool
	norace   bool
	bodyless bool
	used     atomic.Bool
	isInit   bool
	initStd  bool // init of std package: run once per worker
	idx      int
}

type globReg struct {
	reg int32
	idx int
}

type GlobInfo struct {
	g       *ssa.Global
	persist bool // belongs to a std package
	t       types.Type
	n       int
}

// Shared holds everything shared between workers.
type Shared struct {
	mu    sync.Mutex
	P     *Program
	fns   map[*ssa.Function]*Fn
	allF  []*Fn
	globs []*GlobInfo
	gidx  map[*ssa.Global]int
	rts   typeutil.Map
	nrt   int
	intr  map[string]intrinsic
}

func NewShared(P *Program) *Shared {
	return &Shared{P: P, fns: map[*ssa.Function]*Fn{}, gidx: map[*ssa.Global]int{}, intr: intrinsics()}
}

var cellCache sync.Map

func cellsOf(t types.Type) int {
	if n, ok := cellCache.Load(t); ok {
		return n.(int)
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellsOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * cellsOf(u.Elem())
	}
	cellCache.Store(t, n)
	return n
}

func fieldOff(st *types.Struct, i int) int {
	o := 0
	for k := 0; k < i; k++ {
		o += cellsOf(st.Field(k).Type())
	}
	return o
}

func (s *Shared) rtype(t types.Type) *RType {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rtypeL(t)
}
func (s *Shared) rtypeL(t types.Type) *RType {
	t = types.Unalias(t)
	if r := s.rts.At(t); r != nil {
		return r.(*RType)
	}
	s.nrt++
	r := &RType{id: s.nrt, t: t, name: t.String()}
	s.rts.Set(t, r)
	return r
}

// method resolves method m on dynamic type r (nil if absent).
func (s *Shared) method(r *RType, m *types.Func) *Fn {
	key := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		key = m.Pkg().Path() + "." + key
	}
	if f, ok := r.methods.Load(key); ok {
		return f.(*Fn)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	fn := s.P.prog.LookupMethod(r.t, m.Pkg(), m.Name())
	if fn == nil {
		return nil
	}
	f := s.fnL(fn)
	r.methods.Store(key, f)
	return f
}

func (s *Shared) implements(r *RType, it types.Type) bool {
	if v, ok := r.impl.Load(it); ok {
		return v.(bool)
	}
	s.mu.Lock()
	b := types.Implements(r.t, it.Underlying().(*types.Interface))
	s.mu.Unlock()
	r.impl.Store(it, b)
	return b
}

func (s *Shared) fn(f *ssa.Function) *Fn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.fnL(f)
}

func fnPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o != f {
		return fnPkgPath(o)
	}
	if f.Parent() != nil {
		return fnPkgPath(f.Parent())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (s *Shared) fnL(f *ssa.Function) *Fn {
	if r, ok := s.fns[f]; ok {
		return r
	}
	r := &Fn{ssa: f, name: f.String(), nparams: len(f.Params), nfree: len(f.FreeVars), recoverP: -1}
	s.fns[f] = r
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		r.results = append(r.results, res.At(i).Type())
	}
	pp := fnPkgPath(f)
	r.norace = strings.HasPrefix(pp, hmod+"/shim") || strings.HasPrefix(pp, hmod+"/nd")
	name := r.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if to := redirects[name]; to != "" && !strings.HasPrefix(pp, hmod) {
		if nf := s.P.pkgs[hmod+"/nd"].Func(to); nf != nil {
			r.intr = nil
			t := s.fnL(nf)
			s.fns[f] = t
			return t
		}
	}
	if name == "slices.overlaps" && len(f.TypeArgs()) == 1 {
		r.intr = overlaps(cellsOf(f.TypeArgs()[0]))
	} else if in, ok := s.intr[name]; ok {
		r.intr = in
	} else if f.Name() == "init" && f.Synthetic == "package initializer" {
		r.isInit = true
		r.initStd = !strings.HasPrefix(pp, hmod) && !strings.HasPrefix(pp, repoMod)
		if !interpretable(pp) {
			r.intr = func(m *Machine, args []Value) Value { return Value{} }
		}
	} else if pp != "" && !interpretable(pp) || f.Blocks == nil && f.Synthetic == "" {
		n := r.name
		r.intr = func(m *Machine, args []Value) Value {
			m.unsupported("call to " + n)
			return Value{}
		}
		r.bodyless = true
	}
	return r
}

func (s *Shared) glob(g *ssa.Global) int {
	if i, ok := s.gidx[g]; ok {
		return i
	}
	pp := ""
	if g.Pkg != nil {
		pp = g.Pkg.Pkg.Path()
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	gi := &GlobInfo{g: g, t: t, n: cellsOf(t), persist: !strings.HasPrefix(pp, hmod) && !strings.HasPrefix(pp, repoMod)}
	i := len(s.globs)
	s.globs = append(s.globs, gi)
	s.gidx[g] = i
	return i
}

// compile lowers f (once).
func (s *Shared) compile(f *Fn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.ready.Load() {
		return
	}
	c := &comp{s: s, f: f, reg: map[ssa.Value]int32{}, cidx: map[constKey]int32{}}
	c.run()
	s.allF = append(s.allF, f)
	f.ready.Store(true)
}

type constKey struct {
	t types.Type
	s string
}

type comp struct {
	s    *Shared
	f    *Fn
	reg  map[ssa.Value]int32
	cidx map[constKey]int32
	n    int32
	code []Instr
	bpc  []int32
}

func (c *comp) newReg(v ssa.Value) int32 {
	r := c.n
	c.n++
	if v != nil {
		c.reg[v] = r
	}
	return r
}

func (c *comp) addConst(v Value) int32 {
	c.f.consts = append(c.f.consts, v)
	return ^int32(len(c.f.consts) - 1)
}

func (c *comp) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil { // zero value
		return zeroOf(t)
	}
	if tp, ok := t.Underlying().(*types.Interface); ok && tp != nil {
		panic("const of interface type")
	}
	if i, ok := intOf(t); ok {
		v := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Value{N: norm(u, i)}
		}
		x, _ := constant.Int64Val(v)
		return Value{N: norm(uint64(x), i)}
	}
	if isBool(t) {
		return boolV(constant.BoolVal(k.Value))
	}
	if isString(t) {
		if k.Value.Kind() == constant.String {
			return strV(constant.StringVal(k.Value))
		}
		x, _ := constant.Int64Val(k.Value)
		return strV(string(rune(x)))
	}
	if fs, ok := floatOf(t); ok {
		x, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if fs == SF32 {
			y, _ := constant.Float32Val(constant.ToFloat(k.Value))
			return Value{N: uint64(math.Float32bits(y))}
		}
		return Value{N: math.Float64bits(x)}
	}
	if fs, ok := complexOf(t); ok {
		cv := constant.ToComplex(k.Value)
		re, _ := constant.Float64Val(constant.Real(cv))
		im, _ := constant.Float64Val(constant.Imag(cv))
		return Value{P: &Cplx{Value{N: fbits(re, fs)}, Value{N: fbits(im, fs)}}}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	panic(fmt.Sprintf("const %v of type %v", k, t))
}

func zeroOf(t types.Type) Value {
	if isAgg(t) {
		return Value{P: &Agg{make([]Value, cellsOf(t))}}
	}
	if tp, ok := t.(*types.Tuple); ok {
		r := make([]Value, tp.Len())
		for i := range r {
			r[i] = zeroOf(tp.At(i).Type())
		}
		return Value{P: &Tuple{r}}
	}
	return Value{}
}

func (c *comp) opnd(v ssa.Value) int32 {
	if v == nil {
		return 0
	}
	switch k := v.(type) {
	case *ssa.Const:
		return c.addConst(c.constVal(k))
	case *ssa.Function:
		return c.addConst(Value{P: &Closure{fn: c.s.fnL(k)}})
	case *ssa.Global:
		if r, ok := c.reg[v]; ok {
			return r
		}
		r := c.newReg(v)
		c.f.globs = append(c.f.globs, globReg{r, c.s.glob(k)})
		return r
	case *ssa.Builtin:
		return 0
	}
	if r, ok := c.reg[v]; ok {
		return r
	}
	return c.newReg(v)
}

func (c *comp) edge(from, to *ssa.BasicBlock) *edge {
	e := &edge{pc: int32(to.Index)} // patched
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.opnd(phi), c.opnd(phi.Edges[pi])})
	}
	for i := range e.moves {
		for j := i + 1; j < len(e.moves); j++ {
			if e.moves[j].src == e.moves[i].dst {
				e.conflict = true
			}
		}
	}
	return e
}

func (c *comp) run() {
	f := c.f.ssa
	for _, p := range f.Params {
		c.newReg(p)
	}
	for _, p := range f.FreeVars {
		c.newReg(p)
	}
	if f.Blocks == nil {
		n := c.f.name
		c.f.code = []Instr{{op: opUnsupported, s: "no body: " + n}}
		c.f.nregs = int(c.n)
		return
	}
	c.bpc = make([]int32, len(f.Blocks))
	for _, b := range f.Blocks {
		c.bpc[b.Index] = int32(len(c.code))
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
	}
	for i := range c.code {
		if e := c.code[i].e1; e != nil {
			e.pc = c.bpc[e.pc]
		}
		if e := c.code[i].e2; e != nil {
			e.pc = c.bpc[e.pc]
		}
	}
	if f.Recover != nil {
		c.f.recoverP = c.bpc[f.Recover.Index]
	}
	c.f.code = c.code
	c.f.nregs = int(c.n)
}

func (c *comp) emit(i Instr) { c.code = append(c.code, i) }

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (c *comp) call(cc *ssa.CallCommon, in Instr) Instr {
	for _, a := range cc.Args {
		in.args = append(in.args, c.opnd(a))
	}
	in.pos = cc.Pos()
	if cc.IsInvoke() {
		in.op = opInvoke
		in.a = c.opnd(cc.Value)
		in.s = cc.Method.Name()
		in.t2 = cc.Method.Type()
		in.meth = cc.Method
		return in
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		in.op = opBuiltin
		in.s = v.Name()
		if len(cc.Args) > 0 {
			in.t = cc.Args[0].Type()
		}
		if len(cc.Args) > 1 {
			in.t2 = cc.Args[1].Type()
		}
		return in
	case *ssa.Function:
		in.op = opCall
		in.fn = c.s.fnL(v)
		return in
	}
	in.op = opCallClosure
	in.a = c.opnd(cc.Value)
	return in
}

func (c *comp) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		c.opnd(x)
	case *ssa.Alloc:
		t := deref(x.Type())
		c.emit(Instr{op: opAlloc, dst: c.opnd(x), n: int32(cellsOf(t)), t: t, pos: x.Pos()})
	case *ssa.BinOp:
		i := Instr{op: opBin, tok: x.Op, a: c.opnd(x.X), b: c.opnd(x.Y), t: x.X.Type(), t2: x.Y.Type(), dst: c.opnd(x), pos: x.Pos()}
		if ii, ok := intOf(x.X.Type()); ok && x.Op != token.SHL && x.Op != token.SHR {
			i.op = opIntBin
			i.ii = ii
		}
		c.emit(i)
	case *ssa.UnOp:
		i := Instr{a: c.opnd(x.X), dst: c.opnd(x), t: x.Type(), pos: x.Pos(), cok: x.CommaOk}
		switch x.Op {
		case token.MUL:
			i.op = opLoad
			if isAgg(x.Type()) {
				i.n = int32(cellsOf(x.Type()))
				i.cok = true
			}
		case token.NOT:
			i.op = opNot
		case token.SUB:
			i.op = opNeg
		case token.XOR:
			i.op = opCompl
		default:
			i.op, i.s = opUnsupported, "channel receive"
		}
		c.emit(i)
	case *ssa.Store:
		t := deref(x.Addr.Type())
		i := Instr{op: opStore, a: c.opnd(x.Addr), b: c.opnd(x.Val), pos: x.Pos()}
		if isAgg(t) {
			i.n = int32(cellsOf(t))
			i.cok = true
		}
		c.emit(i)
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		c.emit(Instr{op: opFieldAddr, a: c.opnd(x.X), n: int32(fieldOff(st, x.Field)), dst: c.opnd(x), pos: x.Pos()})
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		ft := st.Field(x.Field).Type()
		c.emit(Instr{op: opField, a: c.opnd(x.X), n: int32(fieldOff(st, x.Field)), n2: int32(cellsOf(ft)), cok: isAgg(ft), dst: c.opnd(x)})
	case *ssa.IndexAddr:
		i := Instr{a: c.opnd(x.X), b: c.opnd(x.Index), dst: c.opnd(x), pos: x.Pos()}
		ii, _ := intOf(x.Index.Type())
		i.ii = ii
		var el types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			i.op = opIndexAddrS
			el = u.Elem()
		case *types.Pointer:
			i.op = opIndexAddrA
			at := u.Elem().Underlying().(*types.Array)
			el = at.Elem()
			i.n2 = int32(at.Len())
		}
		i.n = int32(cellsOf(el))
		i.ei, i.cok = scalarI(el)
		c.emit(i)
	case *ssa.Index:
		ii, _ := intOf(x.Index.Type())
		i := Instr{op: opIndex, a: c.opnd(x.X), b: c.opnd(x.Index), dst: c.opnd(x), t: x.X.Type(), ii: ii, pos: x.Pos()}
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			i.n = int32(cellsOf(at.Elem()))
			i.n2 = int32(at.Len())
			i.cok = isAgg(at.Elem())
		}
		c.emit(i)
	case *ssa.Jump:
		c.emit(Instr{op: opJump, e1: c.edge(b, b.Succs[0])})
	case *ssa.If:
		i := Instr{op: opIf, a: c.opnd(x.Cond), pos: x.Pos()}
		if b.Succs[0] == b.Succs[1] {
			// both edges identical: phi edges would be ambiguous
			i.e1 = c.edge(b, b.Succs[0])
			i.e2 = c.edge(b, b.Succs[0])
		} else {
			i.e1 = c.edge(b, b.Succs[0])
			i.e2 = c.edge(b, b.Succs[1])
		}
		c.emit(i)
	case *ssa.Return:
		i := Instr{op: opReturn}
		for _, r := range x.Results {
			i.args = append(i.args, c.opnd(r))
		}
		c.emit(i)
	case *ssa.Call:
		c.emit(c.call(&x.Call, Instr{dst: c.opnd(x)}))
	case *ssa.Go:
		inner := c.call(&x.Call, Instr{})
		c.emit(Instr{op: opGo, inner: &inner, pos: x.Pos()})
	case *ssa.Defer:
		inner := c.call(&x.Call, Instr{})
		if x.DeferStack != nil {
			c.emit(Instr{op: opUnsupported, s: "defer in range-over-func"})
			return
		}
		c.emit(Instr{op: opDefer, inner: &inner, pos: x.Pos()})
	case *ssa.RunDefers:
		c.emit(Instr{op: opRunDefers})
	case *ssa.Panic:
		c.emit(Instr{op: opPanic, a: c.opnd(x.X), pos: x.Pos()})
	case *ssa.MakeInterface:
		c.emit(Instr{op: opMakeIface, a: c.opnd(x.X), dst: c.opnd(x), rt: c.s.rtypeL(x.X.Type())})
	case *ssa.ChangeInterface:
		c.emit(Instr{op: opMove, a: c.opnd(x.X), dst: c.opnd(x)})
	case *ssa.ChangeType:
		c.emit(Instr{op: opMove, a: c.opnd(x.X), dst: c.opnd(x)})
	case *ssa.TypeAssert:
		i := Instr{op: opTypeAssert, a: c.opnd(x.X), dst: c.opnd(x), t: x.AssertedType, cok: x.CommaOk, pos: x.Pos()}
		if !types.IsInterface(x.AssertedType) {
			i.rt = c.s.rtypeL(x.AssertedType)
		}
		c.emit(i)
	case *ssa.Extract:
		c.emit(Instr{op: opExtract, a: c.opnd(x.Tuple), n: int32(x.Index), dst: c.opnd(x)})
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		li, _ := intOf(x.Len.Type())
		c.emit(Instr{op: opMakeSlice, a: c.opnd(x.Len), b: c.opnd(x.Cap), n: int32(cellsOf(el)), dst: c.opnd(x), ii: li, pos: x.Pos()})
	case *ssa.MakeMap:
		c.emit(Instr{op: opMakeMap, dst: c.opnd(x), t: x.Type()})
	case *ssa.MakeClosure:
		i := Instr{op: opMakeClosure, dst: c.opnd(x), fn: c.s.fnL(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			i.args = append(i.args, c.opnd(b))
		}
		c.emit(i)
	case *ssa.Slice:
		i := Instr{op: opSlice, a: c.opnd(x.X), dst: c.opnd(x), t: x.X.Type(), b: -1 << 30, c: -1 << 30, d: -1 << 30, pos: x.Pos()}
		if x.Low != nil {
			i.b = c.opnd(x.Low)
			i.ii, _ = intOf(x.Low.Type())
		}
		if x.High != nil {
			i.c = c.opnd(x.High)
			i.ei, _ = intOf(x.High.Type())
		}
		if x.Max != nil {
			i.d = c.opnd(x.Max) // concretised as int
		}
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			i.n = int32(cellsOf(u.Elem()))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			i.n = int32(cellsOf(at.Elem()))
			i.n2 = int32(at.Len())
		}
		c.emit(i)
	case *ssa.Convert:
		c.emit(Instr{op: opConvert, a: c.opnd(x.X), dst: c.opnd(x), t: x.X.Type(), t2: x.Type(), pos: x.Pos()})
	case *ssa.MapUpdate:
		c.emit(Instr{op: opMapUpdate, a: c.opnd(x.Map), b: c.opnd(x.Key), c: c.opnd(x.Value), t: x.Map.Type(), pos: x.Pos()})
	case *ssa.Lookup:
		c.emit(Instr{op: opLookup, a: c.opnd(x.X), b: c.opnd(x.Index), dst: c.opnd(x), t: x.X.Type(), cok: x.CommaOk, pos: x.Pos()})
	case *ssa.Range:
		c.emit(Instr{op: opRange, a: c.opnd(x.X), dst: c.opnd(x), t: x.X.Type()})
	case *ssa.Next:
		c.emit(Instr{op: opNext, a: c.opnd(x.Iter), dst: c.opnd(x), cok: x.IsString, t: x.Type()})
	case *ssa.SliceToArrayPointer:
		at := deref(x.Type()).Underlying().(*types.Array)
		c.emit(Instr{op: opSliceToArr, a: c.opnd(x.X), dst: c.opnd(x), n: int32(at.Len())})
	default:
		c.emit(Instr{op: opUnsupported, s: fmt.Sprintf("instruction %T", in)})
		if v, ok := in.(ssa.Value); ok {
			c.opnd(v)
		}
	}
}

// scalarI gives the element info of a scalar type that supports
// conditional (ite) access; bools have w 0.
func scalarI(t types.Type) (intInfo, bool) {
	if i, ok := intOf(t); ok {
		return i, true
	}
	if isBool(t) {
		return intInfo{}, true
	}
	return intInfo{}, false
}
