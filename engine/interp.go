package main

// The symbolic machine: runs compiled code, forks on symbolic branches.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
)

type pathAbort struct {
	kind string // "assume", "unsupported", "fuel", "violation", "stop", "unknown"
	msg  string
}
type targetPanic struct{ v Value }

type deferred struct {
	in   *Instr
	fn   *Fn
	free []Value
	args []Value
}

type Frame struct {
	fn        *Fn
	regs      []Value
	pc        int32
	dst       int32
	isDefer   bool
	panicking bool
	recovered bool
	pval      Value
	defers    []deferred
}

type Thread struct {
	id      int
	frames  []*Frame
	done    bool
	blocked bool
	on      hbKey // what a blocked thread waits for
	joinOn  int
	vc      []uint32
	result  Value
}

type hbCell struct {
	wt   int32 // writer thread + 1
	wc   uint32
	r    []uint32
	wpos token.Pos
	rpos token.Pos
}

type Decision struct {
	k uint8 // 0 branch, 1 choice, 2 conc
	t bool  // taken (branch / conc)
	f bool  // forced
	v uint64
}

type Input struct {
	kind string
	term *Term // nil: concrete
	w    uint8
	val  uint64
}

type pendAssert struct {
	c   *Term
	msg string
}

type obsRec struct {
	k byte // 'i' 'u' 'b' 's' 'f'
	v Value
	w intInfo
}

type Machine struct {
	sh      *Shared
	tb      *TermTable
	sol     *Solver
	globals []*Obj
	objID   int

	// path state
	pc       []*Term
	known    map[*Term]bool
	model    []uint64
	vars     []*Term
	prefix   []Decision
	di       int
	decs     []Decision
	inputs   []Input
	asserts  []pendAssert
	nasserts int
	obs      []obsRec
	fuel     int64
	steps    int64
	threads  []*Thread
	cur      *Thread
	swtch    bool
	depthMax int
	evalOK   bool
	curPos   token.Pos
	params   map[string]int
	shaTab   []shaEntry
	hbClocks map[hbKey][]uint32
	curSite  string

	fork      func(d []Decision, model []uint64)
	violated  func(kind, msg string, model []uint64)
	stats     Stats
	pool      [][]Value
	framePool []*Frame
	stop      func() bool
	booting   bool
	thorough  bool
}

type hbKey struct {
	o *Obj
	n uint64
}

type shaEntry struct {
	tag string
	in  []Value
	out []Value
}

type Stats struct {
	Paths, Completed, Assumed, Unsupported, Fuel, Unknown, Forks, Asserts, Steps int64
}

func (m *Machine) newObj(n int) *Obj {
	m.objID++
	return &Obj{id: m.objID, cells: make([]Value, n)}
}

func (m *Machine) unsupported(s string) {
	panic(pathAbort{"unsupported", s})
}

func (m *Machine) rtPanic(s string) {
	panic(targetPanic{m.rtErr(s)})
}

func (m *Machine) rtErr(s string) Value {
	p := m.sh.P.pkgs[hmod+"/nd"]
	t := p.Type("RuntimeError").Type()
	return Value{P: &Iface{m.sh.rtype(t), Value{P: &Agg{[]Value{strV("runtime error: " + s)}}}}}
}

// ---- decisions

func (m *Machine) evalT(t *Term) uint64 {
	if !m.evalOK {
		m.tb.beginEval()
		m.evalOK = true
	}
	m.tb.growEval()
	return m.tb.ev(t, m.model)
}

func (m *Machine) lit(c *Term, v bool) *Term {
	if v {
		return c
	}
	return m.tb.Not(c)
}

// branch decides a boolean value, forking when both outcomes are feasible.
func (m *Machine) branch(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return m.branchT(v.P.(*Term))
}

func (m *Machine) branchT(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	neg := false
	if c.op == ONot {
		c, neg = c.a, true
	}
	if v, ok := m.known[c]; ok {
		return v != neg
	}
	return m.decide(c, 0, 0) != neg
}

func (m *Machine) decide(c *Term, kind uint8, val uint64) bool {
	var d Decision
	if m.di < len(m.prefix) {
		d = m.prefix[m.di]
		m.di++
		if d.k != kind {
			fatal("replay divergence: decision kind %d expected %d", d.k, kind)
		}
	} else {
		if m.booting {
			fatal("symbolic branch during initialisation")
		}
		v := m.evalT(c) == 1
		d = Decision{k: kind, t: v, v: val}
		r, mdl := m.check(m.lit(c, !v))
		switch r {
		case Sat:
			nd := make([]Decision, len(m.decs)+1)
			copy(nd, m.decs)
			nd[len(m.decs)] = Decision{k: kind, t: !v, v: val}
			m.stats.Forks++
			m.fork(nd, mdl)
		case Unsat:
			d.f = true
		default:
			m.stats.Unknown++
		}
	}
	m.decs = append(m.decs, d)
	m.setKnown(c, d.t)
	if !d.f {
		m.pc = append(m.pc, m.lit(c, d.t))
	}
	return d.t
}

func (m *Machine) setKnown(c *Term, v bool) {
	if c.op == ONot {
		c, v = c.a, !v
	}
	m.known[c] = v
	if v && c.op == OAnd {
		m.setKnown(c.a, true)
		m.setKnown(c.b, true)
	} else if !v && c.op == OOr {
		m.setKnown(c.a, false)
		m.setKnown(c.b, false)
	}
	// order facts derived from a strict comparison
	switch c.op {
	case OUlt, OSlt:
		if v {
			m.known[m.tb.cmp(c.op, c.b, c.a)] = false
			m.known[m.tb.Eq(c.a, c.b)] = false
		} else {
			// not (a<b): if not (b<a) known -> equal
			o := m.tb.cmp(c.op, c.b, c.a)
			if ov, ok := m.known[o]; ok && !ov {
				m.known[m.tb.Eq(c.a, c.b)] = true
			}
			if ev, ok := m.known[m.tb.Eq(c.a, c.b)]; ok && !ev {
				m.known[o] = true
			}
		}
	case OEq:
		if c.a.w != SBool && c.a.w < SF32 {
			l, g := m.tb.Slt(c.a, c.b), m.tb.Slt(c.b, c.a)
			l2, g2 := m.tb.Ult(c.a, c.b), m.tb.Ult(c.b, c.a)
			if v {
				for _, x := range []*Term{l, g, l2, g2} {
					m.known[x] = false
				}
			} else {
				if lv, ok := m.known[l]; ok && !lv {
					m.known[g] = true
				} else if gv, ok := m.known[g]; ok && !gv {
					m.known[l] = true
				}
				if lv, ok := m.known[l2]; ok && !lv {
					m.known[g2] = true
				} else if gv, ok := m.known[g2]; ok && !gv {
					m.known[l2] = true
				}
			}
		}
	}
}

func (tb *TermTable) cmp(op Op, a, b *Term) *Term {
	if op == OUlt {
		return tb.Ult(a, b)
	}
	return tb.Slt(a, b)
}

func (m *Machine) check(extra *Term) (SatRes, []uint64) {
	if m.stop() {
		panic(pathAbort{kind: "stop"})
	}
	r, mdl := m.sol.Check(m.pc, extra, m.vars)
	if r == Sat {
		// self check: the model must satisfy what was asked
		if m.tb.Eval(extra, mdl) != 1 {
			fatal("solver model does not satisfy the query: %s", m.tb.str(extra))
		}
		m.evalOK = false
	}
	return r, mdl
}

// concretize enumerates the values of a symbolic int.
func (m *Machine) concretize(v Value, w uint8) uint64 {
	if v.P == nil {
		return v.N
	}
	t := v.P.(*Term)
	for n := 0; ; n++ {
		var val uint64
		if m.di < len(m.prefix) {
			val = m.prefix[m.di].v
			if m.prefix[m.di].k != 2 {
				fatal("replay divergence in concretize")
			}
		} else {
			val = m.evalT(t)
		}
		c := m.tb.Eq(t, m.tb.constOf(val, t.w))
		neg := false
		if c.op == ONot {
			c, neg = c.a, true
		}
		if kv, ok := m.known[c]; ok && m.di >= len(m.prefix) {
			if kv != neg {
				m.decs = append(m.decs, Decision{k: 2, t: kv, f: true, v: val})
				return val
			}
		}
		if c.isConst() {
			m.decs = append(m.decs, Decision{k: 2, t: true, f: true, v: val})
			if m.di < len(m.prefix) {
				m.di++
			}
			return val
		}
		if m.decide(c, 2, val) != neg {
			return val
		}
		if n > 5000 {
			m.unsupported("concretization of more than 5000 values")
		}
	}
}

func (tb *TermTable) constOf(v uint64, w uint8) *Term {
	if w == SBool {
		return tb.Bool(v == 1)
	}
	if w == SF32 || w == SF64 {
		return tb.FConst(v, w)
	}
	return tb.BV(v, w)
}

func (m *Machine) concInt(v Value, ii intInfo) int64 {
	if v.P == nil {
		return int64(v.N)
	}
	return int64(norm(m.concretize(v, ii.w), ii))
}

func (m *Machine) choice(n int, kind string) int {
	var d Decision
	if n <= 0 {
		panic(pathAbort{kind: "assume"})
	}
	if m.di < len(m.prefix) {
		d = m.prefix[m.di]
		m.di++
		if d.k != 1 {
			fatal("replay divergence: choice expected, got %d", d.k)
		}
	} else {
		d = Decision{k: 1}
		if n > 1 {
			mc := append([]uint64(nil), m.model...)
			for i := n - 1; i >= 1; i-- {
				nd := make([]Decision, len(m.decs)+1)
				copy(nd, m.decs)
				nd[len(m.decs)] = Decision{k: 1, v: uint64(i)}
				m.stats.Forks++
				m.fork(nd, mc)
			}
		}
	}
	m.decs = append(m.decs, d)
	if kind != "" {
		m.inputs = append(m.inputs, Input{kind: kind, val: d.v})
	}
	return int(d.v)
}

func (m *Machine) newVar(w uint8, kind string) *Term {
	v := m.tb.Var(len(m.vars), w)
	m.vars = append(m.vars, v)
	if len(m.model) < len(m.vars) {
		m.model = append(m.model[:len(m.model):len(m.model)], 0)
	}
	m.inputs = append(m.inputs, Input{kind: kind, term: v, w: w})
	return v
}

func (m *Machine) assume(v Value) {
	if v.P == nil {
		if v.N == 0 {
			m.flushAsserts()
			panic(pathAbort{kind: "assume"})
		}
		return
	}
	c := v.P.(*Term)
	if c.isConst() {
		m.assume(Value{N: c.val})
		return
	}
	cc, neg := c, false
	if c.op == ONot {
		cc, neg = c.a, true
	}
	if kv, ok := m.known[cc]; ok {
		if kv == neg {
			m.flushAsserts()
			panic(pathAbort{kind: "assume"})
		}
		return
	}
	m.flushAsserts()
	// Replayed assumptions need no query: the item's model satisfies them.
	if m.evalT(c) != 1 {
		r, mdl := m.check(c)
		switch r {
		case Sat:
			m.model = mdl
			m.padModel()
			m.evalOK = false
		case Unsat:
			panic(pathAbort{kind: "assume"})
		default:
			m.stats.Unknown++
			panic(pathAbort{kind: "unknown", msg: "assume undecided"})
		}
	}
	m.setKnown(cc, !neg)
	m.pc = append(m.pc, c)
}

func (m *Machine) padModel() {
	for len(m.model) < len(m.vars) {
		m.model = append(m.model, 0)
	}
}

func (m *Machine) assert(v Value, msg string) {
	m.nasserts++
	if v.P == nil {
		if v.N == 0 {
			m.flushAsserts()
			m.violated("assert", msg, m.model)
			panic(pathAbort{kind: "violation"})
		}
		return
	}
	c := v.P.(*Term)
	if c.isConst() {
		m.assert(Value{N: c.val}, msg)
		return
	}
	cc, neg := c, false
	if c.op == ONot {
		cc, neg = c.a, true
	}
	if kv, ok := m.known[cc]; ok && kv != neg {
		return
	}
	m.asserts = append(m.asserts, pendAssert{c, msg})
	if m.di >= len(m.prefix) && m.evalT(c) != 1 {
		m.violated("assert", msg, m.model)
		panic(pathAbort{kind: "violation"})
	}
}

// flushAsserts discharges the pending assertions with one query.
func (m *Machine) flushAsserts() {
	if len(m.asserts) == 0 {
		return
	}
	as := m.asserts
	m.asserts = nil
	if m.di < len(m.prefix) {
		// Still replaying: the first path that ran past this point
		// discharged them under the very same path condition.
		return
	}
	all := m.tb.tt
	for _, a := range as {
		all = m.tb.And(all, a.c)
	}
	if all == m.tb.tt {
		return
	}
	r, mdl := m.check(m.tb.Not(all))
	switch r {
	case Unsat:
	case Sat:
		for len(mdl) < len(m.vars) {
			mdl = append(mdl, 0)
		}
		for _, a := range as {
			if m.tb.Eval(a.c, mdl) != 1 {
				m.evalOK = false
				m.violated("assert", a.msg, mdl)
				panic(pathAbort{kind: "violation"})
			}
		}
		fatal("assertion query sat but no assertion fails")
	default:
		m.stats.Unknown++
	}
	m.evalOK = false
}

// ---- frames

func (m *Machine) allocRegs(n int) []Value {
	if n < len(m.pool) {
		// size classes
	}
	return make([]Value, n)
}

func (m *Machine) pushFrame(th *Thread, fn *Fn, dst int32) *Frame {
	if !fn.ready.Load() {
		m.sh.compile(fn)
	}
	if !fn.used.Load() {
		fn.used.Store(true)
	}
	var f *Frame
	if k := len(m.framePool); k > 0 {
		f = m.framePool[k-1]
		m.framePool = m.framePool[:k-1]
		if cap(f.regs) < fn.nregs {
			f.regs = make([]Value, fn.nregs+8)
		}
		f.regs = f.regs[:fn.nregs]
	} else {
		f = &Frame{regs: make([]Value, fn.nregs, fn.nregs+16)}
	}
	f.fn, f.pc, f.dst = fn, 0, dst
	f.isDefer, f.panicking, f.recovered = false, false, false
	f.defers = f.defers[:0]
	for _, g := range fn.globs {
		f.regs[g.reg] = Value{P: m.global(g.idx)}
	}
	th.frames = append(th.frames, f)
	if len(th.frames) > m.depthMax {
		panic(pathAbort{kind: "fuel", msg: "call depth limit"})
	}
	m.fuel--
	return f
}

func (m *Machine) popFrame(th *Thread) *Frame {
	k := len(th.frames) - 1
	f := th.frames[k]
	th.frames = th.frames[:k]
	if len(m.framePool) < 256 {
		m.framePool = append(m.framePool, f)
	}
	return f
}

func (m *Machine) global(i int) *Obj {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	o := m.globals[i]
	if o == nil {
		if g := m.sh.globs[i].g; g.Pkg != nil && m.sh.globs[i].persist {
			switch pp := g.Pkg.Pkg.Path(); pp {
			case "os", "internal/cpu":
			default:
				if !interpretable(pp) {
					m.unsupported("uninitialised variable " + g.String())
				}
			}
		}
		o = m.newObj(m.sh.globs[i].n)
		m.globals[i] = o
	}
	return o
}

// resetGlobals forgets all non-persistent globals.
func (m *Machine) resetGlobals() {
	for i := range m.globals {
		if !m.sh.globs[i].persist {
			m.globals[i] = nil
		}
	}
}

// callFn runs fn to completion on a fresh main thread.
func (m *Machine) runMain(fns ...*Fn) {
	for _, fn := range fns {
		th := &Thread{id: 0, joinOn: -1}
		m.threads = []*Thread{th}
		m.cur = th
		m.pushFrame(th, fn, -1)
		m.loop()
	}
}

func (m *Machine) loop() {
	for {
		done := m.protected()
		if done {
			return
		}
	}
}

// protected runs until the main thread ends; converts target panics raised
// inside helpers into interpreted panics.
func (m *Machine) protected() (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				m.startPanic(m.cur, tp.v)
				done = false
				return
			}
			panic(r)
		}
	}()
	m.run()
	return true
}

func (m *Machine) startPanic(th *Thread, v Value) {
	f := th.frames[len(th.frames)-1]
	f.panicking = true
	f.pval = v
	m.unwind(th)
}

// unwind continues panicking in the top frame of th.
func (m *Machine) unwind(th *Thread) {
	for {
		f := th.frames[len(th.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if m.startDeferred(th, d) {
				return
			}
			continue
		}
		v := f.pval
		m.popFrame(th)
		if len(th.frames) == 0 {
			msg := "panic: " + m.panicText(v)
			m.flushAsserts()
			m.violated("panic", msg, m.model)
			panic(pathAbort{kind: "violation", msg: msg})
		}
		p := th.frames[len(th.frames)-1]
		p.panicking = true
		p.recovered = false
		p.pval = v
	}
}

func (m *Machine) panicText(v Value) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	if a, ok := i.v.P.(*Agg); ok && len(a.v) == 1 {
		if s, ok := concStr(a.v[0]); ok {
			return s
		}
	}
	if isString(i.t.t) {
		if s, ok := concStr(i.v); ok {
			return s
		}
	}
	if o, ok := i.v.P.(*Obj); ok && len(o.cells) > 0 {
		if s, ok := o.cells[0].P.(string); ok {
			return s
		}
	}
	return i.t.name
}

// startDeferred begins a deferred call; false if it was completed inline.
func (m *Machine) startDeferred(th *Thread, d deferred) bool {
	if d.in.op == opBuiltin {
		m.builtin(d.in, d.args)
		return false
	}
	if d.fn.intr != nil {
		d.fn.intr(m, d.args)
		return false
	}
	f := m.pushFrame(th, d.fn, -1)
	f.isDefer = true
	copy(f.regs, d.args)
	copy(f.regs[d.fn.nparams:], d.free)
	return true
}

// afterReturn handles control once a frame has been popped; rv delivered.
func (m *Machine) finishFrame(th *Thread, f *Frame, rv Value) {
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	p := th.frames[len(th.frames)-1]
	if !f.isDefer {
		if f.dst >= 0 {
			p.regs[f.dst] = rv
		}
		return
	}
	if p.panicking {
		m.unwind(th)
		return
	}
	if p.recovered {
		m.resumeRecovered(th, p)
	}
	// else: resume at RunDefers
}

func (m *Machine) resumeRecovered(th *Thread, p *Frame) {
	for {
		n := len(p.defers)
		if n == 0 {
			break
		}
		d := p.defers[n-1]
		p.defers = p.defers[:n-1]
		if m.startDeferred(th, d) {
			return
		}
	}
	p.recovered = false
	if p.fn.recoverP >= 0 {
		p.pc = p.fn.recoverP
		return
	}
	var rv Value
	switch len(p.fn.results) {
	case 0:
	case 1:
		rv = zeroOf(p.fn.results[0])
	default:
		t := &Tuple{}
		for _, r := range p.fn.results {
			t.v = append(t.v, zeroOf(r))
		}
		rv = Value{P: t}
	}
	m.popFrame(th)
	m.finishFrame(th, p, rv)
}

// ---- main loop

func (m *Machine) run() {
	var th *Thread
	var fr *Frame
	var code []Instr
	var regs []Value
	var consts []Value
	var pc int32
reload:
	m.swtch = false
	th = m.cur
	if th.done {
		if th.id == 0 {
			return
		}
		m.threadExit(th)
		goto reload
	}
	fr = th.frames[len(th.frames)-1]
	code = fr.fn.code
	regs = fr.regs
	consts = fr.fn.consts
	pc = fr.pc
	for {
		in := &code[pc]
		pc++
		switch in.op {
		case opIntBin:
			var a, b Value
			if in.a >= 0 {
				a = regs[in.a]
			} else {
				a = consts[^in.a]
			}
			if in.b >= 0 {
				b = regs[in.b]
			} else {
				b = consts[^in.b]
			}
			if a.P == nil && b.P == nil {
				var r uint64
				x, y := a.N, b.N
				switch in.tok {
				case token.ADD:
					r = norm(x+y, in.ii)
				case token.SUB:
					r = norm(x-y, in.ii)
				case token.MUL:
					r = norm(x*y, in.ii)
				case token.EQL:
					r = b2u(x == y)
				case token.NEQ:
					r = b2u(x != y)
				case token.LSS:
					if in.ii.signed {
						r = b2u(int64(x) < int64(y))
					} else {
						r = b2u(x < y)
					}
				case token.LEQ:
					if in.ii.signed {
						r = b2u(int64(x) <= int64(y))
					} else {
						r = b2u(x <= y)
					}
				case token.GTR:
					if in.ii.signed {
						r = b2u(int64(x) > int64(y))
					} else {
						r = b2u(x > y)
					}
				case token.GEQ:
					if in.ii.signed {
						r = b2u(int64(x) >= int64(y))
					} else {
						r = b2u(x >= y)
					}
				case token.AND:
					r = x & y
				case token.OR:
					r = x | y
				case token.XOR:
					r = norm(x^y, in.ii)
				case token.AND_NOT:
					r = norm(x&^y, in.ii)
				case token.QUO, token.REM:
					if y == 0 {
						fr.pc = pc
						m.rtPanic("integer divide by zero")
					}
					if in.ii.signed {
						if int64(y) == -1 {
							if in.tok == token.QUO {
								r = norm(-x, in.ii)
							}
						} else if in.tok == token.QUO {
							r = norm(uint64(int64(x)/int64(y)), in.ii)
						} else {
							r = norm(uint64(int64(x)%int64(y)), in.ii)
						}
					} else if in.tok == token.QUO {
						r = x / y
					} else {
						r = x % y
					}
				default:
					m.unsupported("int op " + in.tok.String())
				}
				regs[in.dst] = Value{N: r}
				continue
			}
			fr.pc = pc
			regs[in.dst] = m.symInt(in.tok, in.ii, a, b)
		case opJump:
			m.doEdge(in.e1, regs, consts)
			pc = in.e1.pc
			m.fuel--
			if m.fuel < 0 {
				panic(pathAbort{kind: "fuel", msg: "step limit"})
			}
		case opIf:
			v := regVal(regs, consts, in.a)
			var t bool
			if v.P == nil {
				t = v.N != 0
			} else {
				fr.pc = pc
				t = m.branchT(v.P.(*Term))
			}
			e := in.e1
			if !t {
				e = in.e2
			}
			m.doEdge(e, regs, consts)
			pc = e.pc
			m.fuel--
			if m.fuel < 0 {
				panic(pathAbort{kind: "fuel", msg: "step limit"})
			}
		case opLoad:
			p := regVal(regs, consts, in.a)
			switch o := p.P.(type) {
			case *Obj:
				if len(m.threads) > 1 {
					m.raceR(fr, o, int(p.N), max(1, int(in.n)), in.pos)
				}
				if in.cok {
					v := make([]Value, in.n)
					copy(v, o.cells[p.N:p.N+uint64(in.n)])
					regs[in.dst] = Value{P: &Agg{v}}
				} else {
					regs[in.dst] = o.cells[p.N]
				}
			case nil:
				fr.pc = pc
				m.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				if len(m.threads) > 1 {
					m.raceR(fr, o.obj, o.base, o.n, in.pos)
				}
				regs[in.dst] = m.symLoad(o)
			default:
				m.unsupported("load through foreign pointer")
			}
		case opStore:
			p := regVal(regs, consts, in.a)
			v := regVal(regs, consts, in.b)
			switch o := p.P.(type) {
			case *Obj:
				if len(m.threads) > 1 {
					m.raceW(fr, o, int(p.N), max(1, int(in.n)), in.pos)
				}
				if in.cok {
					copy(o.cells[p.N:p.N+uint64(in.n)], v.P.(*Agg).v)
				} else {
					o.cells[p.N] = v
				}
			case nil:
				fr.pc = pc
				m.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				if len(m.threads) > 1 {
					m.raceW(fr, o.obj, o.base, o.n, in.pos)
				}
				m.symStore(o, v)
			default:
				m.unsupported("store through foreign pointer")
			}
		case opFieldAddr:
			p := regVal(regs, consts, in.a)
			if p.P == nil {
				fr.pc = pc
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if _, ok := p.P.(*Obj); !ok {
				m.unsupported("field address through foreign pointer")
			}
			regs[in.dst] = Value{P: p.P, N: p.N + uint64(in.n)}
		case opField:
			p := regVal(regs, consts, in.a)
			c := p.P.(*Agg).v
			if in.cok {
				regs[in.dst] = Value{P: &Agg{c[in.n : in.n+in.n2 : in.n+in.n2]}}
			} else {
				regs[in.dst] = c[in.n]
			}
		case opIndexAddrS:
			s := regVal(regs, consts, in.a)
			ix := regVal(regs, consts, in.b)
			var obj *Obj
			off, n := 0, 0
			if s.P != nil {
				sv := s.P.(*SliceVal)
				obj, off, n = sv.obj, sv.off, sv.len
			}
			if ix.P == nil {
				if ix.N >= uint64(n) {
					fr.pc = pc
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(ix.N), n))
				}
				regs[in.dst] = Value{P: obj, N: uint64(off + int(ix.N)*int(in.n))}
				continue
			}
			fr.pc = pc
			regs[in.dst] = m.symIndexAddr(in, obj, off, n, ix)
		case opIndexAddrA:
			p := regVal(regs, consts, in.a)
			ix := regVal(regs, consts, in.b)
			if p.P == nil {
				fr.pc = pc
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			obj, ok := p.P.(*Obj)
			if !ok {
				m.unsupported("index through foreign pointer")
			}
			if ix.P == nil {
				if ix.N >= uint64(in.n2) {
					fr.pc = pc
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(ix.N), in.n2))
				}
				regs[in.dst] = Value{P: obj, N: p.N + ix.N*uint64(in.n)}
				continue
			}
			fr.pc = pc
			regs[in.dst] = m.symIndexAddr(in, obj, int(p.N), int(in.n2), ix)
		case opMove:
			regs[in.dst] = regVal(regs, consts, in.a)
		case opAlloc:
			m.objID++
			regs[in.dst] = Value{P: &Obj{id: m.objID, cells: make([]Value, in.n)}}
		case opNot:
			v := regVal(regs, consts, in.a)
			if v.P == nil {
				regs[in.dst] = Value{N: v.N ^ 1}
			} else {
				regs[in.dst] = fromBool(m.tb.Not(v.P.(*Term)))
			}
		case opExtract:
			v := regVal(regs, consts, in.a)
			regs[in.dst] = v.P.(*Tuple).v[in.n]
		case opReturn:
			var rv Value
			switch len(in.args) {
			case 0:
			case 1:
				rv = regVal(regs, consts, in.args[0])
			default:
				t := make([]Value, len(in.args))
				for i, a := range in.args {
					t[i] = regVal(regs, consts, a)
				}
				rv = Value{P: &Tuple{t}}
			}
			k := len(th.frames) - 1
			if k > 0 && !fr.isDefer {
				dst := fr.dst
				m.popFrame(th)
				fr = th.frames[k-1]
				if dst >= 0 {
					fr.regs[dst] = rv
				}
				code, regs, consts, pc = fr.fn.code, fr.regs, fr.fn.consts, fr.pc
				continue
			}
			m.popFrame(th)
			m.finishFrame(th, fr, rv)
			goto reload
		case opCall, opCallClosure, opInvoke:
			fr.pc = pc
			fn := in.fn
			var free []Value
			var recv Value
			hasRecv := false
			switch in.op {
			case opCallClosure:
				f := regVal(regs, consts, in.a)
				if f.P == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				cl := f.P.(*Closure)
				fn, free = cl.fn, cl.free
			case opInvoke:
				f := regVal(regs, consts, in.a)
				if f.P == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				ifc := f.P.(*Iface)
				fn = m.sh.method(ifc.t, in.meth)
				if fn == nil {
					m.unsupported("method " + in.s + " on " + ifc.t.name)
				}
				recv, hasRecv = ifc.v, true
			}
			if fn.intr != nil {
				args := make([]Value, 0, len(in.args)+1)
				if hasRecv {
					args = append(args, recv)
				}
				for _, a := range in.args {
					args = append(args, regVal(regs, consts, a))
				}
				m.curPos = in.pos
				rv := fn.intr(m, args)
				if in.dst >= 0 {
					regs[in.dst] = rv
				}
				if m.swtch {
					goto reload
				}
				continue
			}
			nf := m.pushFrame(th, fn, in.dst)
			nr := nf.regs
			i := 0
			if hasRecv {
				nr[0] = recv
				i = 1
			}
			for _, a := range in.args {
				if a >= 0 {
					nr[i] = regs[a]
				} else {
					nr[i] = consts[^a]
				}
				i++
			}
			if len(free) > 0 {
				copy(nr[fn.nparams:], free)
			}
			fr, code, regs, consts, pc = nf, fn.code, nr, fn.consts, 0
			if m.fuel < 0 {
				panic(pathAbort{kind: "fuel", msg: "step limit"})
			}
		case opBuiltin:
			fr.pc = pc
			if in.s == "recover" {
				regs[in.dst] = m.doRecover(th)
				continue
			}
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = regVal(regs, consts, a)
			}
			rv := m.builtin(in, args)
			if in.dst >= 0 {
				regs[in.dst] = rv
			}
		case opMakeIface:
			regs[in.dst] = Value{P: &Iface{in.rt, regVal(regs, consts, in.a)}}
		case opMakeClosure:
			fv := make([]Value, len(in.args))
			for i, a := range in.args {
				fv[i] = regVal(regs, consts, a)
			}
			regs[in.dst] = Value{P: &Closure{in.fn, fv}}
		case opDefer:
			fr.pc = pc
			fr.defers = append(fr.defers, m.mkDeferred(in.inner, regs, consts))
		case opRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				fr.pc = pc - 1 // come back here
				m.startDeferred(th, d)
				goto reload
			}
		case opPanic:
			fr.pc = pc
			v := regVal(regs, consts, in.a)
			m.startPanic(th, v)
			goto reload
		default:
			fr.pc = pc
			m.slow(th, fr, in, regs, consts)
			if m.swtch {
				goto reload
			}
		}
	}
}

func regVal(regs, consts []Value, i int32) Value {
	if i >= 0 {
		return regs[i]
	}
	return consts[^i]
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) doEdge(e *edge, regs, consts []Value) {
	if len(e.moves) == 0 {
		return
	}
	if !e.conflict {
		for _, mv := range e.moves {
			if mv.src >= 0 {
				regs[mv.dst] = regs[mv.src]
			} else {
				regs[mv.dst] = consts[^mv.src]
			}
		}
		return
	}
	var buf [8]Value
	tmp := buf[:0]
	for _, mv := range e.moves {
		tmp = append(tmp, regVal(regs, consts, mv.src))
	}
	for i, mv := range e.moves {
		regs[mv.dst] = tmp[i]
	}
}

func (m *Machine) mkDeferred(in *Instr, regs, consts []Value) deferred {
	d := deferred{in: in, fn: in.fn}
	switch in.op {
	case opCallClosure:
		f := regVal(regs, consts, in.a)
		if f.P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		cl := f.P.(*Closure)
		d.fn, d.free = cl.fn, cl.free
	case opInvoke:
		f := regVal(regs, consts, in.a)
		if f.P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		ifc := f.P.(*Iface)
		d.fn = m.sh.method(ifc.t, in.meth)
		if d.fn == nil {
			m.unsupported("method " + in.s)
		}
		d.args = append(d.args, ifc.v)
	}
	for _, a := range in.args {
		d.args = append(d.args, regVal(regs, consts, a))
	}
	return d
}

func (m *Machine) doRecover(th *Thread) Value {
	k := len(th.frames) - 1
	if k < 1 || !th.frames[k].isDefer {
		return Value{}
	}
	p := th.frames[k-1]
	if !p.panicking {
		return Value{}
	}
	p.panicking = false
	p.recovered = true
	v := p.pval
	p.pval = Value{}
	return v
}

func (m *Machine) slow(th *Thread, fr *Frame, in *Instr, regs, consts []Value) {
	switch in.op {
	case opBin:
		regs[in.dst] = m.binop(in, regVal(regs, consts, in.a), regVal(regs, consts, in.b))
	case opNeg:
		v := regVal(regs, consts, in.a)
		if ii, ok := intOf(in.t); ok {
			if v.P == nil {
				regs[in.dst] = Value{N: norm(-v.N, ii)}
			} else {
				regs[in.dst] = m.fromTerm(m.tb.Neg(v.P.(*Term)), ii)
			}
			return
		}
		if fs, ok := floatOf(in.t); ok {
			regs[in.dst] = fromF(m.tb.FOp(OFNeg, m.fterm(v, fs), nil))
			return
		}
		if fs, ok := complexOf(in.t); ok {
			re, im := cparts(v)
			regs[in.dst] = Value{P: &Cplx{fromF(m.tb.FOp(OFNeg, m.fterm(re, fs), nil)), fromF(m.tb.FOp(OFNeg, m.fterm(im, fs), nil))}}
			return
		}
		m.unsupported("negation of " + in.t.String())
	case opCompl:
		v := regVal(regs, consts, in.a)
		ii, _ := intOf(in.t)
		if v.P == nil {
			regs[in.dst] = Value{N: norm(^v.N, ii)}
		} else {
			regs[in.dst] = m.fromTerm(m.tb.BNot(v.P.(*Term)), ii)
		}
	case opIndex:
		regs[in.dst] = m.index(in, regVal(regs, consts, in.a), regVal(regs, consts, in.b))
	case opTypeAssert:
		regs[in.dst] = m.typeAssert(in, regVal(regs, consts, in.a))
	case opMakeSlice:
		n := m.concInt(regVal(regs, consts, in.a), in.ii)
		c := m.concInt(regVal(regs, consts, in.b), in.ii)
		if n < 0 || n > 1<<40 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<40 {
			m.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<24 {
			m.unsupported("makeslice: too large")
		}
		regs[in.dst] = Value{P: &SliceVal{m.newObj(int(c) * int(in.n)), 0, int(n), int(c)}}
	case opMakeMap:
		regs[in.dst] = Value{P: &MapVal{kt: in.t.Underlying().(*types.Map).Key()}}
	case opSlice:
		regs[in.dst] = m.slice(in, regs, consts)
	case opConvert:
		regs[in.dst] = m.convert(in.t, in.t2, regVal(regs, consts, in.a))
	case opMapUpdate:
		mv := regVal(regs, consts, in.a)
		if mv.P == nil {
			panic(targetPanic{m.rtErr("assignment to entry in nil map")})
		}
		m.mapSet(mv.P.(*MapVal), regVal(regs, consts, in.b), regVal(regs, consts, in.c))
	case opLookup:
		regs[in.dst] = m.lookup(in, regVal(regs, consts, in.a), regVal(regs, consts, in.b))
	case opRange:
		v := regVal(regs, consts, in.a)
		if isString(in.t) {
			s, ok := concStr(v)
			if !ok {
				b := make([]byte, strLen(v))
				for i := range b {
					b[i] = byte(m.concretize(strByte(v, i), 8))
				}
				s = string(b)
			}
			regs[in.dst] = Value{P: &MapIter{str: s, isS: true}}
			return
		}
		it := &MapIter{}
		if v.P != nil {
			it.m = v.P.(*MapVal)
			it.keys = append([]Value(nil), it.m.keys...)
		}
		regs[in.dst] = Value{P: it}
	case opNext:
		it := regVal(regs, consts, in.a).P.(*MapIter)
		if it.isS {
			if it.i >= len(it.str) {
				regs[in.dst] = Value{P: &Tuple{[]Value{{}, {}, {}}}}
				return
			}
			i := it.i
			r := []rune(it.str[i:])[0]
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if len(it.str[i:]) >= 3 && it.str[i:i+3] == "\uFFFD" {
					n = 3
				}
			}
			it.i += n
			regs[in.dst] = Value{P: &Tuple{[]Value{{N: 1}, {N: uint64(i)}, {N: uint64(int64(r))}}}}
			return
		}
		tt := in.t.(*types.Tuple)
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			if j := m.mapFind(it.m, k); j >= 0 {
				regs[in.dst] = Value{P: &Tuple{[]Value{{N: 1}, k, it.m.vals[j]}}}
				return
			}
		}
		z := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return Value{}
			}
			return zeroOf(t)
		}
		regs[in.dst] = Value{P: &Tuple{[]Value{{}, z(1), z(2)}}}
	case opSliceToArr:
		v := regVal(regs, consts, in.a)
		if v.P == nil {
			if in.n > 0 {
				m.rtPanic("cannot convert slice to array pointer")
			}
			regs[in.dst] = Value{}
			return
		}
		s := v.P.(*SliceVal)
		if s.len < int(in.n) {
			m.rtPanic("cannot convert slice with length " + fmt.Sprint(s.len) + " to array pointer")
		}
		regs[in.dst] = Value{P: s.obj, N: uint64(s.off)}
	case opGo:
		d := m.mkDeferred(in.inner, regs, consts)
		if d.fn == nil || d.fn.intr != nil {
			m.unsupported("go statement on builtin")
		}
		m.spawn(d)
	case opUnsupported:
		m.unsupported(in.s)
	default:
		m.unsupported(fmt.Sprintf("opcode %d", in.op))
	}
}

func (m *Machine) symInt(tok token.Token, ii intInfo, a, b Value) Value {
	tb := m.tb
	x, y := m.term(a, ii.w), m.term(b, ii.w)
	switch tok {
	case token.ADD:
		return m.fromTerm(tb.Add(x, y), ii)
	case token.SUB:
		return m.fromTerm(tb.Sub(x, y), ii)
	case token.MUL:
		return m.fromTerm(tb.Bin(OMul, x, y), ii)
	case token.AND:
		return m.fromTerm(tb.Bin(OBAnd, x, y), ii)
	case token.OR:
		return m.fromTerm(tb.Bin(OBOr, x, y), ii)
	case token.XOR:
		return m.fromTerm(tb.Bin(OBXor, x, y), ii)
	case token.AND_NOT:
		return m.fromTerm(tb.Bin(OBAnd, x, tb.BNot(y)), ii)
	case token.QUO, token.REM:
		if m.branchT(tb.Eq(y, tb.BV(0, ii.w))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case tok == token.QUO && ii.signed:
			op = OSDiv
		case tok == token.REM && ii.signed:
			op = OSRem
		case tok == token.REM:
			op = OURem
		}
		return m.fromTerm(tb.Bin(op, x, y), ii)
	case token.EQL:
		return fromBool(tb.Eq(x, y))
	case token.NEQ:
		return fromBool(tb.Not(tb.Eq(x, y)))
	}
	lt := tb.Ult
	if ii.signed {
		lt = tb.Slt
	}
	switch tok {
	case token.LSS:
		return fromBool(lt(x, y))
	case token.GTR:
		return fromBool(lt(y, x))
	case token.LEQ:
		return fromBool(tb.Not(lt(y, x)))
	case token.GEQ:
		return fromBool(tb.Not(lt(x, y)))
	}
	m.unsupported("int op " + tok.String())
	return Value{}
}

func (m *Machine) binop(in *Instr, a, b Value) Value {
	tb := m.tb
	t := in.t
	switch in.tok {
	case token.SHL, token.SHR:
		ii, _ := intOf(t)
		si, _ := intOf(in.t2)
		if b.P == nil {
			if si.signed && int64(b.N) < 0 {
				m.rtPanic("negative shift amount")
			}
			if a.P == nil {
				if in.tok == token.SHL {
					if b.N >= 64 {
						return Value{}
					}
					return Value{N: norm(a.N<<b.N, ii)}
				}
				n := min(b.N, 63)
				if ii.signed {
					return Value{N: uint64(int64(a.N) >> n)}
				}
				if b.N >= 64 {
					return Value{}
				}
				return Value{N: a.N >> n}
			}
			n := tb.BV(min(b.N, uint64(ii.w)), ii.w)
			return m.fromTerm(tb.Bin(shiftOp(in.tok, ii), m.term(a, ii.w), n), ii)
		}
		y := b.P.(*Term)
		if si.signed && m.branchT(tb.Slt(y, tb.BV(0, y.w))) {
			m.rtPanic("negative shift amount")
		}
		if y.w > ii.w {
			y = tb.Ite(tb.Ult(y, tb.BV(uint64(ii.w), y.w)), tb.Extract(y, 0, ii.w), tb.BV(uint64(ii.w), ii.w))
		} else {
			y = tb.ZExt(y, ii.w)
		}
		return m.fromTerm(tb.Bin(shiftOp(in.tok, ii), m.term(a, ii.w), y), ii)
	case token.EQL:
		return fromBool(m.equal(t, a, b))
	case token.NEQ:
		return fromBool(tb.Not(m.equal(t, a, b)))
	}
	if isString(t) {
		switch in.tok {
		case token.ADD:
			if x, ok := concStr(a); ok {
				if y, ok := concStr(b); ok {
					return strV(x + y)
				}
			}
			bs := append(append([]Value(nil), strBytes(a)...), strBytes(b)...)
			return bytesToStr(bs)
		case token.LSS:
			return fromBool(m.strLt(a, b))
		case token.GTR:
			return fromBool(m.strLt(b, a))
		case token.LEQ:
			return fromBool(tb.Not(m.strLt(b, a)))
		case token.GEQ:
			return fromBool(tb.Not(m.strLt(a, b)))
		}
	}
	if fs, ok := floatOf(t); ok {
		x, y := m.fterm(a, fs), m.fterm(b, fs)
		switch in.tok {
		case token.ADD:
			return fromF(tb.FOp(OFAdd, x, y))
		case token.SUB:
			return fromF(tb.FOp(OFSub, x, y))
		case token.MUL:
			return fromF(tb.FOp(OFMul, x, y))
		case token.QUO:
			return fromF(tb.FOp(OFDiv, x, y))
		case token.LSS:
			return fromBool(tb.FOp(OFLt, x, y))
		case token.GTR:
			return fromBool(tb.FOp(OFLt, y, x))
		case token.LEQ:
			return fromBool(tb.FOp(OFLe, x, y))
		case token.GEQ:
			return fromBool(tb.FOp(OFLe, y, x))
		}
	}
	if fs, ok := complexOf(t); ok {
		ar, ai := cparts(a)
		br, bi := cparts(b)
		op := OFAdd
		switch in.tok {
		case token.ADD:
		case token.SUB:
			op = OFSub
		default:
			m.unsupported("complex " + in.tok.String())
		}
		return Value{P: &Cplx{fromF(tb.FOp(op, m.fterm(ar, fs), m.fterm(br, fs))), fromF(tb.FOp(op, m.fterm(ai, fs), m.fterm(bi, fs)))}}
	}
	if isBool(t) {
		switch in.tok {
		case token.AND, token.LAND:
			return fromBool(tb.And(m.bterm(a), m.bterm(b)))
		case token.OR, token.LOR:
			return fromBool(tb.Or(m.bterm(a), m.bterm(b)))
		}
	}
	m.unsupported("binop " + in.tok.String() + " on " + t.String())
	return Value{}
}

func shiftOp(tok token.Token, ii intInfo) Op {
	if tok == token.SHL {
		return OShl
	}
	if ii.signed {
		return OAShr
	}
	return OLShr
}

func (m *Machine) idx64(ix Value, ii intInfo) *Term {
	t := ix.P.(*Term)
	if t.w < 64 {
		if ii.signed {
			return m.tb.SExt(t, 64)
		}
		return m.tb.ZExt(t, 64)
	}
	return t
}

const maxSymCells = 64

func (m *Machine) symIndexAddr(in *Instr, obj *Obj, off, n int, ix Value) Value {
	t := m.idx64(ix, in.ii)
	if !m.branchT(m.tb.Ult(t, m.tb.BV(uint64(n), 64))) {
		m.rtPanic("index out of range")
	}
	if t.isConst() {
		return Value{P: obj, N: uint64(off) + t.val*uint64(in.n)}
	}
	if in.cok && in.n == 1 && n <= maxSymCells {
		return Value{P: &SymPtr{obj, off, n, t, in.ei}}
	}
	v := m.concretize(Value{P: t}, 64)
	return Value{P: obj, N: uint64(off) + v*uint64(in.n)}
}

func (m *Machine) cellTerm(v Value, ei intInfo) *Term {
	if ei.w == 0 {
		return m.bterm(v)
	}
	return m.term(v, ei.w)
}
func (m *Machine) cellVal(t *Term, ei intInfo) Value {
	if ei.w == 0 {
		return fromBool(t)
	}
	return m.fromTerm(t, ei)
}

func (m *Machine) symLoad(p *SymPtr) Value {
	r := m.cellTerm(p.obj.cells[p.base+p.n-1], p.ei())
	for i := p.n - 2; i >= 0; i-- {
		r = m.tb.Ite(m.tb.Eq(p.idx, m.tb.BV(uint64(i), 64)), m.cellTerm(p.obj.cells[p.base+i], p.ei()), r)
	}
	return m.cellVal(r, p.ei())
}
func (p *SymPtr) ei() intInfo { return p.ii }

func (m *Machine) symStore(p *SymPtr, v Value) {
	nv := m.cellTerm(v, p.ii)
	for i := 0; i < p.n; i++ {
		c := m.tb.Eq(p.idx, m.tb.BV(uint64(i), 64))
		p.obj.cells[p.base+i] = m.cellVal(m.tb.Ite(c, nv, m.cellTerm(p.obj.cells[p.base+i], p.ii)), p.ii)
	}
}

// concPtr turns a symbolic pointer into a concrete one.
func (m *Machine) concPtr(v Value) Value {
	if p, ok := v.P.(*SymPtr); ok {
		i := m.concretize(Value{P: p.idx}, 64)
		return Value{P: p.obj, N: uint64(p.base) + i}
	}
	return v
}

func (m *Machine) index(in *Instr, x, ix Value) Value {
	if isString(in.t) {
		n := strLen(x)
		if ix.P != nil {
			t := m.idx64(ix, in.ii)
			if !m.branchT(m.tb.Ult(t, m.tb.BV(uint64(n), 64))) {
				m.rtPanic("index out of range")
			}
			if n <= 256 {
				r := m.term(strByte(x, n-1), 8)
				for i := n - 2; i >= 0; i-- {
					r = m.tb.Ite(m.tb.Eq(t, m.tb.BV(uint64(i), 64)), m.term(strByte(x, i), 8), r)
				}
				return m.fromTerm(r, intInfo{8, false})
			}
			ix = Value{N: m.concretize(Value{P: t}, 64)}
		}
		if ix.N >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(ix.N), n))
		}
		return strByte(x, int(ix.N))
	}
	c := x.P.(*Agg).v
	if ix.P != nil {
		t := m.idx64(ix, in.ii)
		if !m.branchT(m.tb.Ult(t, m.tb.BV(uint64(in.n2), 64))) {
			m.rtPanic("index out of range")
		}
		ix = Value{N: m.concretize(Value{P: t}, 64)}
	}
	if ix.N >= uint64(in.n2) {
		m.rtPanic("index out of range")
	}
	o := int(ix.N) * int(in.n)
	if in.cok {
		return Value{P: &Agg{c[o : o+int(in.n)]}}
	}
	return c[o]
}

func (m *Machine) typeAssert(in *Instr, v Value) Value {
	ok := false
	var out Value
	if v.P != nil {
		i := v.P.(*Iface)
		if in.rt != nil {
			if i.t == in.rt {
				ok, out = true, i.v
			}
		} else if m.sh.implements(i.t, in.t) {
			ok, out = true, v
		}
	}
	if !ok {
		if !in.cok {
			m.rtPanic("interface conversion: wrong dynamic type for " + in.t.String())
		}
		out = zeroOf(in.t)
	}
	if in.cok {
		return Value{P: &Tuple{[]Value{out, boolV(ok)}}}
	}
	return out
}

func (m *Machine) slice(in *Instr, regs, consts []Value) Value {
	x := regVal(regs, consts, in.a)
	get := func(i int32, def int64) int64 {
		if i == -1<<30 {
			return def
		}
		v := regVal(regs, consts, i)
		ii := in.ii
		if i == in.c {
			ii = in.ei
		}
		return m.concInt(v, ii)
	}
	if isString(in.t) {
		n := int64(strLen(x))
		lo, hi := get(in.b, 0), get(in.c, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if s, ok := concStr(x); ok {
			return strV(s[lo:hi])
		}
		return bytesToStr(x.P.(*SymStr).b[lo:hi])
	}
	var obj *Obj
	off, n, cp := 0, 0, 0
	if _, ok := in.t.Underlying().(*types.Slice); ok {
		if x.P != nil {
			s := x.P.(*SliceVal)
			obj, off, n, cp = s.obj, s.off, s.len, s.cap
		}
	} else {
		if x.P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		obj, off, n, cp = x.P.(*Obj), int(x.N), int(in.n2), int(in.n2)
	}
	lo := get(in.b, 0)
	hi := get(in.c, int64(n))
	mx := get(in.d, int64(cp))
	if lo < 0 || hi < lo || mx < hi || mx > int64(cp) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp))
	}
	if obj == nil {
		return Value{}
	}
	return Value{P: &SliceVal{obj, off + int(lo)*int(in.n), int(hi - lo), int(mx - lo)}}
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	fi, fok := intOf(from)
	ti, tok := intOf(to)
	switch {
	case fok && tok:
		if v.P == nil {
			return Value{N: norm(v.N, ti)}
		}
		t := v.P.(*Term)
		switch {
		case ti.w < t.w:
			t = m.tb.Extract(t, 0, ti.w)
		case ti.w > t.w && fi.signed:
			t = m.tb.SExt(t, ti.w)
		case ti.w > t.w:
			t = m.tb.ZExt(t, ti.w)
		}
		return m.fromTerm(t, ti)
	}
	ff, ffok := floatOf(from)
	tf, tfok := floatOf(to)
	switch {
	case ffok && tfok:
		return fromF(m.tb.FConv(m.fterm(v, ff), tf))
	case fok && tfok:
		if v.P != nil {
			v = Value{N: norm(m.concretize(v, fi.w), fi)}
		}
		var r uint64
		if tf == SF32 {
			if fi.signed {
				r = uint64(math.Float32bits(float32(int64(v.N))))
			} else {
				r = uint64(math.Float32bits(float32(v.N)))
			}
		} else if fi.signed {
			r = math.Float64bits(float64(int64(v.N)))
		} else {
			r = math.Float64bits(float64(v.N))
		}
		return Value{N: r}
	case ffok && tok:
		if v.P != nil {
			v = Value{N: m.concretize(v, ff)}
		}
		f := fval(v.N, ff)
		if ti.signed {
			return Value{N: norm(uint64(int64(f)), ti)}
		}
		return Value{N: norm(uint64(f), ti)}
	}
	fc, fcok := complexOf(from)
	tc, tcok := complexOf(to)
	if fcok && tcok {
		re, im := cparts(v)
		return Value{P: &Cplx{fromF(m.tb.FConv(m.fterm(re, fc), tc)), fromF(m.tb.FConv(m.fterm(im, fc), tc))}}
	}
	if isString(to) {
		if s, ok := from.Underlying().(*types.Slice); ok {
			var bs []Value
			if v.P != nil {
				sv := v.P.(*SliceVal)
				bs = sv.obj.cells[sv.off : sv.off+sv.len]
				if len(m.threads) > 1 {
					m.raceR(m.topFrame(), sv.obj, sv.off, sv.len, 0)
				}
			}
			ei, _ := intOf(s.Elem())
			if ei.w == 8 {
				return bytesToStr(bs)
			}
			rs := make([]rune, len(bs))
			for i := range rs {
				rs[i] = rune(m.concInt(bs[i], ei))
			}
			return strV(string(rs))
		}
		if fok {
			return strV(string(rune(m.concInt(v, fi))))
		}
		if isString(from) {
			return v
		}
	}
	if isString(from) {
		if s, ok := to.Underlying().(*types.Slice); ok {
			ei, _ := intOf(s.Elem())
			if ei.w == 8 {
				bs := strBytes(v)
				o := m.newObj(len(bs))
				copy(o.cells, bs)
				return Value{P: &SliceVal{o, 0, len(bs), len(bs)}}
			}
			str, ok := concStr(v)
			if !ok {
				b := make([]byte, strLen(v))
				for i := range b {
					b[i] = byte(m.concretize(strByte(v, i), 8))
				}
				str = string(b)
			}
			rs := []rune(str)
			o := m.newObj(len(rs))
			for i, r := range rs {
				o.cells[i].N = uint64(int64(r))
			}
			return Value{P: &SliceVal{o, 0, len(rs), len(rs)}}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	// unsafe.Pointer and friends
	m.unsupported("conversion " + from.String() + " -> " + to.String())
	return Value{}
}

// ---- maps

func mapKey(kt types.Type, k Value) (any, bool) {
	if k.P == nil {
		if _, ok := intOf(kt); ok {
			return k.N, true
		}
		if isBool(kt) {
			return k.N, true
		}
		if isString(kt) {
			return "", true
		}
		return nil, false
	}
	if s, ok := k.P.(string); ok && isString(kt) {
		return s, true
	}
	if _, ok := kt.Underlying().(*types.Pointer); ok {
		if o, ok := k.P.(*Obj); ok {
			return [2]any{o, k.N}, true
		}
	}
	return nil, false
}

func (m *Machine) mapFind(mv *MapVal, k Value) int {
	if mv == nil {
		return -1
	}
	ck, ok := mapKey(mv.kt, k)
	if ok && !mv.sym {
		if i, ok := mv.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i, x := range mv.keys {
		if m.branchT(m.equal(mv.kt, x, k)) {
			return i
		}
	}
	return -1
}
func (m *Machine) mapSet(mv *MapVal, k, v Value) {
	if i := m.mapFind(mv, k); i >= 0 {
		nv := append([]Value(nil), mv.vals...)
		nv[i] = v
		mv.vals = nv
		return
	}
	mv.keys = append(mv.keys, k)
	mv.vals = append(mv.vals, v)
	if ck, ok := mapKey(mv.kt, k); ok && !mv.sym {
		if mv.idx == nil {
			mv.idx = map[any]int{}
		}
		mv.idx[ck] = len(mv.keys) - 1
	} else {
		mv.sym = true
	}
}
func (m *Machine) mapDel(mv *MapVal, k Value) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	mv.keys = append(append([]Value(nil), mv.keys[:i]...), mv.keys[i+1:]...)
	mv.vals = append(append([]Value(nil), mv.vals[:i]...), mv.vals[i+1:]...)
	if !mv.sym {
		mv.idx = map[any]int{}
		for j, x := range mv.keys {
			ck, _ := mapKey(mv.kt, x)
			mv.idx[ck] = j
		}
	}
}

func (m *Machine) lookup(in *Instr, x, k Value) Value {
	mt, ok := in.t.Underlying().(*types.Map)
	if !ok {
		m.unsupported("lookup on " + in.t.String())
	}
	var r Value
	found := false
	var mv *MapVal
	if x.P != nil {
		mv = x.P.(*MapVal)
	}
	if i := m.mapFind(mv, k); i >= 0 {
		r, found = mv.vals[i], true
	} else {
		r = zeroOf(mt.Elem())
	}
	if in.cok {
		return Value{P: &Tuple{[]Value{r, boolV(found)}}}
	}
	return r
}

// ---- builtins

func (m *Machine) topFrame() *Frame {
	return m.cur.frames[len(m.cur.frames)-1]
}

func (m *Machine) builtin(in *Instr, a []Value) Value {
	switch in.s {
	case "len", "cap":
		v := a[0]
		switch u := in.t.Underlying().(type) {
		case *types.Slice:
			if v.P == nil {
				return Value{}
			}
			if in.s == "len" {
				return Value{N: uint64(v.P.(*SliceVal).len)}
			}
			return Value{N: uint64(v.P.(*SliceVal).cap)}
		case *types.Basic:
			return Value{N: uint64(strLen(v))}
		case *types.Map:
			if v.P == nil {
				return Value{}
			}
			return Value{N: uint64(len(v.P.(*MapVal).keys))}
		case *types.Array:
			return Value{N: uint64(u.Len())}
		case *types.Pointer:
			return Value{N: uint64(u.Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		el := in.t.Underlying().(*types.Slice).Elem()
		cn := cellsOf(el)
		var src []Value
		n2 := 0
		if isString(in.t2) {
			src = strBytes(a[1])
			n2 = len(src)
		} else if a[1].P != nil {
			s := a[1].P.(*SliceVal)
			n2 = s.len
			src = s.obj.cells[s.off : s.off+n2*cn]
			if len(m.threads) > 1 {
				m.raceR(m.topFrame(), s.obj, s.off, n2*cn, in.pos)
			}
		}
		if n2 == 0 {
			return a[0]
		}
		var s SliceVal
		if a[0].P != nil {
			s = *a[0].P.(*SliceVal)
		}
		if s.len+n2 <= s.cap {
			if len(m.threads) > 1 {
				m.raceW(m.topFrame(), s.obj, s.off+s.len*cn, n2*cn, in.pos)
			}
			copy(s.obj.cells[s.off+s.len*cn:s.off+(s.len+n2)*cn], src)
			return Value{P: &SliceVal{s.obj, s.off, s.len + n2, s.cap}}
		}
		nc := growCap(s.cap, s.len+n2, goSize(el))
		o := m.newObj(nc * cn)
		if s.obj != nil {
			if len(m.threads) > 1 {
				m.raceR(m.topFrame(), s.obj, s.off, s.len*cn, in.pos)
			}
			copy(o.cells, s.obj.cells[s.off:s.off+s.len*cn])
		}
		copy(o.cells[s.len*cn:], src)
		return Value{P: &SliceVal{o, 0, s.len + n2, nc}}
	case "copy":
		if a[0].P == nil {
			return Value{}
		}
		d := a[0].P.(*SliceVal)
		cn := cellsOf(in.t.Underlying().(*types.Slice).Elem())
		var src []Value
		n := 0
		if isString(in.t2) {
			src = strBytes(a[1])
			n = len(src)
		} else if a[1].P != nil {
			s := a[1].P.(*SliceVal)
			n = s.len
			src = s.obj.cells[s.off : s.off+n*cn]
			if len(m.threads) > 1 {
				m.raceR(m.topFrame(), s.obj, s.off, min(n, d.len)*cn, in.pos)
			}
		}
		n = min(n, d.len)
		if len(m.threads) > 1 {
			m.raceW(m.topFrame(), d.obj, d.off, n*cn, in.pos)
		}
		copy(d.obj.cells[d.off:d.off+n*cn], src[:n*cn])
		return Value{N: uint64(n)}
	case "delete":
		if a[0].P != nil {
			m.mapDel(a[0].P.(*MapVal), a[1])
		}
		return Value{}
	case "clear":
		switch u := in.t.Underlying().(type) {
		case *types.Map:
			if a[0].P != nil {
				mv := a[0].P.(*MapVal)
				mv.keys, mv.vals, mv.idx, mv.sym = nil, nil, nil, false
			}
		case *types.Slice:
			if a[0].P != nil {
				s := a[0].P.(*SliceVal)
				z := zeroOf(u.Elem())
				cn := cellsOf(u.Elem())
				for i := 0; i < s.len; i++ {
					if ag, ok := z.P.(*Agg); ok {
						copy(s.obj.cells[s.off+i*cn:], ag.v)
					} else {
						s.obj.cells[s.off+i] = z
					}
				}
			}
		}
		return Value{}
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			r = m.minmax(in.s == "max", in.t, r, x)
		}
		return r
	case "real":
		re, _ := cparts(a[0])
		return re
	case "imag":
		_, im := cparts(a[0])
		return im
	case "complex":
		return Value{P: &Cplx{a[0], a[1]}}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if a[0].P == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return a[0]
	}
	m.unsupported("builtin " + in.s)
	return Value{}
}

func (m *Machine) minmax(mx bool, t types.Type, a, b Value) Value {
	if ii, ok := intOf(t); ok {
		var c Value
		if mx {
			c = m.symInt(token.LSS, ii, a, b)
		} else {
			c = m.symInt(token.GTR, ii, a, b)
		}
		if c.P == nil {
			if c.N != 0 {
				return b
			}
			return a
		}
		return m.fromTerm(m.tb.Ite(c.P.(*Term), m.term(b, ii.w), m.term(a, ii.w)), ii)
	}
	if fs, ok := floatOf(t); ok && a.P == nil && b.P == nil {
		x, y := fval(a.N, fs), fval(b.N, fs)
		if mx {
			return Value{N: fbits(max(x, y), fs)}
		}
		return Value{N: fbits(min(x, y), fs)}
	}
	if isString(t) {
		c := m.strLt(a, b)
		if m.branchT(c) == mx {
			return b
		}
		return a
	}
	m.unsupported("min/max")
	return Value{}
}

// goSize: size in bytes of one element (for append growth only).
func goSize(t types.Type) int {
	return int(types.SizesFor("gc", "amd64").Sizeof(t))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, sz int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if sz == 0 {
		return need
	}
	bytes := nc * sz
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return c / sz
			}
		}
	}
	pg := (bytes + 8191) / 8192 * 8192
	return pg / sz
}
