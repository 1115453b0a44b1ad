package main

// Functions the machine executes itself: the nd interface, and the few
// standard-library functions whose bodies cannot be interpreted.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

type intrinsic func(m *Machine, args []Value) Value

func (m *Machine) mkErr(typ, s string) Value {
	p := m.sh.P.pkgs[hmod+"/nd"]
	t := p.Type(typ).Type()
	_ = t
	return Value{P: &Iface{m.sh.rtype(t), Value{P: &Agg{[]Value{strV(s)}}}}}
}

func (m *Machine) ifaceString(v Value) string {
	if v.P == nil {
		return "<nil>"
	}
	i := v.P.(*Iface)
	t := i.t.t
	if ii, ok := intOf(t); ok {
		if i.v.P != nil {
			return "<sym>"
		}
		if ii.signed {
			return fmt.Sprint(int64(i.v.N))
		}
		return fmt.Sprint(i.v.N)
	}
	if isString(t) {
		if s, ok := concStr(i.v); ok {
			return s
		}
		return "<sym>"
	}
	if isBool(t) && i.v.P == nil {
		return fmt.Sprint(i.v.N != 0)
	}
	if fs, ok := floatOf(t); ok && i.v.P == nil {
		return fmt.Sprint(fval(i.v.N, fs))
	}
	return "<" + i.t.name + ">"
}

// redirects are functions replaced by interpreted ones of package nd.
var redirects = map[string]string{"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln"}

// goVal converts a concrete value of a plain type to the Go value fmt would see.
func goVal(t types.Type, v Value) (any, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.NumMethods() > 0 {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.P != nil {
			return nil, false
		}
		switch u.Kind() {
		case types.Bool:
			return v.N != 0, true
		case types.Int:
			return int(v.N), true
		case types.Int8:
			return int8(v.N), true
		case types.Int16:
			return int16(v.N), true
		case types.Int32:
			return int32(v.N), true
		case types.Int64:
			return int64(v.N), true
		case types.Uint:
			return uint(v.N), true
		case types.Uint8:
			return uint8(v.N), true
		case types.Uint16:
			return uint16(v.N), true
		case types.Uint32:
			return uint32(v.N), true
		case types.Uint64:
			return v.N, true
		case types.Uintptr:
			return uintptr(v.N), true
		case types.Float64:
			return fval(v.N, SF64), true
		case types.Float32:
			return float32(fval(v.N, SF32)), true
		}
	case *types.Slice:
		e := u.Elem()
		if _, ok := e.Underlying().(*types.Basic); !ok {
			return nil, false
		}
		var out []any
		if v.P != nil {
			s := v.P.(*SliceVal)
			for i := 0; i < s.len; i++ {
				x, ok := goVal(e, s.obj.cells[s.off+i])
				if !ok {
					return nil, false
				}
				out = append(out, x)
			}
		}
		return out, true
	}
	return nil, false
}

// goArgs converts a variadic argument list, if everything is concrete and plain.
func goArgs(args Value) ([]any, bool) {
	var out []any
	if args.P != nil {
		s := args.P.(*SliceVal)
		for i := 0; i < s.len; i++ {
			c := s.obj.cells[s.off+i]
			if c.P == nil {
				out = append(out, nil)
				continue
			}
			ifc := c.P.(*Iface)
			x, ok := goVal(ifc.t.t, ifc.v)
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
	}
	return out, true
}

func (m *Machine) sprint(args Value, sep string) string {
	if a, ok := goArgs(args); ok {
		if sep == "" {
			return fmt.Sprint(a...)
		}
		return strings.TrimSuffix(fmt.Sprintln(a...), "\n")
	}
	var parts []string
	if args.P != nil {
		s := args.P.(*SliceVal)
		for i := 0; i < s.len; i++ {
			parts = append(parts, m.ifaceString(s.obj.cells[s.off+i]))
		}
	}
	return strings.Join(parts, sep)
}

func (m *Machine) sprintf(format Value, args Value) string {
	f, ok := concStr(format)
	if a, ok2 := goArgs(args); ok && ok2 {
		return fmt.Sprintf(f, a...)
	}
	var av []string
	if args.P != nil {
		s := args.P.(*SliceVal)
		for i := 0; i < s.len; i++ {
			av = append(av, m.ifaceString(s.obj.cells[s.off+i]))
		}
	}
	var b strings.Builder
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b.WriteByte(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			b.WriteByte('%')
			continue
		}
		if k < len(av) {
			b.WriteString(av[k])
		}
		k++
	}
	return b.String()
}

func intrinsics() map[string]intrinsic {
	t := map[string]intrinsic{}
	nd := hmod + "/nd."
	iv := func(name string, w uint8, signed bool) {
		t[nd+name] = func(m *Machine, a []Value) Value {
			return Value{P: m.newVar(w, name)}
		}
	}
	iv("Int", 64, true)
	iv("Int64", 64, true)
	iv("Int32", 32, true)
	iv("Int16", 16, true)
	iv("Int8", 8, true)
	iv("Uint", 64, false)
	iv("Uint64", 64, false)
	iv("Uint32", 32, false)
	iv("Uint16", 16, false)
	iv("Uint8", 8, false)
	iv("Uintptr", 64, false)
	iv("Bool", SBool, false)
	t[nd+"Float64"] = func(m *Machine, a []Value) Value {
		return Value{P: m.tb.FFromBits(m.newVar(64, "Float64"), SF64)}
	}
	t[nd+"Float32"] = func(m *Machine, a []Value) Value {
		return Value{P: m.tb.FFromBits(m.newVar(32, "Float32"), SF32)}
	}
	t[nd+"Choice"] = func(m *Machine, a []Value) Value {
		n := int(m.concInt(a[0], intInfo{64, true}))
		return Value{N: uint64(m.choice(n, "choice"))}
	}
	t[nd+"Assume"] = func(m *Machine, a []Value) Value { m.assume(a[0]); return Value{} }
	t[nd+"Assert"] = func(m *Machine, a []Value) Value {
		s, _ := concStr(a[1])
		m.assert(a[0], s)
		return Value{}
	}
	t[nd+"Conc"] = func(m *Machine, a []Value) Value { return Value{N: uint64(m.concInt(a[0], intInfo{64, true}))} }
	t[nd+"ConcBool"] = func(m *Machine, a []Value) Value { return boolV(m.branch(a[0])) }
	t[nd+"Param"] = func(m *Machine, a []Value) Value {
		s, _ := concStr(a[0])
		v, ok := m.params[s]
		if !ok {
			v = int(int64(a[1].N))
			if m.thorough {
				v = int(int64(a[2].N))
			}
			m.params[s] = v
		}
		return Value{N: uint64(int64(v))}
	}
	ob := func(name string, k byte, w intInfo) {
		t[nd+name] = func(m *Machine, a []Value) Value {
			m.obs = append(m.obs, obsRec{k, a[0], w})
			return Value{}
		}
	}
	ob("ObsInt", 'i', intInfo{64, true})
	ob("ObsU64", 'u', intInfo{64, false})
	ob("ObsBool", 'b', intInfo{})
	ob("ObsStr", 's', intInfo{})
	t[nd+"And"] = func(m *Machine, a []Value) Value { return fromBool(m.tb.And(m.bterm(a[0]), m.bterm(a[1]))) }
	t[nd+"Or"] = func(m *Machine, a []Value) Value { return fromBool(m.tb.Or(m.bterm(a[0]), m.bterm(a[1]))) }
	t[nd+"Implies"] = func(m *Machine, a []Value) Value {
		return fromBool(m.tb.Or(m.tb.Not(m.bterm(a[0])), m.bterm(a[1])))
	}
	t[nd+"Iff"] = func(m *Machine, a []Value) Value { return fromBool(m.tb.Eq(m.bterm(a[0]), m.bterm(a[1]))) }
	t[nd+"IteInt"] = func(m *Machine, a []Value) Value {
		return m.fromTerm(m.tb.Ite(m.bterm(a[0]), m.term(a[1], 64), m.term(a[2], 64)), intInfo{64, true})
	}
	t[nd+"B2I"] = func(m *Machine, a []Value) Value {
		return m.fromTerm(m.tb.Ite(m.bterm(a[0]), m.tb.BV(1, 64), m.tb.BV(0, 64)), intInfo{64, true})
	}
	t[nd+"Go"] = func(m *Machine, a []Value) Value {
		c := a[0].P.(*Closure)
		return Value{N: uint64(m.spawn(deferred{fn: c.fn, free: c.free}))}
	}
	t[nd+"Join"] = func(m *Machine, a []Value) Value {
		if len(m.threads) > 1 {
			m.cur.joinOn = 0
			m.schedule()
		}
		return Value{}
	}
	t[nd+"Sched"] = func(m *Machine, a []Value) Value {
		if len(m.threads) > 1 {
			m.schedule()
		}
		return Value{}
	}
	t[nd+"Block"] = func(m *Machine, a []Value) Value {
		m.cur.blocked = true
		m.cur.on = ptrKey(a[0])
		m.schedule()
		return Value{}
	}
	t[nd+"Notify"] = func(m *Machine, a []Value) Value {
		k := ptrKey(a[0])
		for _, x := range m.threads {
			if x.blocked && x.on == k {
				x.blocked = false
			}
		}
		return Value{}
	}
	t[nd+"ThreadID"] = func(m *Machine, a []Value) Value { return Value{N: uint64(m.cur.id)} }
	t[nd+"HBAcquire"] = func(m *Machine, a []Value) Value { m.hbAcquire(a[0]); return Value{} }
	t[nd+"HBRelease"] = func(m *Machine, a []Value) Value { m.hbRelease(a[0]); return Value{} }
	// UF(tag, data, n): n-word arbitrary function of data.
	t[nd+"UF"] = func(m *Machine, a []Value) Value {
		tag, _ := concStr(a[0])
		var in []Value
		if a[1].P != nil {
			s := a[1].P.(*SliceVal)
			in = append(in, s.obj.cells[s.off:s.off+s.len]...)
		}
		n := int(a[2].N)
		mk := func(out []Value) Value {
			o := m.newObj(n)
			copy(o.cells, out)
			return Value{P: &SliceVal{o, 0, n, n}}
		}
	next:
		for _, e := range m.shaTab {
			if e.tag != tag || len(e.in) != len(in) || len(e.out) != n {
				continue
			}
			eq := m.tb.tt
			for i := range in {
				if in[i].P == nil && e.in[i].P == nil && in[i].N != e.in[i].N {
					continue next
				}
				eq = m.tb.And(eq, m.tb.Eq(m.term(in[i], 8), m.term(e.in[i], 8)))
			}
			if m.branchT(eq) {
				return mk(e.out)
			}
		}
		out := make([]Value, n)
		for i := range out {
			out[i] = Value{P: m.newVar(64, "UF")}
		}
		m.shaTab = append(m.shaTab, shaEntry{tag, in, out})
		return mk(out)
	}

	// ---- standard library
	nop := func(m *Machine, a []Value) Value { return Value{} }
	for _, n := range []string{"errors.init", "internal/reflectlite.init", "internal/bytealg.init", "unicode.init"} {
		t[n] = nop
	}
	t["fmt.Sprintf"] = func(m *Machine, a []Value) Value { return strV(m.sprintf(a[0], a[1])) }
	t["fmt.Sprint"] = func(m *Machine, a []Value) Value { return strV(m.sprint(a[0], "")) }
	t["fmt.Sprintln"] = func(m *Machine, a []Value) Value { return strV(m.sprint(a[0], " ") + "\n") }
	t["fmt.Errorf"] = func(m *Machine, a []Value) Value { return m.mkErr("FmtError", m.sprintf(a[0], a[1])) }
	np := func(m *Machine, a []Value) Value { return Value{P: &Tuple{[]Value{{}, {}}}} }
	t["fmt.Printf"], t["fmt.Println"], t["fmt.Print"] = np, np, np
	t["(*os.File).Write"] = np
	t["internal/bytealg.MakeNoZero"] = func(m *Machine, a []Value) Value {
		n := int(m.concInt(a[0], intInfo{64, true}))
		return Value{P: &SliceVal{m.newObj(n), 0, n, n}}
	}
	t["internal/bytealg.CompareString"] = func(m *Machine, a []Value) Value {
		i64 := intInfo{64, true}
		lt, gt := m.strLt(a[0], a[1]), m.strLt(a[1], a[0])
		return m.fromTerm(m.tb.Ite(lt, m.tb.BV(^uint64(0), 64), m.tb.Ite(gt, m.tb.BV(1, 64), m.tb.BV(0, 64))), i64)
	}
	t["time.Now"] = func(m *Machine, a []Value) Value { return Value{P: &Agg{make([]Value, 3)}} }
	one := func(m *Machine, a []Value) Value { return Value{N: 1} }
	t["(time.Time).Unix"], t["(time.Time).UnixNano"], t["(time.Time).UnixMilli"], t["(time.Time).UnixMicro"] = one, one, one, one
	t["errors.Is"] = func(m *Machine, a []Value) Value {
		if a[0].P == nil || a[1].P == nil {
			return boolV(a[0].P == nil && a[1].P == nil)
		}
		x, y := a[0].P.(*Iface), a[1].P.(*Iface)
		return boolV(x.t == y.t && x.v.P == y.v.P && x.v.N == y.v.N)
	}
	t["math.Float64bits"] = func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		if x := a[0].P.(*Term); x.op == OFFromBits {
			return m.fromTerm(x.a, intInfo{64, false})
		}
		m.unsupported("Float64bits of a computed float")
		return Value{}
	}
	t["math.Float32bits"] = func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		if x := a[0].P.(*Term); x.op == OFFromBits {
			return m.fromTerm(x.a, intInfo{32, false})
		}
		m.unsupported("Float32bits of a computed float")
		return Value{}
	}
	t["math.Float64frombits"] = func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		return fromF(m.tb.FFromBits(a[0].P.(*Term), SF64))
	}
	t["math.Float32frombits"] = func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return Value{N: a[0].N & 0xffffffff}
		}
		return fromF(m.tb.FFromBits(a[0].P.(*Term), SF32))
	}
	f1 := func(n string, f func(float64) float64) {
		t["math."+n] = func(m *Machine, a []Value) Value {
			if a[0].P != nil {
				m.unsupported("math." + n + " of a symbolic value")
			}
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	f1("Ceil", math.Ceil)
	f1("Floor", math.Floor)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	f1("Sqrt", math.Sqrt)
	f1("Exp", math.Exp)
	f1("Trunc", math.Trunc)
	f1("Round", math.Round)
	t["math.Pow"] = func(m *Machine, a []Value) Value {
		if a[0].P != nil || a[1].P != nil {
			m.unsupported("math.Pow of a symbolic value")
		}
		return Value{N: math.Float64bits(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}
	}
	t["math.IsNaN"] = func(m *Machine, a []Value) Value {
		return fromBool(m.tb.FOp(OFIsNaN, m.fterm(a[0], SF64), nil))
	}
	tz := func(w uint8) intrinsic {
		return func(m *Machine, a []Value) Value {
			x := m.term(a[0], w)
			r := m.tb.BV(uint64(w), 64)
			for i := int(w) - 1; i >= 0; i-- {
				r = m.tb.Ite(m.tb.Eq(m.tb.Extract(x, uint8(i), 1), m.tb.BV(1, 1)), m.tb.BV(uint64(i), 64), r)
			}
			return m.fromTerm(r, intInfo{64, true})
		}
	}
	ln := func(w uint8, lead bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			x := m.term(a[0], w)
			val := func(k int) *Term {
				if lead {
					return m.tb.BV(uint64(int(w)-k), 64)
				}
				return m.tb.BV(uint64(k), 64)
			}
			r := val(0)
			for i := 0; i < int(w); i++ {
				r = m.tb.Ite(m.tb.Eq(m.tb.Extract(x, uint8(i), 1), m.tb.BV(1, 1)), val(i+1), r)
			}
			return m.fromTerm(r, intInfo{64, true})
		}
	}
	oc := func(w uint8) intrinsic {
		return func(m *Machine, a []Value) Value {
			if a[0].P == nil {
				n := uint64(0)
				for x := a[0].N & mask(w); x != 0; x &= x - 1 {
					n++
				}
				return Value{N: n}
			}
			x := m.term(a[0], w)
			r := m.tb.BV(0, 8)
			for i := 0; i < int(w); i++ {
				r = m.tb.Add(r, m.tb.ZExt(m.tb.Extract(x, uint8(i), 1), 8))
			}
			return m.fromTerm(m.tb.ZExt(r, 64), intInfo{64, true})
		}
	}
	for n, w := range map[string]uint8{"": 64, "8": 8, "16": 16, "32": 32, "64": 64} {
		t["math/bits.TrailingZeros"+n] = tz(w)
		t["math/bits.Len"+n] = ln(w, false)
		t["math/bits.LeadingZeros"+n] = ln(w, true)
		t["math/bits.OnesCount"+n] = oc(w)
	}
	t["(*strings.Builder).copyCheck"] = nop
	t["(*strings.Builder).String"] = func(m *Machine, a []Value) Value {
		o := a[0].P.(*Obj)
		b := o.cells[a[0].N+1]
		if b.P == nil {
			return Value{}
		}
		s := b.P.(*SliceVal)
		return bytesToStr(s.obj.cells[s.off : s.off+s.len])
	}
	t["internal/reflectlite.ValueOf"] = func(m *Machine, a []Value) Value {
		return Value{P: &Agg{[]Value{a[0], {}, {}}}}
	}
	t["(internal/reflectlite.Value).Len"] = func(m *Machine, a []Value) Value {
		i := a[0].P.(*Agg).v[0]
		if i.P == nil || i.P.(*Iface).v.P == nil {
			return Value{}
		}
		return Value{N: uint64(i.P.(*Iface).v.P.(*SliceVal).len)}
	}
	t["internal/reflectlite.Swapper"] = func(m *Machine, a []Value) Value {
		ifc := a[0].P.(*Iface)
		v := ifc.v
		return Value{P: &Closure{fn: &Fn{name: "swapper", intr: func(m *Machine, b []Value) Value {
			s := v.P.(*SliceVal)
			i, j := int(m.concInt(b[0], intInfo{64, true})), int(m.concInt(b[1], intInfo{64, true}))
			cn := len(s.obj.cells) / max(1, s.cap)
			for k := 0; k < cn; k++ {
				x, y := s.off+i*cn+k, s.off+j*cn+k
				s.obj.cells[x], s.obj.cells[y] = s.obj.cells[y], s.obj.cells[x]
			}
			return Value{}
		}}}}
	}
	return t
}

// overlaps is slices.overlaps for elements of cn cells (its body compares addresses).
func overlaps(cn int) intrinsic {
	return func(m *Machine, a []Value) Value {
		if a[0].P == nil || a[1].P == nil || cn == 0 {
			return Value{}
		}
		x, y := a[0].P.(*SliceVal), a[1].P.(*SliceVal)
		if x.obj == y.obj && x.len > 0 && y.len > 0 && x.off < y.off+y.len*cn && y.off < x.off+x.len*cn {
			return Value{N: 1}
		}
		return Value{}
	}
}
