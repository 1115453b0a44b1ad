// Package nd is the interface between harnesses and the symbolic machine.
//
// The machine intercepts every exported function marked "machine"; the bodies
// below are their native meaning, used to replay a solver assignment against
// the really compiled code: inputs are read from a recorded list.
package nd

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime/debug"
)

// RecIn is one recorded input.
type RecIn struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

// Case is one recorded path.
type Case struct {
	Harness string         `json:"harness"`
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Inputs  []RecIn        `json:"inputs"`
	Params  map[string]int `json:"params"`
	Obs     []string       `json:"obs"`
	Asserts int            `json:"asserts"`
}

// Outcome is what a native run of a case did.
type Outcome struct {
	Result  string   `json:"result"` // ok, assert, panic, deadlock, mismatch
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Used    int      `json:"used"`
	Asserts int      `json:"asserts"`
	Stack   string   `json:"stack,omitempty"`
}

var (
	cur   *Case
	pos   int
	out   *Outcome
	uftab []ufEntry
	one   bool
	frees bool // free-running: real goroutines, real locks
)

type ufEntry struct {
	tag string
	in  string
	out []uint64
}

// RuntimeError stands for Go run-time panics inside the machine.
type RuntimeError struct{ S string }

func (e RuntimeError) Error() string { return e.S }

// FmtError is the machine's result of fmt.Errorf.
type FmtError struct{ S string }

func (e FmtError) Error() string { return e.S }

func stop(res, msg string) {
	out.Result, out.Msg, out.Used = res, msg, pos
	b, _ := json.Marshal(out)
	fmt.Println("OUTCOME " + string(b))
	os.Exit(0)
}

//go:norace
func next(kind string) uint64 {
	if cur == nil {
		return 0
	}
	if pos >= len(cur.Inputs) {
		if frees {
			return 0
		}
		stop("mismatch", "ran out of recorded inputs at "+kind)
	}
	r := cur.Inputs[pos]
	if r.K != kind {
		stop("mismatch", fmt.Sprintf("input %d: recorded %s, asked for %s", pos, r.K, kind))
	}
	pos++
	return r.V
}

// Arbitrary values (machine).
func Int() int         { return int(next("Int")) }
func Int64() int64     { return int64(next("Int64")) }
func Int32() int32     { return int32(next("Int32")) }
func Int16() int16     { return int16(next("Int16")) }
func Int8() int8       { return int8(next("Int8")) }
func Uint() uint       { return uint(next("Uint")) }
func Uint64() uint64   { return next("Uint64") }
func Uint32() uint32   { return uint32(next("Uint32")) }
func Uint16() uint16   { return uint16(next("Uint16")) }
func Uint8() uint8     { return uint8(next("Uint8")) }
func Uintptr() uintptr { return uintptr(next("Uintptr")) }
func Bool() bool       { return next("Bool") != 0 }
func Float64() float64 { return math.Float64frombits(next("Float64")) }
func Float32() float32 { return math.Float32frombits(uint32(next("Float32"))) }

// Choice forks over 0..n-1 (machine).
func Choice(n int) int { return int(next("choice")) }

// Assume restricts the inputs (machine).
func Assume(b bool) {
	if !b {
		stop("mismatch", "assumption false in native replay")
	}
}

// Assert states the property (machine).
func Assert(b bool, msg string) {
	if out != nil {
		out.Asserts++
	}
	if !b {
		stop("assert", msg)
	}
}

// Conc enumerates the values of x (machine).
func Conc(x int) int { return x }

// ConcBool forks on b (machine).
func ConcBool(b bool) bool { return b }

// Param is a bound of the harness, per tier (machine).
func Param(name string, quick, thorough int) int {
	if cur != nil {
		if v, ok := cur.Params[name]; ok {
			return v
		}
	}
	return quick
}

// Observations compared between the machine and native runs (machine).
func ObsInt(v int)    { obs(fmt.Sprintf("i%d", v)) }
func ObsU64(v uint64) { obs(fmt.Sprintf("u%d", v)) }
func ObsBool(v bool)  { obs(fmt.Sprintf("b%d", B2I(v))) }
func ObsStr(v string) { obs(fmt.Sprintf("s%x", v)) }
func obs(s string) {
	if out != nil {
		out.Obs = append(out.Obs, s)
	}
}

// Fork-free connectives (machine).
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// UF is an arbitrary n-word function of data, named tag (machine).
func UF(tag string, data []byte, n int) []uint64 {
	for _, e := range uftab {
		if e.tag == tag && e.in == string(data) && len(e.out) == n {
			return append([]uint64(nil), e.out...)
		}
	}
	o := make([]uint64, n)
	for i := range o {
		o[i] = next("UF")
	}
	uftab = append(uftab, ufEntry{tag, string(data), o})
	return append([]uint64(nil), o...)
}

// ---- interpreted helpers (ordinary code on both sides)

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// IntIn is an arbitrary int in [lo,hi].
func IntIn(lo, hi int) int {
	x := Int()
	Assume(And(lo <= x, x <= hi))
	return x
}

// ChoiceIn forks over lo..hi.
func ChoiceIn(lo, hi int) int { return lo + Choice(hi-lo+1) }

// Ints is n arbitrary ints.
func Ints(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = Int()
	}
	return s
}

// SortedInts is n arbitrary strictly increasing ints.
func SortedInts(n int) []int {
	s := make([]int, n)
	ok := true
	for i := range s {
		s[i] = Int()
		if i > 0 {
			ok = And(ok, s[i-1] < s[i])
		}
	}
	Assume(ok)
	return s
}

// Cover marks that the end of a harness was reached with v.
func Cover(v int) { ObsInt(v) }

// ---- native driver

// RunCase executes one recorded case natively.
func RunCase(c *Case, f func(), oneShot bool) *Outcome {
	debug.SetMaxStack(256 << 20)
	cur, pos, out, uftab, one = c, 0, &Outcome{Result: "ok"}, nil, oneShot
	resetThreads()
	defer func() { cur = nil }()
	o := out
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.Result, o.Msg, o.Stack = "panic", fmt.Sprint(r), string(debug.Stack())
			}
		}()
		f()
	}()
	o.Used = pos
	if o.Result == "ok" && pos != len(c.Inputs) {
		o.Result, o.Msg = "mismatch", fmt.Sprintf("used %d of %d inputs", pos, len(c.Inputs))
	}
	return o
}

// Main is the entry of generated replay programs.
func Main(hs map[string]func()) {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	var cs []*Case
	if err := json.Unmarshal(data, &cs); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	frees = len(os.Args) > 2 && os.Args[2] == "free"
	for _, c := range cs {
		f := hs[c.Harness]
		if f == nil {
			fmt.Println("no harness " + c.Harness)
			os.Exit(9)
		}
		n := 1
		if frees {
			n = 200
		}
		var o *Outcome
		for i := 0; i < n; i++ {
			o = RunCase(c, f, len(cs) == 1)
		}
		b, _ := json.Marshal(o)
		fmt.Println("OUTCOME " + string(b))
	}
}

// Fprintf and friends stand in for fmt's in the machine.
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintf(f, a...)))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(fmt.Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmt.Sprintln(a...))) }

// Pick is an arbitrary int in [0,n), split by value.
func Pick(n int) int { return Conc(IntIn(0, n-1)) }
