// Package rand replaces math/rand: every number drawn is arbitrary within
// the documented range.
package rand

import (
	"verif.local/h/nd"
	"verif.local/h/racy"
)

// Fixed, set by a harness, decides the next 64 random bits.
var Fixed func() (uint64, bool)

func draw() uint64 {
	if Fixed != nil {
		if v, ok := Fixed(); ok {
			return v
		}
	}
	return nd.Uint64()
}

type Source interface {
	Int63() int64
	Seed(seed int64)
}
type src struct{}

func (src) Int63() int64 { return Int63() }
func (src) Seed(int64)   {}

func NewSource(seed int64) Source { return src{} }

type Rand struct {
	s Source
	n int
}

func New(s Source) *Rand { return &Rand{s: s} }

func Seed(int64)     {}
func Uint64() uint64 { return draw() }
func Uint32() uint32 { return uint32(draw() >> 32) }
func Int63() int64   { return int64(draw() >> 1) }
func Int31() int32   { return int32(draw() >> 33) }
func Int() int       { return int(draw() >> 1) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	x := int64(draw())
	if Fixed != nil {
		return int64(uint64(x) % uint64(n))
	}
	nd.Assume(nd.And(0 <= x, x < n))
	return x
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(Int63n(int64(n)))
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Int63n(int64(n)))
}
func Float64() float64 { return float64(nd.Conc(Intn(4))) / 4 }
func Float32() float32 { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := nd.Choice(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, nd.Choice(i+1))
	}
}

func (r *Rand) Seed(int64)                         { racy.Touch(&r.n) }
func (r *Rand) Uint64() uint64                     { racy.Touch(&r.n); return Uint64() }
func (r *Rand) Uint32() uint32                     { racy.Touch(&r.n); return Uint32() }
func (r *Rand) Int63() int64                       { racy.Touch(&r.n); return Int63() }
func (r *Rand) Int31() int32                       { racy.Touch(&r.n); return Int31() }
func (r *Rand) Int() int                           { racy.Touch(&r.n); return Int() }
func (r *Rand) Int63n(n int64) int64               { racy.Touch(&r.n); return Int63n(n) }
func (r *Rand) Int31n(n int32) int32               { racy.Touch(&r.n); return Int31n(n) }
func (r *Rand) Intn(n int) int                     { racy.Touch(&r.n); return Intn(n) }
func (r *Rand) Float64() float64                   { racy.Touch(&r.n); return Float64() }
func (r *Rand) Float32() float32                   { racy.Touch(&r.n); return Float32() }
func (r *Rand) Perm(n int) []int                   { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { racy.Touch(&r.n); Shuffle(n, swap) }
