// Package sha512 replaces crypto/sha512: the digest is an arbitrary function
// of the bytes written.
package sha512

import (
	"hash"

	"verif.local/h/nd"
)

const (
	Size      = 64
	BlockSize = 128
)

type digest struct{ b []byte }

func (h *digest) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *digest) Reset()                      { h.b = nil }
func (h *digest) Size() int                   { return Size }
func (h *digest) BlockSize() int              { return BlockSize }
func (h *digest) Sum(in []byte) []byte {
	s := sum(h.b)
	return append(in, s...)
}

// Fixed, set by a harness, decides the digest words of some inputs; the
// others stay arbitrary.
var Fixed func(b []byte) []uint64

func sum(b []byte) []byte {
	var w []uint64
	if Fixed != nil {
		w = Fixed(b)
	}
	if w == nil {
		w = nd.UF("sha512", b, 8)
	}
	r := make([]byte, 0, 64)
	for _, v := range w {
		r = append(r, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return r
}

func New() hash.Hash { return &digest{} }
func Sum512(data []byte) (r [Size]byte) {
	copy(r[:], sum(data))
	return
}

type digestN struct {
	tag string
	n   int
	b   []byte
}

func (h *digestN) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *digestN) Reset()                      { h.b = nil }
func (h *digestN) Size() int                   { return h.n }
func (h *digestN) BlockSize() int              { return BlockSize }
func (h *digestN) Sum(in []byte) []byte        { return append(in, sumN(h.tag, h.n, h.b)...) }

func sumN(tag string, n int, b []byte) []byte {
	w := nd.UF(tag, b, (n+7)/8)
	r := make([]byte, 0, 64)
	for _, v := range w {
		r = append(r, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return r[:n]
}

const (
	Size224 = 28
	Size256 = 32
	Size384 = 48
)

func New384() hash.Hash     { return &digestN{tag: "sha384", n: Size384} }
func New512_224() hash.Hash { return &digestN{tag: "sha512_224", n: Size224} }
func New512_256() hash.Hash { return &digestN{tag: "sha512_256", n: Size256} }
func Sum384(data []byte) (r [Size384]byte) {
	copy(r[:], sumN("sha384", Size384, data))
	return
}
func Sum512_224(data []byte) (r [Size224]byte) {
	copy(r[:], sumN("sha512_224", Size224, data))
	return
}
func Sum512_256(data []byte) (r [Size256]byte) {
	copy(r[:], sumN("sha512_256", Size256, data))
	return
}
