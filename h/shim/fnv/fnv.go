// Package fnv replaces hash/fnv: the hash is an arbitrary function of the
// bytes written.
package fnv

import (
	"hash"

	"verif.local/h/nd"
)

// Fixed, set by a harness, decides the 64-bit hashes of some inputs; the
// others stay arbitrary.
var Fixed func(b []byte) (uint64, bool)

type h64 struct {
	tag string
	b   []byte
}

func (h *h64) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *h64) Reset()                      { h.b = nil }
func (h *h64) Size() int                   { return 8 }
func (h *h64) BlockSize() int              { return 1 }
func (h *h64) Sum64() uint64 {
	if Fixed != nil {
		if v, ok := Fixed(h.b); ok {
			return v
		}
	}
	return nd.UF(h.tag, h.b, 1)[0]
}
func (h *h64) Sum(in []byte) []byte {
	v := h.Sum64()
	return append(in, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

type h32 struct {
	tag string
	b   []byte
}

func (h *h32) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *h32) Reset()                      { h.b = nil }
func (h *h32) Size() int                   { return 4 }
func (h *h32) BlockSize() int              { return 1 }
func (h *h32) Sum32() uint32               { return uint32(nd.UF(h.tag, h.b, 1)[0]) }
func (h *h32) Sum(in []byte) []byte {
	v := h.Sum32()
	return append(in, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func New64() hash.Hash64  { return &h64{tag: "fnv64"} }
func New64a() hash.Hash64 { return &h64{tag: "fnv64a"} }
func New32() hash.Hash32  { return &h32{tag: "fnv32"} }
func New32a() hash.Hash32 { return &h32{tag: "fnv32a"} }
