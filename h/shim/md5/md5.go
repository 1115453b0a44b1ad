// Package md5 replaces crypto/md5: the digest is an arbitrary function of the
// bytes written.
package md5

import (
	"hash"

	"verif.local/h/nd"
)

const (
	Size      = 16
	BlockSize = 64
)

type digest struct{ b []byte }

func (h *digest) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *digest) Reset()                      { h.b = nil }
func (h *digest) Size() int                   { return Size }
func (h *digest) BlockSize() int              { return BlockSize }
func (h *digest) Sum(in []byte) []byte        { return append(in, sum(h.b)...) }

func sum(b []byte) []byte {
	w := nd.UF("md5", b, (Size+7)/8)
	r := make([]byte, 0, 64)
	for _, v := range w {
		r = append(r, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return r[:Size]
}

func New() hash.Hash { return &digest{} }
func Sum(data []byte) (r [Size]byte) {
	copy(r[:], sum(data))
	return
}
