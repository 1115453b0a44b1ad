// Package binary replaces encoding/binary for the reflection-based Read and
// Write on the fixed-size types gostl uses; the byte orders are the real ones.
package binary

import (
	rb "encoding/binary"
	"errors"
	"io"
)

type ByteOrder = rb.ByteOrder

var LittleEndian = rb.LittleEndian
var BigEndian = rb.BigEndian

func Write(w io.Writer, o rb.ByteOrder, data any) error {
	var b []byte
	var t [8]byte
	put := func(v uint64) { o.PutUint64(t[:], v); b = append(b, t[:]...) }
	put4 := func(v uint32) { o.PutUint32(t[:4], v); b = append(b, t[:4]...) }
	switch v := data.(type) {
	case uint64:
		put(v)
	case *uint64:
		put(*v)
	case int64:
		put(uint64(v))
	case *int64:
		put(uint64(*v))
	case uint32:
		put4(v)
	case *uint32:
		put4(*v)
	case int32:
		put4(uint32(v))
	case uint8:
		b = append(b, v)
	case []uint8:
		b = append(b, v...)
	case []uint64:
		for _, x := range v {
			put(x)
		}
	case []int64:
		for _, x := range v {
			put(uint64(x))
		}
	case []uint32:
		for _, x := range v {
			put4(x)
		}
	default:
		return errors.New("binary.Write: invalid type")
	}
	_, err := w.Write(b)
	return err
}

func Read(r io.Reader, o rb.ByteOrder, data any) error {
	get := func(n int) ([]byte, error) {
		b := make([]byte, n)
		_, err := io.ReadFull(r, b)
		return b, err
	}
	switch v := data.(type) {
	case *uint64:
		b, err := get(8)
		if err != nil {
			return err
		}
		*v = o.Uint64(b)
	case *int64:
		b, err := get(8)
		if err != nil {
			return err
		}
		*v = int64(o.Uint64(b))
	case *uint32:
		b, err := get(4)
		if err != nil {
			return err
		}
		*v = o.Uint32(b)
	case *int32:
		b, err := get(4)
		if err != nil {
			return err
		}
		*v = int32(o.Uint32(b))
	case *uint8:
		b, err := get(1)
		if err != nil {
			return err
		}
		*v = b[0]
	case []uint64:
		b, err := get(8 * len(v))
		if err != nil {
			return err
		}
		for i := range v {
			v[i] = o.Uint64(b[8*i:])
		}
	case []int64:
		b, err := get(8 * len(v))
		if err != nil {
			return err
		}
		for i := range v {
			v[i] = int64(o.Uint64(b[8*i:]))
		}
	case []uint32:
		b, err := get(4 * len(v))
		if err != nil {
			return err
		}
		for i := range v {
			v[i] = o.Uint32(b[4*i:])
		}
	case []uint8:
		b, err := get(len(v))
		if err != nil {
			return err
		}
		copy(v, b)
	default:
		return errors.New("binary.Read: invalid type")
	}
	return nil
}
