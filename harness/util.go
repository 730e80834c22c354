package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
)

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		for j := range 8 {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

// sparseBytes makes bytes dense in small values (start codes, escapes).
func sparseBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch r.IntN(8) {
		case 0, 1, 2, 3:
			b[i] = 0
		case 4:
			b[i] = 1
		case 5:
			b[i] = 3
		case 6:
			b[i] = byte(r.IntN(5))
		default:
			b[i] = byte(r.IntN(256))
		}
	}
	return b
}

func payload(r *rand.Rand, n int) []byte {
	switch r.IntN(5) {
	case 0:
		return sparseBytes(r, n)
	case 1:
		b := make([]byte, n)
		v := byte(r.IntN(256))
		if r.IntN(2) == 0 {
			v = 0x47
		}
		for i := range b {
			b[i] = v
		}
		return b
	default:
		return randBytes(r, n)
	}
}

func pick[T any](r *rand.Rand, l ...T) T {
	return l[r.IntN(len(l))]
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

func cloneList(l [][]byte) [][]byte {
	if l == nil {
		return nil
	}
	r := make([][]byte, len(l))
	for i, b := range l {
		r[i] = clone(b)
	}
	return r
}

func equalList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// bitWriter is an independent bit writer (one bool per bit).
type bitWriter struct {
	bits []byte
}

func (w *bitWriter) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if i >= 64 {
			w.bits = append(w.bits, 0)
		} else {
			w.bits = append(w.bits, byte((v>>uint(i))&1))
		}
	}
}

func (w *bitWriter) flag(v bool) {
	if v {
		w.u(1, 1)
	} else {
		w.u(1, 0)
	}
}

func (w *bitWriter) ue(v uint32) {
	x := uint64(v) + 1
	n := 0
	for (x >> uint(n+1)) != 0 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, x)
}

func (w *bitWriter) se(v int32) {
	if v > 0 {
		w.ue(uint32(2*int64(v) - 1))
	} else {
		w.ue(uint32(-2 * int64(v)))
	}
}

func (w *bitWriter) bytes(b []byte) {
	for _, x := range b {
		w.u(8, uint64(x))
	}
}

func (w *bitWriter) align() {
	for len(w.bits)%8 != 0 {
		w.bits = append(w.bits, 0)
	}
}

// trailing adds rbsp trailing bits.
func (w *bitWriter) trailing() {
	w.u(1, 1)
	w.align()
}

func (w *bitWriter) out() []byte {
	b := make([]byte, (len(w.bits)+7)/8)
	for i, v := range w.bits {
		b[i/8] |= v << uint(7-i%8)
	}
	return b
}

// escape inserts emulation prevention bytes.
func escape(in []byte) []byte {
	var out []byte
	zeros := 0
	for _, b := range in {
		if zeros >= 2 && b <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, b)
		if b == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return out
}

// chunkReader splits a buffer in reads of the given sizes.
type chunkReader struct {
	b         []byte
	next      func() int // maximum size of the next read
	err       error      // returned at the end (io.EOF if nil)
	errWith   bool       // return the error together with the last bytes
	reads     int
	afterEnd  int
	datagrams bool // discard the part of a datagram that does not fit, like sockets do
	discarded int
	hangLimit int // reads after the end that are considered a hang
}

var errHang = errors.New("verif: reader called over and over after the end of the stream")

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	err := c.err
	if err == nil {
		err = io.EOF
	}
	if len(c.b) == 0 {
		c.afterEnd++
		if c.hangLimit > 0 && c.afterEnd > c.hangLimit {
			panic(failure{msg: fmt.Sprintf("underlying reader called %d times after it reported the end of the stream", c.afterEnd)})
		}
		return 0, err
	}
	n := len(p)
	if c.datagrams {
		m := min(c.next(), len(c.b))
		n = copy(p, c.b[:m])
		c.discarded += m - n
		c.b = c.b[m:]
	} else {
		if c.next != nil {
			if m := c.next(); m < n {
				n = m
			}
		}
		n = copy(p[:n], c.b)
		c.b = c.b[n:]
	}
	if c.errWith && len(c.b) == 0 {
		return n, err
	}
	return n, nil
}
