// Package models holds the reference models the simulator compares with.
package models

import (
	"encoding/binary"
	"math/bits"
)

// SM3 is an independent implementation of GB/T 32905-2016, streaming only for
// the sake of very long messages.
type SM3 struct {
	v   [8]uint32
	buf []byte
	n   uint64
}

func NewSM3() *SM3 {
	return &SM3{v: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

func (s *SM3) Write(p []byte) {
	s.n += uint64(len(p))
	if len(s.buf) > 0 {
		k := 64 - len(s.buf)
		if k > len(p) {
			k = len(p)
		}
		s.buf = append(s.buf, p[:k]...)
		p = p[k:]
		if len(s.buf) < 64 {
			return
		}
		s.block(s.buf)
		s.buf = s.buf[:0]
	}
	for len(p) >= 64 {
		s.block(p[:64])
		p = p[64:]
	}
	s.buf = append(s.buf, p...)
}

func (s *SM3) block(b []byte) {
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		w[j] = x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	A, B, C, D, E, F, G, H := s.v[0], s.v[1], s.v[2], s.v[3], s.v[4], s.v[5], s.v[6], s.v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(A, 12)+E+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(A, 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = A^B^C, E^F^G
		} else {
			ff, gg = A&B|A&C|B&C, E&F|^E&G
		}
		tt1 := ff + D + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + H + ss1 + w[j]
		D = C
		C = bits.RotateLeft32(B, 9)
		B = A
		A = tt1
		H = G
		G = bits.RotateLeft32(F, 19)
		F = E
		E = tt2 ^ bits.RotateLeft32(tt2, 9) ^ bits.RotateLeft32(tt2, 17)
	}
	for i, x := range [8]uint32{A, B, C, D, E, F, G, H} {
		s.v[i] ^= x
	}
}

// Sum returns the digest without changing s.
func (s *SM3) Sum() []byte {
	c := *s
	c.buf = append([]byte(nil), s.buf...)
	n := s.n
	pad := []byte{0x80}
	for (int(n)+len(pad))%64 != 56 {
		pad = append(pad, 0)
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], n*8)
	c.Write(append(pad, l[:]...))
	out := make([]byte, 32)
	for i, x := range c.v {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

// SumSM3 is the one-shot digest.
func SumSM3(m []byte) []byte {
	s := NewSM3()
	s.Write(m)
	return s.Sum()
}
