package models

import (
	"encoding/hex"
	"testing"
)

// fill repeats engine.Fill(7, 0, n) without importing it.
func fill(n int) []byte {
	b := make([]byte, n)
	s := uint64(7)
	for i := 0; i < n; i += 8 {
		s += 0x9e3779b97f4a7c15
		z := s
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		for j := 0; j < 8 && i+j < n; j++ {
			b[i+j] = byte(z >> uint(8*j))
		}
	}
	return b
}

func TestHuge(t *testing.T) {
	want := hugeKnown[513]
	delete(hugeKnown, 513)
	got := hex.EncodeToString(HugeSM3(513, fill(1<<20)))
	if got != want {
		t.Errorf("got %s want %s", got, want)
	}
}
