package models

import (
	"encoding/hex"
	"testing"
)

func TestSM3(t *testing.T) {
	if g := hex.EncodeToString(SumSM3([]byte("abc"))); g != "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" {
		t.Fatal(g)
	}
	m := []byte("abcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcd")
	if g := hex.EncodeToString(SumSM3(m)); g != "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732" {
		t.Fatal(g)
	}
}
