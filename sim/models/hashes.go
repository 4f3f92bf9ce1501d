package models

import "crypto/sha3"

// Alg identifiers.
const (
	SHA3_224 = iota
	SHA3_256
	SHA3_384
	SHA3_512
	SM3ID
	SHAKE128
	SHAKE256
	CSHAKE128
	CSHAKE256
	NAlg
)

var AlgName = []string{"SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512", "SM3", "SHAKE128", "SHAKE256", "cSHAKE128", "cSHAKE256"}

// Rate is the block size.
func Rate(alg int) int {
	return []int{144, 136, 104, 72, 64, 168, 136, 168, 136}[alg]
}

// Size is the digest length (0 for XOFs).
func Size(alg int) int { return []int{28, 32, 48, 64, 32, 0, 0, 0, 0}[alg] }

// Digest of a fixed-length hash.
func Digest(alg int, m []byte) []byte {
	switch alg {
	case SHA3_224:
		d := sha3.Sum224(m)
		return d[:]
	case SHA3_256:
		d := sha3.Sum256(m)
		return d[:]
	case SHA3_384:
		d := sha3.Sum384(m)
		return d[:]
	case SHA3_512:
		d := sha3.Sum512(m)
		return d[:]
	case SM3ID:
		return SumSM3(m)
	}
	return nil
}

// XOF returns off..off+n of the output stream.
func XOF(alg int, N, S, m []byte, off, n int) []byte {
	var h *sha3.SHAKE
	switch alg {
	case SHAKE128:
		h = sha3.NewSHAKE128()
	case SHAKE256:
		h = sha3.NewSHAKE256()
	case CSHAKE128:
		h = sha3.NewCSHAKE128(N, S)
	case CSHAKE256:
		h = sha3.NewCSHAKE256(N, S)
	}
	h.Write(m)
	out := make([]byte, off+n)
	h.Read(out)
	return out[off:]
}

// SHAKE256Sum of concatenated parts.
func SHAKE256Sum(n int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

// SHAKE128Sum of concatenated parts.
func SHAKE128Sum(n int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE128()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}
