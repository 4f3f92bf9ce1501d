package scn

import (
	"errors"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	. "verifsim/engine"
)

// Soiling gives key objects an arbitrary past before they are used for what a
// property is about. It runs inside t.Must.

// fillReader is a healthy device with fixed contents; it fails after left bytes
// when left is not negative.
type fillReader struct {
	r    *Rng
	left int
}

var errSoil = errors.New("device failed")

func (f *fillReader) Read(p []byte) (int, error) {
	for i := range p {
		if f.left == 0 {
			return i, errSoil
		}
		f.left--
		p[i] = byte(f.r.U64())
	}
	return len(p), nil
}

// soilSidh uses a private and a public key object (either may be nil) of one
// field and variant for other keys.
func soilSidh(prv *sidh.PrivateKey, pub *sidh.PublicKey, f, v int, seed uint64) {
	r := NewRng(seed)
	for n := r.N(6); n > 0; n-- {
		k := known(f, v, r.N(3))
		switch r.Pick(3, 3, 2, 4, 2, 3, 3, 1, 1) {
		case 0:
			if prv != nil {
				prv.Import([]byte(k.Prv))
			}
		case 1:
			if pub != nil {
				pub.Import([]byte(k.Pub))
			}
		case 2:
			if prv != nil {
				expPrv(prv)
			}
		case 3:
			if pub != nil {
				expPub(pub)
			}
		case 4:
			if pub != nil {
				pub.Import([]byte(k.Pub)[r.N(2):])
				pub.Import([]byte(k.Pub + "x")[:len(k.Pub)+r.N(2)])
			}
			if prv != nil {
				prv.Import([]byte(k.Prv)[1:])
			}
		case 5:
			if prv != nil {
				prv.Generate(&fillReader{r, -1})
			}
		case 6:
			if prv != nil && pub != nil && (f == 0 || r.Chance(30)) {
				prv.Import([]byte(k.Prv))
				prv.GeneratePublicKey(pub)
				if r.Chance(50) {
					expPub(pub)
				}
			}
		case 7:
			if prv != nil {
				prv.Generate(&fillReader{r, r.N(60)})
			}
		case 8:
			if f > 0 && !r.Chance(30) {
				break
			}
			// a derivation with this private key, or one from this public key
			if prv != nil {
				o := 1
				if v == 1 {
					o = 0
				}
				prv.Import([]byte(k.Prv))
				prv.DeriveSecret(make([]byte, prv.SharedSecretSize()), impPub(f, o, []byte(known(f, o, r.N(3)).Pub)))
			} else if pub != nil && v < 2 {
				q := impPrv(f, 1-v, []byte(known(f, 1-v, r.N(3)).Prv))
				pub.Import([]byte(k.Pub))
				q.DeriveSecret(make([]byte, q.SharedSecretSize()), pub)
			}
		}
	}
}

// soilCsidh does the same for CSIDH.
func soilCsidh(prv *csidh.PrivateKey, pub *csidh.PublicKey, seed uint64) {
	r := NewRng(seed)
	rng := &fillReader{r, -1}
	for n := r.N(6); n > 0; n-- {
		k := knownCsidh[r.N(len(knownCsidh))]
		switch r.Pick(4, 4, 3, 3, 2, 2, 1, 1) {
		case 0:
			if prv != nil {
				prv.Import([]byte(k[0]))
			}
		case 1:
			if pub != nil {
				pub.Import([]byte(k[1]))
			}
		case 2:
			if prv != nil {
				prv.Export(make([]byte, 37))
			}
		case 3:
			if pub != nil {
				pub.Export(make([]byte, 64))
			}
		case 4:
			if prv != nil {
				prv.Import([]byte(k[0])[1:])
			}
			if pub != nil {
				pub.Import([]byte(k[1])[1:])
			}
		case 5:
			if prv != nil {
				csidh.GeneratePrivateKey(prv, rng)
			}
		case 6: // the object validates as an honest key
			if pub != nil && r.Chance(40) {
				pub.Import([]byte(k[1]))
				csidh.Validate(pub, rng)
			}
		case 7: // a public key computed here
			if pub != nil && prv != nil && r.Chance(60) {
				prv.Import(sparseKey(r, r.N(3)))
				csidh.GeneratePublicKey(pub, prv, rng)
				if r.Chance(50) {
					pub.Export(make([]byte, 64))
				}
			}
		}
	}
}
