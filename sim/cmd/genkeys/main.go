// Command genkeys writes scn/keys_gen.go: known keys, secrets and ciphertexts
// computed once with the library and used as constants by the scenarios.
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	. "verifsim/engine"
)

type rd struct{ r *Rng }

func (x rd) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(x.r.U64())
	}
	return len(b), nil
}

func main() {
	rng := rd{NewRng(20260)}
	var o bytes.Buffer
	fmt.Fprintln(&o, "// Code generated by cmd/genkeys. DO NOT EDIT.\n\npackage scn\n\nvar knownSidh = []knownKey{")
	for _, f := range []uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751} {
		for i := 0; i < 3; i++ {
			var pr [3]*sidh.PrivateKey
			var pu [3]*sidh.PublicKey
			for k, v := range []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike} {
				pr[k] = sidh.NewPrivateKey(f, v)
				pu[k] = sidh.NewPublicKey(f, v)
				if err := pr[k].Generate(rng); err != nil {
					panic(err)
				}
				pr[k].GeneratePublicKey(pu[k])
			}
			s1 := make([]byte, pr[0].SharedSecretSize())
			s2 := make([]byte, pr[0].SharedSecretSize())
			pr[0].DeriveSecret(s1, pu[1])
			pr[1].DeriveSecret(s2, pu[0])
			if !bytes.Equal(s1, s2) {
				panic("no agreement")
			}
			var k sidh.KEM
			k.Allocate(f, rng)
			ct := make([]byte, k.CiphertextSize())
			ss := make([]byte, k.SharedSecretSize())
			s3 := make([]byte, k.SharedSecretSize())
			k.Encapsulate(ct, ss, pu[2])
			k.Decapsulate(s3, pr[2], pu[2], ct)
			if !bytes.Equal(ss, s3) {
				panic("kem")
			}
			for k := range pr {
				a := make([]byte, pr[k].Size())
				b := make([]byte, pu[k].Size())
				pr[k].Export(a)
				pu[k].Export(b)
				sec, c := s1, []byte(nil)
				if k == 2 {
					sec, c = ss, ct
				}
				fmt.Fprintf(&o, "\t{%d, %d, %q, %q, %q, %q},\n", f, pr[k].KeyVariant, a, b, sec, c)
			}
		}
	}
	fmt.Fprintln(&o, "}\n\n// private key, public key, secret with the next one (cyclic)\nvar knownCsidh = [][3]string{")
	const n = 6
	var pr [n]csidh.PrivateKey
	var pu [n]csidh.PublicKey
	for i := 0; i < n; i++ {
		if i < n-1 {
			b := make([]byte, 37)
			for j := 0; j < 3+i; j++ {
				k := rng.r.N(74)
				v := byte(rng.r.N(11)-5) & 15
				b[k>>1] = b[k>>1]&(0xf0>>(4*uint(k%2))) | v<<(4*uint(k%2))
			}
			pr[i].Import(b)
		} else if err := csidh.GeneratePrivateKey(&pr[i], rng); err != nil {
			panic(err)
		}
		csidh.GeneratePublicKey(&pu[i], &pr[i], rng)
	}
	for i := 0; i < n; i++ {
		var s1, s2 [64]byte
		j := (i + 1) % n
		if !csidh.DeriveSecret(&s1, &pu[j], &pr[i], rng) || !csidh.DeriveSecret(&s2, &pu[i], &pr[j], rng) || s1 != s2 {
			panic("csidh")
		}
		a := make([]byte, 37)
		b := make([]byte, 64)
		pr[i].Export(a)
		pu[i].Export(b)
		fmt.Fprintf(&o, "\t{%q, %q, %q},\n", a, b, s1[:])
	}
	fmt.Fprintln(&o, "}")
	if err := os.WriteFile(os.Args[1], o.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
