package scn

import (
	"bytes"
	"io"
	"math/big"
	"reflect"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
)

type knownKey struct {
	F      uint8
	V      sidh.KeyVariant
	Prv    string
	Pub    string
	Secret string // SIDH: secret of the A and B keys of the same triple; SIKE: encapsulated secret
	Ct     string
}

var fields = []uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751}
var variants = []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike}
var fieldName = []string{"p434", "p503", "p751"}

// known returns the i-th constant key of field f (index), variant v (index).
func known(f, v, i int) *knownKey { return &knownSidh[(f*3+abs(i)%3)*3+v] }

func expPub(k *sidh.PublicKey) []byte {
	b := make([]byte, k.Size())
	k.Export(b)
	return b
}
func expPrv(k *sidh.PrivateKey) []byte {
	b := make([]byte, k.Size())
	k.Export(b)
	return b
}

func impPub(f, v int, b []byte) *sidh.PublicKey {
	k := sidh.NewPublicKey(fields[f], variants[v])
	k.Import(clone(b))
	return k
}
func impPrv(f, v int, b []byte) *sidh.PrivateKey {
	k := sidh.NewPrivateKey(fields[f], variants[v])
	k.Import(clone(b))
	return k
}

type ringKey struct {
	kind, f, v, slot int
}

// ring gives one of the objects a program keeps for keys of other parties:
// two times out of three the one used before, into which the key is imported.
func ring(t *Task, k ringKey, mk func() interface{}) interface{} {
	if t.Ring == nil {
		t.Ring = map[interface{}]interface{}{}
	}
	n, _ := t.Ring["n"].(int)
	t.Ring["n"] = n + 1
	o, ok := t.Ring[k]
	if !ok || n%3 == 2 {
		o = mk()
		t.Ring[k] = o
	} else {
		t.S.St.Probes["key-object-reused-for-another-key"]++
	}
	return o
}

// rePub and rePrv import into an object that may have held another key.
func rePub(t *Task, f, v, slot int, b []byte) *sidh.PublicKey {
	k := ring(t, ringKey{0, f, v, slot}, func() interface{} { return sidh.NewPublicKey(fields[f], variants[v]) }).(*sidh.PublicKey)
	k.Import(clone(b))
	return k
}
func rePrv(t *Task, f, v, slot int, b []byte) *sidh.PrivateKey {
	k := ring(t, ringKey{1, f, v, slot}, func() interface{} { return sidh.NewPrivateKey(fields[f], variants[v]) }).(*sidh.PrivateKey)
	k.Import(clone(b))
	return k
}

// kemI is what both SIKE packages offer.
type kemI interface {
	Allocate(id uint8, rng io.Reader)
	Encapsulate(ct, ss []byte, pub *sidh.PublicKey) error
	Decapsulate(ss []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

// newKEM makes a KEM object: pkg 0 dh/sidh, 1 kem/mkem; ctor 0 NewSike*, 1 Allocate.
func newKEM(pkg, ctor, f int, rng io.Reader) kemI {
	if ctor == 0 {
		if pkg == 0 {
			return []func(io.Reader) *sidh.KEM{sidh.NewSike434, sidh.NewSike503, sidh.NewSike751}[f](rng)
		}
		return []func(io.Reader) *mkem.KEM{mkem.NewSike434, mkem.NewSike503, mkem.NewSike751}[f](rng)
	}
	var k kemI
	if pkg == 0 {
		k = new(sidh.KEM)
	} else {
		k = new(mkem.KEM)
	}
	k.Allocate(fields[f], rng)
	return k
}

// generatePrivateKey calls the package function, whether or not it returns an error.
func generatePrivateKey(prv *sidh.PrivateKey, rng io.Reader) (err error, reports bool) {
	r := reflect.ValueOf(sidh.GeneratePrivateKey).Call([]reflect.Value{reflect.ValueOf(prv), reflect.ValueOf(&rng).Elem()})
	if len(r) == 0 {
		return nil, false
	}
	if !r[0].IsNil() {
		err = r[0].Interface().(error)
	}
	return err, true
}

var sidhPrime = func() []*big.Int {
	mk := func(e2, e3 uint) *big.Int {
		p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil)
		p.Lsh(p, e2)
		return p.Sub(p, big.NewInt(1))
	}
	return []*big.Int{mk(216, 137), mk(250, 159), mk(372, 239)}
}()

// addP replaces the k-th field element of an encoded key by its value plus p.
func addP(f int, b []byte, k int) bool {
	l := common.Params(fields[f]).Bytelen
	k %= len(b) / l
	e := b[k*l : (k+1)*l]
	v := new(big.Int).SetBytes(rev(e))
	v.Add(v, sidhPrime[f])
	x := v.Bytes()
	if len(x) > l {
		return false
	}
	for i := range e {
		e[i] = 0
	}
	copy(e, rev(x))
	return true
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// randPub is an arbitrary canonical public-key encoding (not a real key).
func randPub(f int, seed uint64, kind int) []byte {
	l := common.Params(fields[f]).Bytelen
	var o []byte
	r := NewRng(seed)
	for i := 0; i < 6; i++ {
		v := new(big.Int).SetBytes(Fill(r.U64(), kind, l+8))
		v.Mod(v, sidhPrime[f])
		if kind == 2 {
			v.Sub(sidhPrime[f], big.NewInt(int64(1+r.N(3))))
		}
		e := make([]byte, l)
		copy(e, rev(v.Bytes()))
		o = append(o, e...)
	}
	return o
}

// keySpace tells whether a scalar lies in the documented key space.
func keySpace(f, v int, sc []byte) bool {
	p := common.Params(fields[f])
	bits := p.B.SecretBitLen
	if v == 0 {
		bits = p.A.SecretBitLen
	}
	return new(big.Int).SetBytes(rev(sc)).BitLen() == int(bits)
}

func lowBitsEqual(f, v int, a, b []byte) bool {
	p := common.Params(fields[f])
	bits := p.B.SecretBitLen
	if v == 0 {
		bits = p.A.SecretBitLen
	}
	m := new(big.Int).Lsh(big.NewInt(1), bits-1)
	m.Sub(m, big.NewInt(1))
	x := new(big.Int).SetBytes(rev(a))
	y := new(big.Int).SetBytes(rev(b))
	return x.And(x, m).Cmp(y.And(y, m)) == 0
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }
