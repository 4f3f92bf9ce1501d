package scn

import (
	"fmt"
	"io"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
)

// K05 and K06: histories of imports, exports, uses and misuses of key objects.

const (
	kSP = iota // SIDH/SIKE public
	kSK        // SIDH/SIKE private
	kCP        // CSIDH public
	kCK        // CSIDH private
)

// kobj is a key object together with the bytes it must export.
type kobj struct {
	kind, f, v int
	sp         *sidh.PublicKey
	sk         *sidh.PrivateKey
	cp         *csidh.PublicKey
	ck         *csidh.PrivateKey
	want       []byte
	src        int // index of the constant key it holds, -1 otherwise
}

func newKobj(kind, f, v int, alt bool) *kobj {
	o := &kobj{kind: kind, f: f, v: v, src: -1}
	switch kind {
	case kSP:
		if alt {
			o.sp = new(sidh.PublicKey)
			o.sp.Init(fields[f], variants[v])
		} else {
			o.sp = sidh.NewPublicKey(fields[f], variants[v])
		}
		o.want = make([]byte, o.sp.Size())
	case kSK:
		if alt {
			o.sk = new(sidh.PrivateKey)
			o.sk.Init(fields[f], variants[v])
		} else {
			o.sk = sidh.NewPrivateKey(fields[f], variants[v])
		}
		o.want = make([]byte, o.sk.Size())
	case kCP:
		o.cp = new(csidh.PublicKey)
		o.want = make([]byte, 64)
	default:
		o.ck = new(csidh.PrivateKey)
		o.want = make([]byte, 37)
	}
	return o
}

// imp imports b; it tells whether the import was accepted.
func (o *kobj) imp(b []byte) bool {
	switch o.kind {
	case kSP:
		return o.sp.Import(b) == nil
	case kSK:
		return o.sk.Import(b) == nil
	case kCP:
		return o.cp.Import(b)
	}
	return o.ck.Import(b)
}

func (o *kobj) exp() []byte {
	b := make([]byte, len(o.want))
	switch o.kind {
	case kSP:
		o.sp.Export(b)
	case kSK:
		o.sk.Export(b)
	case kCP:
		o.cp.Export(b)
	default:
		o.ck.Export(b)
	}
	return b
}

func (o *kobj) name() string {
	switch o.kind {
	case kSP:
		return fmt.Sprintf("SIDH public key (%s, variant %d)", fieldName[o.f], variants[o.v])
	case kSK:
		return fmt.Sprintf("SIDH private key (%s, variant %d)", fieldName[o.f], variants[o.v])
	case kCP:
		return "CSIDH public key"
	}
	return "CSIDH private key"
}

// knownBytes is the encoding of the i-th constant key of the object's kind.
func (o *kobj) knownBytes(i int) []byte {
	switch o.kind {
	case kSP:
		return []byte(known(o.f, o.v, i).Pub)
	case kSK:
		return []byte(known(o.f, o.v, i).Prv)
	case kCP:
		return []byte(knownCsidh[i%len(knownCsidh)][1])
	}
	return []byte(knownCsidh[i%len(knownCsidh)][0])
}

func (o *kobj) nknown() int {
	if o.kind < kCP {
		return 3
	}
	return len(knownCsidh)
}

type keyWorld struct {
	id string
}

type keyTask struct {
	*keyWorld
	t    *Task
	o    [6]*kobj
	kem  [2]*kslot
	mk   *mkem.MultiKEM
	mkf  int
	last string
}

// check compares the object's export with what it must hold.
func (k *keyTask) check(o *kobj, after string) {
	var b []byte
	k.t.Must(k.id, func() { b = o.exp() })
	k.t.S.St.Probes["exports-compared"]++
	if !eq(b, o.want) {
		k.t.Fail("content", "%s exports %s after %s, expected %s", o.name(), hexs(b), after, hexs(o.want))
	}
}

func (w *keyWorld) task(t *Task) {
	k := &keyTask{keyWorld: w, t: t, last: "nothing"}
	s := t.S
	start := 0
	t.Boundary()
	if t.Node.Epoch > 0 {
		start = len(t.Plan.Ops) / 2
	}
	for i := range t.Plan.Ops {
		op := &t.Plan.Ops[i]
		if i < start && op.K != "obj" && op.K != "kem" {
			continue
		}
		t.Boundary()
		s.St.Ops["key-"+op.K]++
		k.op(i, op)
	}
	for _, o := range k.o {
		if o != nil {
			t.Boundary()
			k.check(o, "the last operation")
			k.use(o, 0)
		}
	}
}

func (k *keyTask) slot(op *Op) *kobj { return k.o[abs(op.Arg(0))%len(k.o)] }

func (k *keyTask) op(i int, op *Op) {
	t, s := k.t, k.t.S
	o := k.slot(op)
	switch op.K {
	case "obj":
		t.Must(k.id, func() {
			k.o[abs(op.Arg(0))%len(k.o)] = newKobj(op.Arg(1)&3, op.Arg(2)%3, op.Arg(3)%3, op.Arg(4)&1 == 1)
		})
		return
	case "kem":
		f := op.Arg(3) % 3
		e := s.NewEntropy(op.E)
		t.Must(k.id, func() {
			k.kem[op.Arg(0)&1] = &kslot{newKEM(op.Arg(1)&1, op.Arg(2)&1, f, e), op.Arg(1) & 1, f, e}
		})
		return
	case "misuse":
		k.misuse(i, op)
		return
	}
	if o == nil {
		return
	}
	s.Logf("t%d %s %s", t.ID, op.K, o.name())
	switch op.K {
	case "imp": // a constant key
		n := op.Arg(1) % o.nknown()
		b := o.knownBytes(n)
		k.doImp(o, b, n)
	case "any": // arbitrary well-formed content
		k.doImp(o, anyKey(o, uint64(op.Arg(1)), op.Arg(2)), -1)
	case "move": // from another object of the same kind, through its export
		p := k.o[abs(op.Arg(1))%len(k.o)]
		if p == nil || p.kind != o.kind || p.kind < kCP && (p.f != o.f || p.v != o.v) {
			// from a new object that imported the same
			n := op.Arg(1) % o.nknown()
			p = newKobj(o.kind, o.f, o.v, false)
			t.Must(k.id, func() { p.imp(clone(o.knownBytes(n))) })
			p.want, p.src = o.knownBytes(n), n
		}
		var b []byte
		t.Must(k.id, func() { b = p.exp() })
		k.check(p, "being exported")
		k.doImp(o, b, p.src)
		if !eq(b, p.want) {
			t.Fail("content", "%s exported %s instead of %s", p.name(), hexs(b), hexs(p.want))
		}
	case "again":
		b := o.exp()
		k.doImp(o, b, o.src)
		k.doImp(o, b, o.src)
	case "gen":
		e := s.NewEntropy(op.E)
		switch o.kind {
		case kSK:
			var err error
			t.Must(k.id, func() { err = o.sk.Generate(e) })
			if err != nil {
				t.Fail("generate", "key generation failed with a healthy source: %v", err)
			}
			o.want, o.src = o.exp(), -1
		case kSP: // computed from a constant private key
			n := op.Arg(1) % 3
			t.Must(k.id, func() { impPrv(o.f, o.v, []byte(known(o.f, o.v, n).Prv)).GeneratePublicKey(o.sp) })
			o.want, o.src = o.knownBytes(n), n
			k.check(o, "GeneratePublicKey")
		case kCP:
			n := op.Arg(1) % 5
			var prv csidh.PrivateKey
			t.Must(k.id, func() { prv.Import([]byte(knownCsidh[n][0])); csidh.GeneratePublicKey(o.cp, &prv, e) })
			o.want, o.src = o.knownBytes(n), n
			k.check(o, "GeneratePublicKey")
		case kCK:
			t.Must(k.id, func() { csidh.GeneratePrivateKey(o.ck, e) })
			o.want, o.src = o.exp(), -1
		}
	case "fail": // key generation that fails half-way; what is left is replaced by an import
		e := s.NewEntropy(&EntPlan{Seed: op.Arg(1), Fault: []EntFault{{At: op.Arg(2), Kind: "err"}}})
		t.Op(func() {
			switch o.kind {
			case kSK:
				o.sk.Generate(e)
			case kCK:
				csidh.GeneratePrivateKey(o.ck, e)
			case kCP:
				var prv csidh.PrivateKey
				prv.Import([]byte(knownCsidh[op.Arg(1)%5][0]))
				csidh.GeneratePublicKey(o.cp, &prv, e)
			}
		})
		n := op.Arg(1) % o.nknown()
		k.doImp(o, o.knownBytes(n), n)
	case "bad": // an import that is refused
		k.badImport(o, op)
	case "disk":
		name := fmt.Sprintf("k%d", op.Arg(1))
		if op.Arg(2)&1 == 0 {
			if t.WriteDisk(name, append([]byte{byte(o.kind<<4 | o.f<<2 | o.v), byte(o.src + 1)}, o.exp()...)) != nil {
				s.St.Probes["key-not-persisted"]++
			}
			return
		}
		if rec, ok := t.ReadDisk(name); ok && len(rec) > 2 && rec[0] == byte(o.kind<<4|o.f<<2|o.v) {
			k.doImp(o, rec[2:], int(rec[1])-1)
			s.St.Probes["key-reloaded-from-disk"]++
		}
	case "reinit": // the object is made ready for another field or variant
		if o.kind >= kCP {
			return
		}
		o.f, o.v, o.src = op.Arg(1)%3, op.Arg(2)%3, -1
		fresh := newKobj(o.kind, o.f, o.v, false)
		var n int
		t.Must(k.id, func() {
			if o.kind == kSP {
				o.sp.Init(fields[o.f], variants[o.v])
				n = o.sp.Size()
			} else {
				o.sk.Init(fields[o.f], variants[o.v])
				n = o.sk.Size()
			}
		})
		o.want = fresh.want
		if n != len(o.want) {
			t.Fail("content", "%s has size %d after Init, expected %d", o.name(), n, len(o.want))
		}
		m := op.Arg(3) % o.nknown()
		k.doImp(o, o.knownBytes(m), m)
		s.St.Probes["objects-reinitialised"]++
	case "exp":
		k.check(o, k.last)
		k.check(o, "being exported")
	case "use":
		k.use(o, op.Arg(1))
	}
	k.last = op.K
}

func (k *keyTask) doImp(o *kobj, b []byte, src int) {
	in, same := clone(b), false
	k.t.Must(k.id, func() { same = o.imp(in) })
	if !same {
		k.t.Fail("refused", "%s refused an intact encoding of %d bytes", o.name(), len(b))
	}
	o.want, o.src = clone(b), src
	k.check(o, "an import")
}

// anyKey is arbitrary well-formed content for an object's kind.
func anyKey(o *kobj, seed uint64, kind int) []byte {
	b := Fill(seed, kind%6, len(o.want))
	switch o.kind {
	case kSP:
		return randPub(o.f, seed, kind%3)
	case kSK:
		p := common.Params(fields[o.f])
		ml, bits := 0, p.B.SecretBitLen
		if o.v == 0 {
			bits = p.A.SecretBitLen
		} else if o.v == 2 {
			ml = p.MsgLen
		}
		for i := range b[ml:] {
			switch l := uint(8 * i); {
			case l >= bits:
				b[ml+i] = 0
			case l+8 > bits:
				b[ml+i] &= 1<<(bits-l) - 1
			}
		}
	case kCP: // below p
		b[63] &= 0x3f
	case kCK: // exponents in [-5, 5]
		for i, c := range b {
			lo, hi := int8(c<<4)>>4, int8(c)>>4
			b[i] = byte(lo%6)&15 | byte(hi%6)<<4
		}
	}
	return b
}

// use performs an operation whose result is known and compares it.
func (k *keyTask) use(o *kobj, how int) {
	t, s := k.t, k.t.S
	if o.src < 0 {
		return
	}
	s.St.Probes["keys-used"]++
	bad := func(what string, got, want []byte) {
		t.Fail("behaviour", "%s holding an imported key: %s is %s, expected %s", o.name(), what, hexs(got), hexs(want))
	}
	switch o.kind {
	case kSP, kSK:
		kk := known(o.f, o.v, o.src)
		if o.v == 2 {
			// decapsulate the constant ciphertext with this object as one half of the pair
			var pub *sidh.PublicKey
			var prv *sidh.PrivateKey
			var c *kslot
			for _, x := range k.kem {
				if x != nil && x.f == o.f {
					c = x
				}
			}
			ss := make([]byte, common.Params(fields[o.f]).KemSize)
			var err error
			t.Must(k.id, func() {
				if c == nil {
					c = &kslot{newKEM(how&1, how>>1&1, o.f, s.NewEntropy(nil)), how & 1, o.f, nil}
				}
				if o.kind == kSP {
					pub, prv = o.sp, impPrv(o.f, 2, []byte(kk.Prv))
				} else {
					pub, prv = impPub(o.f, 2, []byte(kk.Pub)), o.sk
				}
				err = c.k.Decapsulate(ss, prv, pub, []byte(kk.Ct))
			})
			if err != nil || !eq(ss, []byte(kk.Secret)) {
				bad(fmt.Sprintf("the decapsulated secret (%v)", err), ss, []byte(kk.Secret))
			}
			break
		}
		if o.kind == kSK && how%2 == 0 {
			var pb []byte
			t.Must(k.id, func() {
				pub := sidh.NewPublicKey(fields[o.f], variants[o.v])
				o.sk.GeneratePublicKey(pub)
				pb = expPub(pub)
			})
			if !eq(pb, []byte(kk.Pub)) {
				bad("its public key", pb, []byte(kk.Pub))
			}
			break
		}
		peer := known(o.f, 1-o.v, o.src)
		ss := make([]byte, common.Params(fields[o.f]).SharedSecretSize)
		t.Must(k.id, func() {
			if o.kind == kSP {
				impPrv(o.f, 1-o.v, []byte(peer.Prv)).DeriveSecret(ss, o.sp)
			} else {
				o.sk.DeriveSecret(ss, impPub(o.f, 1-o.v, []byte(peer.Pub)))
			}
		})
		if !eq(ss, []byte(kk.Secret)) {
			bad("the shared secret", ss, []byte(kk.Secret))
		}
	case kCP, kCK:
		if o.src == 5 || o.kind == kCK && o.src == 4 && how%4 > 0 {
			// the full-size key is expensive; used now and then
			if how%8 != 0 {
				break
			}
		}
		n := len(knownCsidh)
		e := s.NewEntropy(&EntPlan{Seed: how})
		if o.kind == kCK && how%2 == 0 {
			b := make([]byte, 64)
			t.Must(k.id, func() {
				var pub csidh.PublicKey
				csidh.GeneratePublicKey(&pub, o.ck, e)
				pub.Export(b)
			})
			if !eq(b, []byte(knownCsidh[o.src][1])) {
				bad("its public key", b, []byte(knownCsidh[o.src][1]))
			}
			break
		}
		// secret i is shared by the keys i and i+1
		var ss [64]byte
		var ok bool
		var want []byte
		t.Must(k.id, func() {
			if o.kind == kCK {
				var pub csidh.PublicKey
				pub.Import([]byte(knownCsidh[(o.src+1)%n][1]))
				want = []byte(knownCsidh[o.src][2])
				ok = csidh.DeriveSecret(&ss, &pub, o.ck, e)
			} else {
				var prv csidh.PrivateKey
				i := (o.src + n - 1) % n
				prv.Import([]byte(knownCsidh[i][0]))
				want = []byte(knownCsidh[i][2])
				ok = csidh.DeriveSecret(&ss, o.cp, &prv, e)
			}
		})
		if !ok || !eq(ss[:], want) {
			bad(fmt.Sprintf("the shared secret (accepted: %v)", ok), ss[:], want)
		}
	}
	k.check(o, "being used")
}

var badLens = []int{0, 1, -1, -2, 1000, -1000, 330, 378, 564, 64, 37, 28, 44, 8}

// badImport tries an import of a wrong length.
func (k *keyTask) badImport(o *kobj, op *Op) {
	t, s := k.t, k.t.S
	n := len(o.want)
	var l int
	switch d := badLens[abs(op.Arg(1))%len(badLens)]; {
	case d == 1000:
		l = 2 * n
	case d == -1000:
		l = n / 2
	case d == 1:
		l = n + 1 + op.Arg(2)%9
	case d < 0:
		l = n + d
	default:
		l = d
	}
	if l == n || l < 0 {
		return
	}
	b := Fill(uint64(op.Arg(2)), 0, l)
	if l == 0 && op.Arg(2)&1 == 0 {
		b = nil
	}
	if l <= n && op.Arg(2)%3 == 0 {
		copy(b, o.knownBytes(0))
	}
	var ok bool
	t.Must(k.id, func() { ok = o.imp(b) })
	s.St.Probes["refusals"]++
	if ok && k.id == "K06" {
		t.Fail("length", "%s accepted an encoding of %d bytes instead of %d", o.name(), l, n)
	}
	if k.id == "K06" {
		k.check(o, fmt.Sprintf("refusing an import of %d bytes", l))
	} else {
		k.doImp(o, o.knownBytes(op.Arg(2)%o.nknown()), op.Arg(2)%o.nknown())
	}
}

// refuse runs a misuse; it must not succeed silently.
func (k *keyTask) refuse(what string, fn func() bool) {
	t := k.t
	refused := false
	pv := t.Op(func() { refused = fn() })
	if pv == nil && !refused {
		t.Fail("misuse", "%s was not refused", what)
	}
	t.S.St.Probes["refusals"]++
	t.S.Logf("t%d refused %s", t.ID, what)
}

func (k *keyTask) misuse(i int, op *Op) {
	t, s := k.t, k.t.S
	o := k.slot(op)
	c := k.kem[op.Arg(0)&1]
	m := op.Arg(1) % 17
	a, b := abs(op.Arg(2)), abs(op.Arg(3))
	s.St.Ops[fmt.Sprintf("misuse-%02d", m)]++
	e := s.NewEntropy(&EntPlan{Seed: a})
	f := a % 3
	if c != nil {
		f = c.f
	}
	f2 := (f + 1 + b%2) % 3 // another field
	kk := known(f, 2, a)
	n := common.Params(fields[f])
	ct, okc := slack(pattern(n.CiphertextSize, i), 8)
	ss, oks := slack(pattern(n.KemSize, i+1), 8)
	outs := [][]byte{ct, ss}
	was := [][]byte{clone(ct), clone(ss)}
	// keys that take part, with what they must still hold afterwards
	var part []*kobj
	mk := func(kind, f, v, n int) *kobj {
		p := newKobj(kind, f, v, false)
		t.Must(k.id, func() { p.imp(clone(p.knownBytes(n))) })
		p.want, p.src = p.knownBytes(n), n%p.nknown()
		part = append(part, p)
		return p
	}
	what := ""
	// a refused call draws no randomness: what comes after it is what would have come without it
	dev := []*Entropy{e}
	if c != nil && c.e != nil {
		dev = append(dev, c.e)
	}
	pos := -1
	drawn := func() (n int) {
		for _, d := range dev {
			n += d.Pos()
		}
		return
	}
	switch m {
	case 0, 1: // public key of the wrong kind or field for GeneratePublicKey
		p, q := mk(kSK, f, a%3, b), (*kobj)(nil)
		if m == 0 {
			q = mk(kSP, f, (a%3+1+b%2)%3, b)
		} else {
			q = mk(kSP, f2, a%3, b)
		}
		what = "GeneratePublicKey of " + p.name() + " into " + q.name()
		k.refuse(what, func() bool {
			if b%2 == 0 {
				p.sk.GeneratePublicKey(q.sp)
			} else {
				sidh.GeneratePublicKey(q.sp, p.sk)
			}
			return false
		})
	case 2, 3: // derivation from a key of the same kind or another field
		var p, q *kobj
		if m == 2 {
			p, q = mk(kSK, f, a%3, b), mk(kSP, f, a%3, b+1)
		} else {
			p, q = mk(kSK, f, a%2, b), mk(kSP, f2, 1-a%2, b)
		}
		out, okx := slack(pattern(common.Params(fields[f]).SharedSecretSize, i), 8)
		w := clone(out)
		what = "DeriveSecret of " + p.name() + " with " + q.name()
		k.refuse(what, func() bool {
			if b%2 == 0 {
				p.sk.DeriveSecret(out, q.sp)
			} else {
				sidh.DeriveSecret(out, q.sp, p.sk)
			}
			return false
		})
		if !eq(out, w) || !okx() {
			t.Fail("output", "%s was refused but changed the output buffer", what)
		}
	case 4: // secret buffer too short
		p, q := mk(kSK, f, a%2, b), mk(kSP, f, 1-a%2, b)
		l := n.SharedSecretSize - 1 - b%n.SharedSecretSize
		out, okx := slack(pattern(l, i), 8)
		w := clone(out)
		what = fmt.Sprintf("DeriveSecret into %d bytes (%s)", l, fieldName[f])
		k.refuse(what, func() bool { p.sk.DeriveSecret(out, q.sp); return false })
		if !eq(out, w) || !okx() {
			t.Fail("output", "%s was refused but changed the output buffer", what)
		}
	case 5, 6, 7: // encapsulation: wrong kind, wrong field, short buffers
		if c == nil {
			return
		}
		v, ff := 2, f
		cl, sl := len(ct), len(ss)
		switch {
		case m == 5:
			v = a % 2
		case m == 6:
			ff = f2
		case b%2 == 0:
			cl = cl - 1 - a%cl
		default:
			sl = sl - 1 - a%sl
		}
		q := mk(kSP, ff, v, b)
		what = fmt.Sprintf("Encapsulate (%s, package %d) to %s with buffers of %d and %d bytes", fieldName[f], c.pkg, q.name(), cl, sl)
		pos = drawn()
		k.refuse(what, func() bool { return c.k.Encapsulate(ct[:cl:cl], ss[:sl:sl], q.sp) != nil })
	case 8, 9, 10, 11: // decapsulation: wrong kind, wrong field, sizes
		if c == nil {
			return
		}
		pv, qv, pf, qf := 2, 2, f, f
		cl, sl := n.CiphertextSize, len(ss)
		switch m {
		case 8:
			if b%2 == 0 {
				pv = a % 2
			} else {
				qv = a % 2
			}
		case 9:
			if b&4 == 0 {
				qf = f2
			} else if b&8 == 0 {
				pf = f2
			} else {
				pf, qf = f2, f2
			}
		case 10:
			sl = sl - 1 - a%sl
		case 11:
			cl = []int{cl - 1, cl + 1, 0, cl - n.MsgLen, cl / 2, cl + 64}[a%6]
		}
		p, q := mk(kSK, pf, pv, b), mk(kSP, qf, qv, b)
		in := make([]byte, cl, cl+600)
		copy(in, kk.Ct)
		w := clone(in)
		what = fmt.Sprintf("Decapsulate (%s, package %d) with %s, %s, %d bytes of ciphertext and a secret buffer of %d", fieldName[f], c.pkg, p.name(), q.name(), cl, sl)
		k.refuse(what, func() bool { return c.k.Decapsulate(ss[:sl:sl], p.sk, q.sp, in) != nil })
		if !eq(in, w) {
			t.Fail("input", "%s was refused but changed the ciphertext", what)
		}
	case 12: // unallocated KEM
		p, q := mk(kSK, f, 2, b), mk(kSP, f, 2, b)
		var u kemI = new(sidh.KEM)
		if a%2 == 0 {
			u = new(mkem.KEM)
		}
		what = "use of an unallocated KEM"
		k.refuse(what, func() bool {
			if b%2 == 0 {
				return u.Encapsulate(ct, ss, q.sp) != nil
			}
			return u.Decapsulate(ss, p.sk, q.sp, []byte(kk.Ct)) != nil
		})
	case 13, 14: // multi-recipient KEM
		var u mkem.MultiKEM
		p, q := mk(kSK, f, 2, b), mk(kSP, f, 2, b)
		ml := n.KemSize
		in := make([]byte, ml)
		if m == 13 {
			var g0, g1, g2, gs []byte
			t.Must(k.id, func() {
				u.Allocate(fields[f], 2, e)
				// an earlier ciphertext the object must keep
				gs = make([]byte, ml)
				if (a%8 < 3 || a%8 == 7) && b%3 > 0 {
					if err := u.Encapsulate(gs, []*sidh.PublicKey{q.sp, q.sp}); err != nil {
						panic(err)
					}
				}
				g0, g1, g2 = clone(mkCt0(&u)), clone(mkEntry(&u, 0)), clone(mkEntry(&u, 1))
			})
			pos = drawn()
			defer func() {
				if !s.Over() && (!eq(g0, mkCt0(&u)) || !eq(g1, mkEntry(&u, 0)) || !eq(g2, mkEntry(&u, 1))) {
					t.Fail("output", "%s was refused but changed the ciphertext the object holds", what)
				}
			}()
			switch a % 8 {
			case 0:
				q = mk(kSP, f, b%2, b)
				what = "MultiKEM.Encapsulate to " + q.name()
				k.refuse(what, func() bool { return u.Encapsulate(ss, []*sidh.PublicKey{q.sp}) != nil })
			case 1:
				q2 := mk(kSP, f2, 2, b)
				what = "MultiKEM.Encapsulate to " + q2.name()
				k.refuse(what, func() bool { return u.Encapsulate(ss, []*sidh.PublicKey{q.sp, q2.sp}) != nil })
			case 2:
				what = "MultiKEM.Encapsulate to more recipients than allocated"
				k.refuse(what, func() bool { return u.Encapsulate(ss, []*sidh.PublicKey{q.sp, q.sp, q.sp}) != nil })
			case 3:
				what = "MultiKEM.Encapsulate into a short secret"
				k.refuse(what, func() bool { return u.Encapsulate(ss[:ml-1-b%ml], []*sidh.PublicKey{q.sp}) != nil })
			case 4:
				what = "MultiKEM.Decapsulate of a ciphertext of a wrong size"
				k.refuse(what, func() bool {
					return u.Decapsulate(ss, p.sk, q.sp, make([]byte, []int{0, ml - 1, ml + 1, 2 * ml}[b%4])) != nil
				})
			case 5:
				what = "MultiKEM.Decapsulate into a short secret"
				k.refuse(what, func() bool { return u.Decapsulate(ss[:ml-1-b%ml], p.sk, q.sp, in) != nil })
			case 6:
				if b%2 == 0 {
					p = mk(kSK, f, b>>1&1, b)
				} else {
					q = mk(kSP, f, b>>1&1, b)
				}
				what = "MultiKEM.Decapsulate with " + p.name() + " and " + q.name()
				k.refuse(what, func() bool { return u.Decapsulate(ss, p.sk, q.sp, in) != nil })
			case 7:
				if b&3 != 1 {
					p = mk(kSK, f2, 2, b)
				}
				if b&3 != 2 {
					q = mk(kSP, f2, 2, b)
				}
				what = "MultiKEM.Decapsulate (" + fieldName[f] + ") with " + p.name() + " and " + q.name()
				k.refuse(what, func() bool { return u.Decapsulate(ss, p.sk, q.sp, in) != nil })
			}
		} else {
			what = "use of an unallocated MultiKEM"
			k.refuse(what, func() bool {
				if a%2 == 0 {
					return u.Encapsulate(ss, []*sidh.PublicKey{q.sp}) != nil
				}
				return u.Decapsulate(ss, p.sk, q.sp, in) != nil
			})
		}
	case 15: // exports of CSIDH keys into buffers of the wrong size
		var x func([]byte) bool
		var l int
		if a%2 == 0 {
			q := mk(kCP, 0, 0, b%6)
			x = q.cp.Export
			l = []int{0, 63, 65, 37, 128}[b%5]
		} else {
			q := mk(kCK, 0, 0, b%6)
			x = q.ck.Export
			l = []int{0, 36, 1, 18, 30}[b%5]
		}
		buf, okx := slack(pattern(l, i), 8)
		w := clone(buf)
		what = fmt.Sprintf("export of a CSIDH key into %d bytes", l)
		k.refuse(what, func() bool { return !x(buf) })
		if !eq(buf, w) || !okx() {
			t.Fail("output", "%s was refused but changed the buffer", what)
		}
	}
	if m == 16 { // multi-recipient encryption to too many recipients
		nr := a % 3
		q, twin := newPslot(1, nr, b%50), newPslot(1, nr, b%50)
		pks := make([]csidh.PublicKey, nr+1+b%2)
		for j := range pks {
			pks[j].Import([]byte(knownCsidh[(a+j)%5][1]))
		}
		copy(q.m.Ct0[:], pattern(64, i))
		for j := range q.m.Cts {
			copy(q.m.Cts[j][:], pattern(64, i+j))
		}
		g0, g := q.m.Ct0, append([][64]byte(nil), q.m.Cts...)
		pt := [16]byte{1, byte(a)}
		what = fmt.Sprintf("MultiPKE.Encrypt to %d recipients on an object for %d", len(pks), nr)
		k.refuse(what, func() bool { q.m.Encrypt(pks, &pt); return false })
		if q.m.Ct0 != g0 || pt != [16]byte{1, byte(a)} {
			t.Fail("output", "%s was refused but changed the object's ciphertext or the plaintext", what)
		}
		for j := range g {
			if q.m.Cts[j] != g[j] {
				t.Fail("output", "%s was refused but changed entry %d of the object's ciphertext", what, j)
			}
		}
		for j := range pks {
			var x [64]byte
			if pks[j].Export(x[:]); !eq(x[:], []byte(knownCsidh[(a+j)%5][1])) {
				t.Fail("keys", "%s was refused but changed a recipient's key", what)
			}
		}
		// the generator goes on as if nothing had happened
		var r1, r2 [40]byte
		t.Must(k.id, func() { q.g.Read(r1[:]) })
		s.Quiet(func() { twin.g.Read(r2[:]) })
		if r1 != r2 {
			t.Fail("after", "%s was refused but used up output of the generator", what)
		}
	}
	if pos >= 0 && pos != drawn() {
		t.Fail("after", "%s was refused but used up %d bytes of the random source", what, drawn()-pos)
	}
	if o != nil && m == 0 {
		k.badImport(o, op)
	}
	for j := range outs {
		if !eq(outs[j], was[j]) {
			t.Fail("output", "%s was refused but changed an output buffer", what)
		}
	}
	if !okc() || !oks() {
		t.Fail("output", "%s was refused but wrote outside an output buffer", what)
	}
	for _, p := range part {
		k.check(p, "refused: "+what)
	}
	// the objects still work
	if b%3 == 0 && len(part) > 0 {
		k.use(part[a%len(part)], b)
	}
	if c != nil && m >= 5 && m <= 11 && a%2 == 0 {
		k.goodKem(c, kk, i)
	}
}

// goodKem: after refused calls the KEM object encapsulates and decapsulates.
func (k *keyTask) goodKem(c *kslot, kk *knownKey, i int) {
	t := k.t
	f := c.f
	pub, prv := impPub(f, 2, []byte(kk.Pub)), impPrv(f, 2, []byte(kk.Prv))
	var err error
	ss := make([]byte, c.k.SharedSecretSize())
	t.Must(k.id, func() { err = c.k.Decapsulate(ss, prv, pub, []byte(kk.Ct)) })
	if err != nil || !eq(ss, []byte(kk.Secret)) {
		t.Fail("after", "after a refused call decapsulation gives %s (%v), expected %s", hexs(ss), err, hexs([]byte(kk.Secret)))
	}
	if i%2 == 0 {
		ct := make([]byte, c.k.CiphertextSize())
		t.Must(k.id, func() { err = c.k.Encapsulate(ct, ss, pub) })
		if err != nil {
			t.Fail("after", "after a refused call encapsulation fails: %v", err)
		}
		s2 := make([]byte, len(ss))
		t.S.Quiet(func() { newKEM(0, 0, f, noReader{}).Decapsulate(s2, prv, pub, ct) })
		if !eq(s2, ss) {
			t.Fail("after", "after a refused call the encapsulated secret %s is not recovered (%s)", hexs(ss), hexs(s2))
		}
	}
	t.S.St.Probes["kem-works-after-refusal"]++
}

type noReader struct{}

func (noReader) Read(p []byte) (int, error) { return 0, io.EOF }

func genKeys(id string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "keys", P: map[string]int{}}
		nn := r.In(1, 2)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		nt := r.Pick(3, 2, 1) + 1
		for k := 0; k < nt; k++ {
			tp := TaskPlan{Node: r.N(nn)}
			f := r.Pick(5, 3, 1)
			no := r.In(1, 4)
			// several objects of one kind make moves likely
			kind, v := r.N(4), r.N(3)
			for j := 0; j < no; j++ {
				if r.Chance(50) {
					kind, v = r.N(4), r.N(3)
				}
				tp.Ops = append(tp.Ops, Op{K: "obj", I: []int{j, kind, f, v, r.N(2)}})
			}
			if r.Chance(60) || id == "K06" {
				tp.Ops = append(tp.Ops, Op{K: "kem", I: []int{0, r.N(2), r.N(2), f}, E: GenEnt(r)})
				tp.Ops = append(tp.Ops, Op{K: "kem", I: []int{1, r.N(2), r.N(2), r.Pick(5, 3, 1)}, E: GenEnt(r)})
			}
			n := len(tp.Ops) + r.In(3, 20)
			for len(tp.Ops) < n {
				sl := r.N(no)
				if id == "K06" && r.Chance(65) {
					if r.Chance(40) {
						tp.Ops = append(tp.Ops, Op{K: "bad", I: []int{sl, r.N(len(badLens)), r.N(1 << 16)}})
					} else {
						tp.Ops = append(tp.Ops, Op{K: "misuse", I: []int{sl, r.N(17), r.N(1 << 16), r.N(1 << 16)}})
					}
					continue
				}
				switch r.Pick(6, 6, 4, 1, 2, 1, 1, 3, 2, 2, 1) {
				case 10:
					tp.Ops = append(tp.Ops, Op{K: "reinit", I: []int{sl, r.Pick(5, 3, 1), r.N(3), r.N(6)}})
				case 0:
					tp.Ops = append(tp.Ops, Op{K: "imp", I: []int{sl, r.N(6)}})
				case 1:
					tp.Ops = append(tp.Ops, Op{K: "any", I: []int{sl, r.N(1 << 20), r.N(6)}})
				case 2:
					tp.Ops = append(tp.Ops, Op{K: "move", I: []int{sl, r.N(no + 1)}})
				case 3:
					tp.Ops = append(tp.Ops, Op{K: "again", I: []int{sl}})
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "gen", I: []int{sl, r.N(6)}, E: GenEnt(r)})
				case 5:
					tp.Ops = append(tp.Ops, Op{K: "fail", I: []int{sl, r.N(1 << 16), r.N(70)}})
				case 6:
					tp.Ops = append(tp.Ops, Op{K: "bad", I: []int{sl, r.N(len(badLens)), r.N(1 << 16)}})
				case 7:
					tp.Ops = append(tp.Ops, Op{K: "use", I: []int{sl, r.N(16)}})
				case 8:
					tp.Ops = append(tp.Ops, Op{K: "disk", I: []int{sl, r.N(3), r.N(2)}})
				case 9:
					tp.Ops = append(tp.Ops, Op{K: "exp", I: []int{sl}})
				}
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		if id == "K05" {
			if r.Chance(50) {
				for j := r.In(1, 5); j > 0; j-- {
					pl.Disk = append(pl.Disk, DiskFate{Lost: r.Chance(15), Torn: r.Pick(3, 1) * r.Log(60), Fail: r.Chance(15), Rot: r.Pick(3, 1) * r.Log(800)})
				}
			}
			if r.Chance(40) {
				for j := r.In(1, 3); j > 0; j-- {
					pl.Crash = append(pl.Crash, Crash{Node: r.N(nn), Op: r.In(1, 20), Down: r.Log(60)})
				}
			}
		}
		genSched(r, pl, 60000, 10, fnPool("dh/sidh", "dh/csidh.P", "dh/csidh.G", "kem/mkem.KEM"), false)
		return pl
	}
}

func execKeys(id string) func(s *Sim) {
	return func(s *Sim) {
		w := &keyWorld{id: id}
		for ni, nd := range s.Nodes {
			ni := ni
			nd.OnBoot(func(nd *Node) {
				for i := range s.Plan.Tasks {
					tp := &s.Plan.Tasks[i]
					if tp.Node%len(s.Nodes) == ni {
						s.Spawn(fmt.Sprintf("t%d", i), nd, tp, w.task)
					}
				}
			})
		}
		s.Run()
	}
}

func init() {
	real := []string{"dh/sidh keys (public, private; SIDH A, SIDH B, SIKE; p434, p503, p751)", "dh/csidh keys", "kem/mkem", "dh/sidh SIKE"}
	Register(&Prop{ID: "K05", Title: "import replaces", Quick: 4500, Thorough: 200000, Gen: genKeys("K05"), Exec: execKeys("K05"),
		Rule: "it is non-trivial when a key was imported", Real: real,
		Stub:   []string{"scheduler", "disk (torn, lost, failing, rotten writes)", "entropy devices", "CPU features per node", "crash and restart of nodes"},
		Probes: []string{"exports-compared", "keys-used", "key-reloaded-from-disk", "crash-between-operations", "damaged-disk-record-detected"}})
	Register(&Prop{ID: "K06", Title: "malformed input refused", Quick: 4800, Thorough: 200000, Gen: genKeys("K06"), Exec: execKeys("K06"),
		Rule: "it is non-trivial when a call was refused", Real: real,
		Stub:   []string{"scheduler", "the caller (wrong lengths, kinds, fields and buffer sizes)", "entropy devices", "CPU features per node"},
		Probes: []string{"refusals", "exports-compared", "keys-used", "kem-works-after-refusal"}})
}
