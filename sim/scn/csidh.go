package scn

import (
	"errors"
	"io"
	"math/big"

	"github.com/henrydcase/nobs/dh/csidh"
	. "verifsim/engine"
)

// C02, C03, C04: CSIDH over hostile random devices and hostile public keys.

var csidhPrime = func() *big.Int {
	p := new(big.Int)
	for i := len(csidhWords) - 1; i >= 0; i-- {
		p.Lsh(p, 64)
		p.Or(p, new(big.Int).SetUint64(csidhWords[i]))
	}
	return p
}()

var csidhWords = []uint64{
	0x1B81B90533C6C87B, 0xC2721BF457ACA835,
	0x516730CC1F0B4F25, 0xA7AAC6C567F35507,
	0x5AFBFCC69322C9CD, 0xB42D083AEDC88C42,
	0xFC8AB0D15E3E4C4A, 0x65B48E8F740F89BF,
}

func csidhEnc(v *big.Int) []byte {
	b := make([]byte, 64)
	copy(b, rev(v.Bytes()))
	return b
}
func csidhDec(b []byte) *big.Int { return new(big.Int).SetBytes(rev(b)) }

// mont is v in the Montgomery form the library exports.
func mont(v int64) *big.Int {
	x := new(big.Int).Lsh(big.NewInt(v), 512)
	return x.Mod(x, csidhPrime)
}

// hostile derives an encoding from an honest one. valid tells the verdict.
func hostile(pub []byte, kind int, seed uint64) (enc []byte, valid bool, what string) {
	a := csidhDec(pub)
	p := csidhPrime
	r := NewRng(seed)
	switch kind % 20 {
	default:
		return clone(pub), true, "honest"
	case 1: // the quadratic twist
		v := new(big.Int).Sub(p, a)
		return csidhEnc(v.Mod(v, p)), true, "twist of an honest key"
	case 2:
		return make([]byte, 64), true, "the base curve"
	case 3:
		return csidhEnc(a.Add(a, p)), false, "honest value plus p"
	case 4:
		return csidhEnc(mont(2)), false, "singular 2"
	case 5:
		return csidhEnc(mont(-2)), false, "singular -2"
	case 6:
		return csidhEnc(p), false, "p"
	case 7:
		return csidhEnc(new(big.Int).Add(mont(2), p)), false, "2 plus p"
	case 8:
		b := make([]byte, 64)
		for i := range b {
			b[i] = 0xff
		}
		return b, false, "all ones"
	case 9:
		b := clone(pub)
		b[r.N(64)] ^= 1 << uint(r.N(8))
		return b, false, "one bit flipped"
	case 10:
		b := clone(pub)
		b[r.N(64)] ^= byte(1 + r.N(255))
		return b, false, "one byte changed"
	case 11:
		b := Fill(seed, 0, 64)
		b[63] &= 0x3f
		return b, false, "random value"
	case 12: // low bit
		b := clone(pub)
		b[0] ^= 1
		return b, false, "lowest bit flipped"
	case 13: // high bit: out of range
		b := clone(pub)
		b[63] ^= 0x80
		return b, false, "highest bit flipped"
	case 14:
		// 6 is supersingular (j = 287496, p = 3 mod 4); the other integers are not
		n := int64(3 + r.N(40))
		return csidhEnc(mont(n)), n == 6, "small integer"
	case 15: // bytes rotated
		n := 1 + r.N(63)
		b := append(clone(pub[n:]), pub[:n]...)
		return b, eq(b, pub), "bytes rotated"
	case 16: // truncated and refilled
		b := clone(pub)
		for i := r.N(63) + 1; i < 64; i++ {
			b[i] = 0
		}
		return b, eq(b, pub) || allZeros(b), "tail lost"
	case 17:
		v := new(big.Int).Sub(p, big.NewInt(int64(1+r.N(3))))
		return csidhEnc(v), false, "p minus a little"
	case 18:
		return csidhEnc(new(big.Int).Add(p, big.NewInt(int64(r.N(3))))), false, "p plus a little"
	case 19: // p plus a multiple of a word: compares equal in all but one limb
		v := new(big.Int).Lsh(big.NewInt(1), uint(64*r.N(8)))
		return csidhEnc(v.Add(v, p)), false, "p plus one in one word"
	}
}

func allZeros(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// what a plain computation on new objects gives, remembered per process
var memo = map[string]string{}

// plainSrc is a random source that always delivers everything asked for.
type plainSrc struct{ r *Rng }

func (p plainSrc) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(p.r.U64())
	}
	return len(b), nil
}

func plainRng() io.Reader { return plainSrc{NewRng(1)} }

type cworld struct {
	id string
}

type cobj struct {
	prv  csidh.PrivateKey
	pub  csidh.PublicKey
	prvB []byte
	pubB []byte
	ok   bool   // pubB is a valid key
	what string // and what it is
}

// keyBytes draws a private key: a constant one or a sparse one.
func cKey(sel int) ([]byte, int) {
	if sel%3 == 0 {
		i := sel / 3 % 5
		if sel%21 == 0 && sel%4 == 0 {
			i = 5
		}
		return []byte(knownCsidh[i][0]), i
	}
	return sparseKey(NewRng(uint64(sel)*977), 1+sel%5), -1
}

func (w *cworld) pubOf(t *Task, prv []byte) []byte {
	for i := range knownCsidh {
		if string(prv) == knownCsidh[i][0] {
			return []byte(knownCsidh[i][1])
		}
	}
	k := "pub" + string(prv)
	if v, ok := memo[k]; ok {
		return []byte(v)
	}
	b := make([]byte, 64)
	t.S.Quiet(func() {
		var a csidh.PrivateKey
		var p csidh.PublicKey
		a.Import(prv)
		csidh.GeneratePublicKey(&p, &a, plainRng())
		p.Export(b)
	})
	memo[k] = string(b)
	return b
}

func (w *cworld) secretOf(t *Task, prv, pub []byte) []byte {
	for i := range knownCsidh {
		if string(prv) == knownCsidh[i][0] && string(pub) == knownCsidh[(i+1)%len(knownCsidh)][1] {
			return []byte(knownCsidh[i][2])
		}
	}
	k := "sec" + string(prv) + string(pub)
	if v, ok := memo[k]; ok {
		return []byte(v)
	}
	var out [64]byte
	var ok bool
	t.S.Quiet(func() {
		var a csidh.PrivateKey
		var p csidh.PublicKey
		a.Import(prv)
		p.Import(pub)
		ok = csidh.DeriveSecret(&out, &p, &a, plainRng())
	})
	if !ok {
		t.Fail("refused", "an honest public key %s was refused", hexs(pub))
	}
	memo[k] = string(out[:])
	return out[:]
}

func (w *cworld) task(t *Task) {
	s := t.S
	s.SetLimit(2e9)
	var o [3]*cobj
	for i := range o {
		o[i] = &cobj{pubB: make([]byte, 64), prvB: make([]byte, 37), ok: true, what: "the base curve"}
	}
	for i := range t.Plan.Ops {
		t.Boundary()
		op := &t.Plan.Ops[i]
		s.St.Ops["csidh-"+op.K]++
		x := o[abs(op.Arg(0))%3]
		switch op.K {
		case "prv":
			b, _ := cKey(op.Arg(1))
			t.Must(w.id, func() { x.prv.Import(clone(b)) })
			x.prvB = b
		case "pub":
			b, _ := cKey(op.Arg(1))
			pb := w.pubOf(t, b)
			t.Must(w.id, func() { x.pub.Import(clone(pb)) })
			x.pubB, x.ok, x.what = pb, true, "honest"
		case "genpub":
			w.genpub(t, op, x)
		case "derive":
			w.derive(t, op, x, o[abs(op.Arg(1))%3], nil, true, "honest")
		case "validate":
			enc, ok, what := hostile(w.basePub(t, op.Arg(3)), op.Arg(1), uint64(op.Arg(2)))
			w.validate(t, op, x, enc, ok, what)
		case "hostile":
			enc, ok, what := hostile(w.basePub(t, op.Arg(3)), op.Arg(1), uint64(op.Arg(2)))
			w.derive(t, op, x, x, enc, ok, what)
		case "gen":
			w.gen(t, op, x)
		}
	}
}

func (w *cworld) basePub(t *Task, sel int) []byte {
	b, _ := cKey(sel)
	return w.pubOf(t, b)
}

// visible checks that an operation that met a failing device failed visibly.
func (w *cworld) visible(t *Task, what string, pv interface{}, e *Entropy) bool {
	if pv == nil {
		return false
	}
	if e.Fired == 0 {
		t.Fail("panic", "%s: unexpected panic %v with a healthy source", what, pv)
	}
	t.S.St.Probes["failed-visibly"]++
	t.S.Logf("%s failed visibly", what)
	return true
}

// unreported checks that an operation that gave a result got all it asked for.
func (w *cworld) unreported(t *Task, what string, e *Entropy) {
	if e.Short > 0 {
		t.Fail("unreported", "%s gave a result although its random source failed in the middle of a request, after %d bytes", what, len(e.Log))
	}
}

func (w *cworld) genpub(t *Task, op *Op, x *cobj) {
	s := t.S
	want := w.pubOf(t, x.prvB)
	for try := 0; ; try++ {
		e := s.NewEntropy(op.E)
		if try > 0 { // the source has recovered
			e.Clear()
			e.P.Fault = nil
		}
		pv := t.Op(func() { csidh.GeneratePublicKey(&x.pub, &x.prv, e) })
		if w.visible(t, "GeneratePublicKey", pv, e) {
			t.Boundary()
			s.St.Probes["repeated-after-failure"]++
			continue
		}
		b := make([]byte, 64)
		x.pub.Export(b)
		s.Logf("genpub %x", Digest(b))
		w.unreported(t, "GeneratePublicKey", e)
		s.St.Probes["results-compared"]++
		if !eq(b, want) {
			t.Fail("public-key", "the public key of %x is %s with this random source, %s otherwise", x.prvB, hexs(b), hexs(want))
		}
		x.pubB, x.ok, x.what = b, true, "honest"
		break
	}
	w.unchanged(t, x, "GeneratePublicKey")
}

func (w *cworld) unchanged(t *Task, x *cobj, after string) {
	b, c := make([]byte, 37), make([]byte, 64)
	x.prv.Export(b)
	x.pub.Export(c)
	if !eq(b, x.prvB) {
		t.Fail("altered", "%s changed the private key from %x to %x", after, x.prvB, b)
	}
	if !eq(c, x.pubB) {
		t.Fail("altered", "%s changed the public key from %s to %s", after, hexs(x.pubB), hexs(c))
	}
}

func (w *cworld) derive(t *Task, op *Op, x, y *cobj, enc []byte, valid bool, kind string) {
	s := t.S
	if enc != nil {
		t.Must(w.id, func() { y.pub.Import(clone(enc)) })
		y.pubB, y.ok, y.what = enc, valid, kind
	}
	pub, valid, kind := y.pubB, y.ok, y.what
	// the shared secret is a function of the two keys alone
	var want []byte
	if valid {
		want = w.secretOf(t, x.prvB, pub)
	}
	for try := 0; ; try++ {
		e := s.NewEntropy(op.E)
		if try > 0 {
			e.P.Fault = nil
		}
		var big [96]byte
		copy(big[:], pattern(96, try+op.Arg(0)))
		was := big
		out := (*[64]byte)(big[16:80])
		var ok bool
		pv := t.Op(func() { ok = csidh.DeriveSecret(out, &y.pub, &x.prv, e) })
		if w.visible(t, "DeriveSecret", pv, e) || valid && !ok && e.Fired > 0 {
			if big != was {
				t.Fail("output", "DeriveSecret failed with its random source but wrote to the output")
			}
			w.unchanged(t, x, "a failed DeriveSecret")
			w.unchanged(t, y, "a failed DeriveSecret")
			t.Boundary()
			s.St.Probes["repeated-after-failure"]++
			continue
		}
		s.Logf("derive %v %x", ok, Digest(out[:]))
		if ok {
			w.unreported(t, "DeriveSecret", e)
		}
		if ok != valid {
			t.Fail("verdict", "DeriveSecret returned %v for a public key that is %s: %x", ok, kind, pub)
		}
		if !ok {
			s.St.Probes["refused-without-output"]++
			if big != was {
				t.Fail("output", "DeriveSecret refused a public key (%s) but wrote to the output", kind)
			}
		} else {
			s.St.Probes["results-compared"]++
			if !eq(out[:], want) {
				t.Fail("secret", "the secret of %x with %s is %s with this random source, %s otherwise", x.prvB, hexs(pub), hexs(out[:]), hexs(want))
			}
			copy(was[16:80], out[:])
			if big != was {
				t.Fail("output", "DeriveSecret wrote outside its output")
			}
		}
		break
	}
	w.unchanged(t, x, "DeriveSecret")
	w.unchanged(t, y, "DeriveSecret")
}

func (w *cworld) validate(t *Task, op *Op, x *cobj, enc []byte, valid bool, what string) {
	s := t.S
	t.Must(w.id, func() { x.pub.Import(clone(enc)) })
	x.pubB, x.ok, x.what = enc, valid, what
	for try := 0; ; try++ {
		e := s.NewEntropy(op.E)
		if try > 0 {
			e.P.Fault = nil
		}
		var ok bool
		pv := t.Op(func() { ok = csidh.Validate(&x.pub, e) })
		if w.visible(t, "Validate", pv, e) {
			w.unchanged(t, x, "a failed Validate")
			t.Boundary()
			s.St.Probes["repeated-after-failure"]++
			continue
		}
		s.Logf("validate %s %v", what, ok)
		if ok {
			w.unreported(t, "Validate", e)
		}
		s.St.Probes["verdicts-compared"]++
		s.St.Ops["key-"+what]++
		if ok != valid {
			t.Fail("verdict", "Validate returned %v for a key that is %s: %x", ok, what, enc)
		}
		break
	}
	w.unchanged(t, x, "Validate")
}

// gen: C04.
func (w *cworld) gen(t *Task, op *Op, x *cobj) {
	s := t.S
	e := s.NewEntropy(op.E)
	var err error
	pv := t.Op(func() { err = csidh.GeneratePrivateKey(&x.prv, e) })
	want := make([]byte, 37)
	n := 0
	for _, c := range e.Log {
		if n < 74 && int8(c) >= -5 && int8(c) <= 5 {
			want[n>>1] |= (c & 15) << uint(4*(n&1))
			n++
		}
	}
	b := make([]byte, 37)
	x.prv.Export(b)
	x.prvB = b
	s.Logf("gen %v %v %x", err != nil, pv != nil, Digest(b))
	if pv != nil {
		if _, ok := pv.(EntropyPanic); !ok {
			t.Fail("panic", "GeneratePrivateKey: unexpected panic %v", pv)
		}
		s.St.Probes["device-panicked"]++
		return
	}
	if err != nil {
		if e.Fired == 0 {
			t.Fail("spurious", "GeneratePrivateKey failed (%v) although the random device never did", err)
		}
		if !errors.Is(err, ErrEntropy) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			t.Fail("error", "GeneratePrivateKey returned %q, which is not the device's failure", err)
		}
		s.St.Probes["failure-reported"]++
		return
	}
	if n < 74 {
		t.Fail("unreported", "GeneratePrivateKey reported success although only %d of 74 exponents were sampled from %d bytes", n, len(e.Log))
	}
	s.St.Probes["keys-compared"]++
	for i := 0; i < 74; i++ {
		v := int8(b[i>>1]<<uint(4*(1-i&1))) >> 4
		if v < -5 || v > 5 {
			t.Fail("range", "exponent %d of a generated key is %d: %x", i, v, b)
		}
	}
	if !eq(b, want) {
		t.Fail("bytes", "generated key %x, rejection sampling of the delivered bytes gives %x", b, want)
	}
}

func genCsidhEnt(r *Rng, fault int) *EntPlan {
	p := GenEnt(r)
	if r.Chance(60) {
		p.Mode = r.Pick(0, 2, 2, 1, 1, 1, 5, 1, 3, 1)
		p.Len = 64 * r.In(1, 5)
		if p.Mode >= 8 {
			p.Len = 64 * []int{8, 20, 40, 80, 160, 300}[r.N(6)]
		}
		if r.Chance(10) {
			p.Len += r.N(64)
		}
	}
	if r.Chance(fault) {
		at := 0
		switch r.N(4) {
		case 0:
			at = r.N(64)
		case 3:
			at = 64*r.N(6) + r.In(1, 63)
		case 1:
			at = 64*r.N(12) + r.N(3)
		case 2:
			at = r.N(1024)
		}
		p.Fault = []EntFault{{At: at, Kind: entKinds[r.N(len(entKinds))]}}
	}
	return p
}

func genC02(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "csidh", Nodes: []NodePlan{{Off: GenOff(r)}}}
	nt := r.Pick(3, 1) + 1
	for k := 0; k < nt; k++ {
		var tp TaskPlan
		tp.Ops = append(tp.Ops, Op{K: "prv", I: []int{0, r.N(60)}}, Op{K: "pub", I: []int{0, r.N(60)}})
		n := r.In(3, 9)
		for len(tp.Ops) < n {
			sl := r.Pick(4, 1, 1)
			switch r.Pick(2, 2, 4, 6, 4) {
			case 0:
				tp.Ops = append(tp.Ops, Op{K: "prv", I: []int{sl, r.N(60)}})
			case 1:
				tp.Ops = append(tp.Ops, Op{K: "pub", I: []int{sl, r.N(60)}})
			case 2:
				tp.Ops = append(tp.Ops, Op{K: "genpub", I: []int{sl}, E: genCsidhEnt(r, 35)})
			case 3:
				tp.Ops = append(tp.Ops, Op{K: "derive", I: []int{sl, r.Pick(4, 1, 1)}, E: genCsidhEnt(r, 35)})
			case 4:
				tp.Ops = append(tp.Ops, Op{K: "validate", I: []int{sl, r.N(20), r.N(1 << 20), r.N(60)}, E: genCsidhEnt(r, 35)})
			}
		}
		pl.Tasks = append(pl.Tasks, tp)
	}
	genSched(r, pl, 60000, 8, fnPool("dh/csidh"), false)
	return pl
}

func genC03(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "csidh", Nodes: []NodePlan{{Off: GenOff(r)}}}
	nt := r.Pick(3, 1) + 1
	for k := 0; k < nt; k++ {
		var tp TaskPlan
		tp.Ops = append(tp.Ops, Op{K: "prv", I: []int{0, r.N(60)}})
		n := r.In(2, 10)
		for len(tp.Ops) < n {
			sl := r.Pick(3, 1, 1)
			switch r.Pick(10, 6, 1) {
			case 0:
				tp.Ops = append(tp.Ops, Op{K: "validate", I: []int{sl, r.N(20), r.N(1 << 20), r.N(60)}, E: genCsidhEnt(r, 10)})
			case 1:
				kind := r.In(3, 19)
				if r.Chance(15) {
					kind = r.N(3)
				}
				tp.Ops = append(tp.Ops, Op{K: "hostile", I: []int{sl, kind, r.N(1 << 20), r.N(60)}, E: genCsidhEnt(r, 10)})
			case 2:
				tp.Ops = append(tp.Ops, Op{K: "prv", I: []int{sl, r.N(60)}})
			}
		}
		pl.Tasks = append(pl.Tasks, tp)
	}
	genSched(r, pl, 60000, 8, fnPool("dh/csidh"), false)
	return pl
}

func genC04(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "csidh", Nodes: []NodePlan{{Off: GenOff(r)}}}
	nt := r.In(1, 3)
	for k := 0; k < nt; k++ {
		var tp TaskPlan
		n := r.In(1, 8)
		for len(tp.Ops) < n {
			if r.Chance(15) {
				tp.Ops = append(tp.Ops, Op{K: "prv", I: []int{r.N(3), r.N(60)}})
				continue
			}
			p := GenEnt(r)
			if r.Chance(60) {
				p.Mode = r.In(1, 7)
				p.Len = r.Log(3000)
			}
			if r.Chance(40) {
				for j := r.Pick(4, 1); j >= 0; j-- {
					at := []int{r.N(64), 64 * r.N(40), r.N(2500), 64*r.N(40) + 63}[r.N(4)]
					p.Fault = append(p.Fault, EntFault{At: at, Kind: entKinds[r.N(len(entKinds))]})
				}
			}
			tp.Ops = append(tp.Ops, Op{K: "gen", I: []int{r.N(3)}, E: p})
		}
		pl.Tasks = append(pl.Tasks, tp)
	}
	genSched(r, pl, 3000, 10, fnPool("dh/csidh.G", "dh/csidh.P"), false)
	return pl
}

func execCsidh(id string) func(s *Sim) {
	return func(s *Sim) {
		w := &cworld{id: id}
		runTasks(s, w.task)
	}
}

func init() {
	stub := []string{"scheduler", "entropy devices (extreme values around p, short and empty reads, errors, EOF, panics)", "CPU features"}
	Register(&Prop{ID: "C02", Title: "CSIDH and its random source", Quick: 5000, Thorough: 50000, Gen: genC02, Exec: execCsidh("C02"),
		Rule: "it is non-trivial when a public key, secret or verdict was computed", Real: []string{"dh/csidh"}, Stub: stub,
		Probes: []string{"results-compared", "verdicts-compared", "failed-visibly", "repeated-after-failure", "refused-without-output"}})
	Register(&Prop{ID: "C03", Title: "CSIDH key validation", Quick: 9600, Thorough: 80000, Gen: genC03, Exec: execCsidh("C03"),
		Rule: "it is non-trivial when a public key was judged", Real: []string{"dh/csidh"}, Stub: append([]string{"the network that corrupts public keys"}, stub...),
		Probes: []string{"verdicts-compared", "refused-without-output", "results-compared"}})
	Register(&Prop{ID: "C04", Title: "CSIDH key generation", Quick: 1080000, Thorough: 2000000, Gen: genC04, Exec: execCsidh("C04"),
		Rule: "it is non-trivial when a key was generated", Real: []string{"dh/csidh key generation"}, Stub: stub,
		Probes: []string{"keys-compared", "failure-reported", "device-panicked"}})
}
