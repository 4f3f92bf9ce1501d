package scn

import (
	"fmt"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
)

// K08: the world of K07 with an observer who has a clock. An operation takes
// one tick of simulated time for each statement; the observer also sees which
// way it went. Nothing secret may show: not whether a ciphertext was rejected,
// not the private key, not the random bytes.

// same times an operation in two worlds that differ in secrets only.
func (w *xworld) same(t *Task, what string, warm, ref, act func()) {
	var pv interface{}
	guard := func(fn func()) func() {
		return func() {
			defer func() {
				if r := recover(); r != nil && pv == nil {
					pv = r
				}
			}()
			fn()
		}
	}
	// whatever is done once per process is not the observer's business
	if warm != nil {
		t.S.Quiet(guard(warm))
	}
	a := t.S.Timed(guard(ref))
	b := t.S.Timed(guard(act))
	if pv != nil {
		t.Fail("panic", "%s: %v", what, pv)
	}
	t.S.St.Probes["operations-timed"]++
	if d := a.Differs(b); d != "" {
		t.Fail("timing", "%s: %s", what, d)
	}
	if a.N < 100 {
		t.Fail("harness", "%s: only %d ticks were seen", what, a.N)
	}
}

func (w *xworld) timing(t *Task, sl *hslots, q *hreq, pay []byte, ep *EntPlan) {
	s := t.S
	hon := eq(pay, w.honestQuiet(t, q))
	if !hon {
		s.St.Probes["hostile-requests"]++
	}
	p := common.Params(fields[q.f])
	seed := uint64(q.alt)*977 + uint64(q.i)
	switch q.kind {
	case "dec":
		k := w.kem(t, sl, q, nil)
		prv, pub := w.key(t, hkey{q.f, 2, q.i})
		good := w.honestQuiet(t, q)
		ss := pattern(k.k.SharedSecretSize(), q.alt)
		run := func(k kemI, prv *sidh.PrivateKey, ct []byte) func() {
			out := clone(ss)
			return func() {
				if err := k.Decapsulate(out, prv, pub, ct); err != nil {
					panic(err)
				}
			}
		}
		cp := func() (kemI, *sidh.PrivateKey) { return DeepCopy(k.k).(kemI), DeepCopy(prv).(*sidh.PrivateKey) }
		k1, p1 := cp()
		k2, p2 := cp()
		w.same(t, fmt.Sprintf("%s: Decapsulate takes another time for a %s ciphertext than for an untouched one", fieldName[q.f], map[bool]string{true: "repeated", false: "damaged"}[hon]),
			run(k1, p1, clone(good)), run(k2, p2, clone(good)), run(k.k, prv, clone(pay)))
		if !hon {
			s.St.Probes["rejections-timed"]++
		}
	case "mdec":
		m := w.multi(t, sl, q, nil)
		prv, pub := w.key(t, hkey{q.f, 2, q.i})
		good := w.honestQuiet(t, q)
		run := func(u *mkem.MultiKEM, prv *sidh.PrivateKey, ct []byte) func() {
			out := pattern(u.SharedSecretSize(), q.alt)
			copy(mkCt0(u), ct[:p.PublicKeySize])
			return func() {
				if err := u.Decapsulate(out, prv, pub, ct[p.PublicKeySize:]); err != nil {
					panic(err)
				}
			}
		}
		cp := func() (*mkem.MultiKEM, *sidh.PrivateKey) {
			return DeepCopy(m.u).(*mkem.MultiKEM), DeepCopy(prv).(*sidh.PrivateKey)
		}
		k1, p1 := cp()
		k2, p2 := cp()
		w.same(t, fmt.Sprintf("%s: MultiKEM.Decapsulate takes another time for a %s ciphertext than for an untouched one", fieldName[q.f], map[bool]string{true: "repeated", false: "damaged"}[hon]),
			run(k1, p1, clone(good)), run(k2, p2, clone(good)), run(m.u, prv, clone(pay)))
		if !hon {
			s.St.Probes["rejections-timed"]++
		}
	case "der":
		v := q.v % 2
		o := 1 - v
		sec := hostileScalar(len(known(q.f, v, 0).Prv), q.alt%8, seed)
		run := func(b []byte) func() {
			prv, pub := impPrv(q.f, v, b), impPub(q.f, o, pay)
			out := make([]byte, prv.SharedSecretSize())
			return func() { prv.DeriveSecret(out, pub) }
		}
		k0 := []byte(known(q.f, v, q.i).Prv)
		w.same(t, fmt.Sprintf("%s: DeriveSecret with variant %d takes another time with private key %x than with %x", fieldName[q.f], v, sec, k0),
			run(k0), run(k0), run(sec))
		s.St.Probes["private-keys-timed"]++
	case "prv":
		run := func(b []byte) func() {
			prv, pub := sidh.NewPrivateKey(fields[q.f], variants[q.v]), sidh.NewPublicKey(fields[q.f], variants[q.v])
			out := make([]byte, prv.Size())
			pout := make([]byte, pub.Size())
			return func() {
				if err := prv.Import(b); err != nil {
					panic(err)
				}
				prv.GeneratePublicKey(pub)
				prv.Export(out)
				pub.Export(pout)
			}
		}
		k0 := w.honestQuiet(t, q)
		w.same(t, fmt.Sprintf("%s: importing, exporting and making the public key of variant %d takes another time with private key %x than with %x", fieldName[q.f], q.v, pay, k0),
			run(clone(k0)), run(clone(k0)), run(clone(pay)))
		s.St.Probes["private-keys-timed"]++
	case "enc":
		run := func(sd uint64) func() {
			k := newKEM(q.pkg, q.alt&1, q.f, &replayReader{b: entropyBytes(sd, q.alt)})
			ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
			pub := impPub(q.f, 2, pay)
			return func() {
				if err := k.Encapsulate(ct, ss, pub); err != nil {
					panic(err)
				}
			}
		}
		w.same(t, fmt.Sprintf("%s: Encapsulate takes another time with random bytes %d than with %d", fieldName[q.f], seed, seed+1),
			run(seed), run(seed), run(seed+1))
		s.St.Probes["encapsulations-timed"]++
	case "menc":
		nr := 1 + q.alt%3
		run := func(sd uint64) func() {
			u := new(mkem.MultiKEM)
			u.Allocate(fields[q.f], 3, &replayReader{b: entropyBytes(sd, q.alt)})
			var pubs []*sidh.PublicKey
			for j := 0; j < nr; j++ {
				b := []byte(known(q.f, 2, q.i+j).Pub)
				if j == q.alt/3%nr {
					b = pay
				}
				pubs = append(pubs, impPub(q.f, 2, b))
			}
			out := make([]byte, u.SharedSecretSize())
			return func() {
				if err := u.Encapsulate(out, pubs); err != nil {
					panic(err)
				}
			}
		}
		w.same(t, fmt.Sprintf("%s: MultiKEM.Encapsulate takes another time with random bytes %d than with %d", fieldName[q.f], seed, seed+1),
			run(seed), run(seed), run(seed+1))
		s.St.Probes["encapsulations-timed"]++
	}
	s.Logf("t%d timed %s", t.ID, q.kind)
}

// entropyBytes is what a device delivers; now and then it is very regular.
func entropyBytes(seed uint64, alt int) []byte {
	kind := 0
	if alt%5 == 4 {
		kind = int(seed % 6)
	}
	return Fill(seed, kind, 512)
}

func genTiming(r *Rng, i int, th bool) *Plan {
	pl := genHostile(r, i, th)
	pl.Scn = "timing"
	for k := range pl.Tasks {
		for j := range pl.Tasks[k].Ops {
			if o := &pl.Tasks[k].Ops[j]; o.K == "pdec" {
				o.K = "mdec"
				o.I[5] = r.N(18)
			}
		}
	}
	return pl
}

func init() {
	Register(&Prop{ID: "K08", Title: "nothing secret shows in the time taken", Quick: 2400, Thorough: 60000, Gen: genTiming, Exec: execTiming, PairBin: true, PairOwn: true,
		Rule: "it is non-trivial when an operation was timed", Real: []string{"dh/sidh", "kem/mkem KEM, MultiKEM", "hash/sha3"}, Stub: append([]string{"the clock: one tick per statement of the library (assembly routines take none)", "loading a received common part into a MultiKEM (there is no public call for it)"}, netStub...),
		Probes: []string{"operations-timed", "rejections-timed", "private-keys-timed", "encapsulations-timed", "requests-served-over-the-network", "message-corrupted", "crash-between-operations"}})
}
