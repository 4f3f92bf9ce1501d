package scn

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
	"verifsim/models"
)

// K04: key generation and encapsulation over failing random devices.

type eslot struct {
	f, v int
	prv  *sidh.PrivateKey
}

var entKinds = []string{"err", "eof", "errdata", "eofdata", "fullerr", "scribble", "panic", "zero"}

// genEntFaulty draws a device that may fail around the first n bytes.
func genEntFaulty(r *Rng, n int) *EntPlan {
	p := GenEnt(r)
	if r.Chance(30) {
		p.Mode = r.In(1, 7)
		if p.Mode == 6 {
			p.Mode = 2
		}
		p.Len = r.In(1, 2*n)
	}
	if r.Chance(65) {
		k := r.Pick(6, 2, 1) + 1
		for i := 0; i < k; i++ {
			at := r.N(n + 2)
			switch r.N(6) {
			case 0:
				at = 0
			case 1:
				at = n - 1
			case 2:
				at = n
			}
			p.Fault = append(p.Fault, EntFault{At: at, Kind: entKinds[r.N(len(entKinds))]})
		}
	}
	return p
}

// replayReader delivers exactly the given bytes, all that is asked for at once.
type replayReader struct {
	b []byte
	n int
}

func (r *replayReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	r.n += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// judgeEnt decides whether an operation's outcome fits what its device did.
// It returns true if the operation succeeded.
func judgeEnt(t *Task, what string, e *Entropy, need int, err error, pv interface{}) bool {
	s := t.S
	if pv != nil {
		if _, ok := pv.(EntropyPanic); !ok {
			t.Fail("panic", "%s: unexpected panic %v", what, pv)
		}
		s.St.Probes["device-panicked"]++
		return false
	}
	got := len(e.Log)
	if err != nil {
		if e.Fired == 0 {
			t.Fail("spurious", "%s: failed (%v) although the random device never did; %d of %d bytes delivered, %d calls", what, err, got, need, e.Calls)
		}
		if !errors.Is(err, ErrEntropy) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			t.Fail("error", "%s: returned %q, which is not the device's failure", what, err)
		}
		s.St.Probes["failure-reported"]++
		return false
	}
	if got < need {
		t.Fail("unreported", "%s: reported success although the random device failed after %d of %d bytes", what, got, need)
	}
	s.St.Probes["success-checked"]++
	return true
}

func (w *entWorld) newSlot(t *Task, op *Op) *eslot {
	f, v := op.Arg(1)%3, op.Arg(2)%3
	sl := &eslot{f: f, v: v}
	t.Must("K04", func() {
		if op.Arg(3)&1 == 0 {
			sl.prv = sidh.NewPrivateKey(fields[f], variants[v])
		} else {
			sl.prv = new(sidh.PrivateKey)
			sl.prv.Init(fields[f], variants[v])
		}
		if op.Arg(3)&2 != 0 {
			sl.prv.Import([]byte(known(f, v, op.Arg(4)).Prv))
		} else if op.Arg(3)&4 != 0 {
			sl.prv.Import(bytes.Repeat([]byte{0xff}, sl.prv.Size()))
		}
		if op.Arg(5) > 0 {
			soilSidh(sl.prv, nil, f, v, uint64(op.Arg(5)))
		}
	})
	return sl
}

type entWorld struct{}

func (w *entWorld) task(t *Task) {
	s := t.S
	var keys [2]*eslot
	var kems [2]*kslot
	var mks [2]*mslot
	for i := range t.Plan.Ops {
		t.Boundary()
		op := &t.Plan.Ops[i]
		s.St.Ops["ent-"+op.K]++
		j := op.Arg(0) & 1
		switch op.K {
		case "key":
			keys[j] = w.newSlot(t, op)
		case "kem":
			f := op.Arg(3) % 3
			e := s.NewEntropy(op.E)
			t.Must("K04", func() { kems[j] = &kslot{newKEM(op.Arg(1)&1, op.Arg(2)&1, f, e), op.Arg(1) & 1, f, e} })
		case "gen":
			if keys[j] != nil {
				w.gen(t, op, keys[j])
			}
		case "pub":
			// the key is in use between generations
			if k := keys[j]; k != nil {
				t.Must("K04", func() { k.prv.GeneratePublicKey(sidh.NewPublicKey(fields[k.f], variants[k.v])) })
			}
		case "enc":
			if kems[j] != nil {
				w.enc(t, op, kems[j], i)
			}
		case "mkem":
			m := &mslot{u: new(mkem.MultiKEM), f: op.Arg(1) % 3, n: 1 + op.Arg(2)%3, e: s.NewEntropy(op.E)}
			t.Must("K04", func() { m.u.Allocate(fields[m.f], uint(m.n), m.e) })
			mks[j] = m
		case "menc":
			if mks[j] != nil {
				w.menc(t, op, mks[j], i)
			}
		case "reset":
			if kems[j] != nil {
				t.Must("K04", func() { kems[j].k.Reset() })
			}
			if mks[j] != nil {
				t.Must("K04", func() { mks[j].u.Reset() })
			}
		case "realloc":
			if k := kems[j]; k != nil {
				k.f = op.Arg(1) % 3
				t.Must("K04", func() { k.k.Allocate(fields[k.f], k.e) })
			}
		case "dec":
			if k := kems[j]; k != nil {
				kk := known(k.f, 2, i)
				ss := make([]byte, k.k.SharedSecretSize())
				pub, prv := rePub(t, k.f, 2, 0, []byte(kk.Pub)), rePrv(t, k.f, 2, 0, []byte(kk.Prv))
				t.Must("K04", func() { k.k.Decapsulate(ss, prv, pub, []byte(kk.Ct)) })
			}
		}
	}
}

func (w *entWorld) gen(t *Task, op *Op, k *eslot) {
	s := t.S
	e := s.NewEntropy(op.E)
	need := k.prv.Size()
	var err error
	how := "PrivateKey.Generate"
	pv := t.Op(func() {
		if op.Arg(1)&1 == 0 {
			err = k.prv.Generate(e)
			return
		}
		how = "GeneratePrivateKey"
		var reports bool
		err, reports = generatePrivateKey(k.prv, e)
		if !reports && len(e.Log) < need {
			t.Fail("unreported", "sidh.GeneratePrivateKey has no way to report that the random device failed after %d of %d bytes", len(e.Log), need)
		}
	})
	what := fmt.Sprintf("%s (%s, variant %d)", how, fieldName[k.f], variants[k.v])
	if !judgeEnt(t, what, e, need, err, pv) {
		s.Logf("gen failed after %d", len(e.Log))
		return
	}
	b := expPrv(k.prv)
	s.Logf("gen %x", Digest(b))
	ml := 0
	if k.v == 2 {
		ml = common.Params(fields[k.f]).MsgLen
		if !eq(b[:ml], e.Log[:ml]) {
			t.Fail("bytes", "%s: S is %s, the device delivered %s", what, hexs(b[:ml]), hexs(e.Log[:ml]))
		}
	}
	if !keySpace(k.f, k.v, b[ml:]) {
		t.Fail("keyspace", "%s: scalar %s lies outside the documented key space", what, fmt.Sprintf("%x", b[ml:]))
	}
	if !lowBitsEqual(k.f, k.v, b[ml:], e.Log[ml:need]) {
		t.Fail("bytes", "%s: scalar %x was not made from the delivered bytes %x", what, b[ml:], e.Log[ml:need])
	}
	// a new object given the same bytes in one piece
	var b2 []byte
	s.Quiet(func() {
		p := sidh.NewPrivateKey(fields[k.f], variants[k.v])
		if p.Generate(&replayReader{b: clone(e.Log)}) == nil {
			b2 = expPrv(p)
		}
	})
	if !eq(b, b2) {
		t.Fail("history", "%s: key %x, a new object made %x from the same bytes", what, b, b2)
	}
}

func (w *entWorld) enc(t *Task, op *Op, k *kslot, i int) {
	s := t.S
	kk := known(k.f, 2, op.Arg(1))
	pub := rePub(t, k.f, 2, 0, []byte(kk.Pub))
	n, m := k.k.CiphertextSize(), k.k.SharedSecretSize()
	ct, okc := slack(pattern(n, i), 8)
	ss, oks := slack(pattern(m, i+1), 8)
	e := k.e
	e.Mark()
	e.Fired, e.Calls = 0, 0
	if op.Arg(2) > 0 {
		e.Inject(entKinds[(op.Arg(2)-1)%len(entKinds)], op.Arg(3))
	}
	need := common.Params(fields[k.f]).MsgLen
	var err error
	pv := t.Op(func() { err = k.k.Encapsulate(ct, ss, pub) })
	e.Clear()
	what := fmt.Sprintf("Encapsulate (%s, package %s)", fieldName[k.f], []string{"dh/sidh", "kem/mkem"}[k.pkg])
	if !judgeEnt(t, what, e, need, err, pv) {
		s.Logf("enc failed after %d", len(e.Log))
		if !eq(ct, pattern(n, i)) || !eq(ss, pattern(m, i+1)) {
			t.Fail("leak", "%s: failed after %d of %d random bytes but had written to its output buffers", what, len(e.Log), need)
		}
	} else {
		s.Logf("enc %x %x", Digest(ct), Digest(ss))
		want := models.SHAKE256Sum(m, e.Log[:need], ct)
		if !eq(want, ss) {
			t.Fail("bytes", "%s: the secret was not made from the %d bytes the device delivered", what, need)
		}
		if op.Arg(4)%3 == 0 {
			ct2, ss2 := make([]byte, n), make([]byte, m)
			var err2 error
			log := clone(e.Log)
			s.Quiet(func() {
				err2 = newKEM(op.Arg(4)&1, 0, k.f, &replayReader{b: log}).Encapsulate(ct2, ss2, impPub(k.f, 2, []byte(kk.Pub)))
			})
			if err2 != nil || !eq(ct, ct2) || !eq(ss, ss2) {
				t.Fail("history", "%s: a new object given the same random bytes produced another ciphertext or secret (%v)", what, err2)
			}
			s.St.Probes["encapsulations-reproduced"]++
		}
	}
	if !okc() || !oks() {
		t.Fail("overrun", "%s wrote outside its buffers", what)
	}
}

func (w *entWorld) menc(t *Task, op *Op, m *mslot, i int) {
	s := t.S
	n := m.u.SharedSecretSize()
	ss, ok := slack(pattern(n, i), 8)
	var pubs []*sidh.PublicKey
	for k := 0; k <= op.Arg(1)%m.n; k++ {
		pubs = append(pubs, rePub(t, m.f, 2, k, []byte(known(m.f, 2, op.Arg(1)+k).Pub)))
	}
	all := func(u *mkem.MultiKEM) []byte {
		b := clone(mkCt0(u)[:common.Params(fields[m.f]).PublicKeySize])
		for k := range pubs {
			b = append(b, mkEntry(u, k)[:common.Params(fields[m.f]).MsgLen]...)
		}
		return b
	}
	before := all(m.u)
	e := m.e
	e.Mark()
	e.Fired, e.Calls = 0, 0
	if op.Arg(2) > 0 {
		e.Inject(entKinds[(op.Arg(2)-1)%len(entKinds)], op.Arg(3))
	}
	need := common.Params(fields[m.f]).MsgLen
	var err error
	pv := t.Op(func() { err = m.u.Encapsulate(ss, pubs) })
	e.Clear()
	what := fmt.Sprintf("MultiKEM.Encapsulate (%s, %d recipients)", fieldName[m.f], len(pubs))
	if !judgeEnt(t, what, e, need, err, pv) {
		s.Logf("menc failed after %d", len(e.Log))
		if !eq(ss, pattern(n, i)) || !eq(all(m.u), before) {
			t.Fail("leak", "%s: failed after %d of %d random bytes but had written to the secret or the ciphertext", what, len(e.Log), need)
		}
	} else {
		s.Logf("menc %x %x", Digest(all(m.u)), Digest(ss))
		if want := models.SHAKE256Sum(n, []byte{3}, e.Log[:need]); !eq(want, ss) {
			t.Fail("bytes", "%s: the secret was not made from the %d bytes the device delivered", what, need)
		}
		if op.Arg(4)%3 == 0 {
			ss2 := make([]byte, n)
			u2 := new(mkem.MultiKEM)
			var err2 error
			log := clone(e.Log)
			s.Quiet(func() {
				u2.Allocate(fields[m.f], uint(len(pubs)), &replayReader{b: log})
				err2 = u2.Encapsulate(ss2, pubs)
			})
			if err2 != nil || !eq(ss, ss2) || !eq(all(m.u), all(u2)) {
				t.Fail("history", "%s: a new object given the same random bytes produced another ciphertext or secret (%v)", what, err2)
			}
			s.St.Probes["encapsulations-reproduced"]++
		}
	}
	if !ok() {
		t.Fail("overrun", "%s wrote outside its buffers", what)
	}
}

func genK04(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "entropy", Nodes: []NodePlan{{Off: GenOff(r)}}}
	nt := r.Pick(3, 2, 1) + 1
	for k := 0; k < nt; k++ {
		var tp TaskPlan
		for j := 0; j < 2; j++ {
			tp.Ops = append(tp.Ops, Op{K: "key", I: []int{j, r.N(3), r.N(3), r.N(8), r.N(3), r.N(2) * r.N(1000)}})
		}
		f := r.Pick(6, 2, 1)
		tp.Ops = append(tp.Ops, Op{K: "kem", I: []int{0, r.N(2), r.N(2), f}, E: GenEnt(r)})
		n := r.In(3, 24)
		for len(tp.Ops) < n {
			switch r.Pick(24, 3, 6, 1, 1, 1, 1, 1, 1, 2) {
			case 0:
				nd := r.In(24, 72)
				tp.Ops = append(tp.Ops, Op{K: "gen", I: []int{r.N(2), r.N(2)}, E: genEntFaulty(r, nd)})
			case 1:
				tp.Ops = append(tp.Ops, Op{K: "key", I: []int{r.N(2), r.N(3), r.N(3), r.N(8), r.N(3), r.N(2) * r.N(1000)}})
			case 2:
				o := Op{K: "enc", I: []int{r.Pick(5, 1), r.N(3), 0, 0, r.N(12)}}
				if r.Chance(75) {
					o.I[2] = r.In(1, len(entKinds))
					o.I[3] = []int{0, r.N(34), 15, 16, 23, 24, 31, 32}[r.N(8)]
				}
				tp.Ops = append(tp.Ops, o)
			case 3:
				tp.Ops = append(tp.Ops, Op{K: "kem", I: []int{r.N(2), r.N(2), r.N(2), r.Pick(6, 2, 1)}, E: GenEnt(r)})
			case 4:
				tp.Ops = append(tp.Ops, Op{K: "reset", I: []int{r.N(2)}})
			case 5:
				tp.Ops = append(tp.Ops, Op{K: "realloc", I: []int{r.N(2), r.Pick(6, 2, 1)}})
			case 6:
				tp.Ops = append(tp.Ops, Op{K: "dec", I: []int{r.N(2)}})
			case 7:
				tp.Ops = append(tp.Ops, Op{K: "pub", I: []int{r.N(2)}})
			case 8:
				tp.Ops = append(tp.Ops, Op{K: "mkem", I: []int{r.N(2), r.Pick(6, 2, 1), r.N(3)}, E: GenEnt(r)})
			case 9:
				o := Op{K: "menc", I: []int{r.N(2), r.N(30), 0, 0, r.N(12)}}
				if r.Chance(75) {
					o.I[2] = r.In(1, len(entKinds))
					o.I[3] = []int{0, r.N(34), 15, 16, 23, 24, 31, 32}[r.N(8)]
				}
				tp.Ops = append(tp.Ops, o)
			}
		}
		pl.Tasks = append(pl.Tasks, tp)
	}
	genSched(r, pl, 60000, 10, fnPool("dh/sidh.", "kem/mkem.KEM"), false)
	return pl
}

func init() {
	Register(&Prop{ID: "K04", Title: "failing randomness", Quick: 13200, Thorough: 200000, Gen: genK04,
		Exec:   func(s *Sim) { w := &entWorld{}; runTasks(s, w.task) },
		Rule:   "it is non-trivial when a key was generated or a secret encapsulated",
		Real:   []string{"dh/sidh (key generation, SIKE)", "kem/mkem KEM, MultiKEM", "hash/sha3"},
		Stub:   []string{"scheduler", "entropy devices (short reads, empty reads, errors and EOF at any offset, errors together with data, scribbling, panics)", "CPU features"},
		Probes: []string{"failure-reported", "success-checked", "encapsulations-reproduced", "device-panicked"}})
}
