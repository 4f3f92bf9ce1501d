package scn

import (
	"fmt"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
	"verifsim/models"
)

// Nodes hold SIKE key pairs and exchange ciphertexts. Every task drives a few
// KEM objects through an arbitrary history.

type kslot struct {
	k   kemI
	pkg int
	f   int
	e   *Entropy
}

// truth is what the simulator knows about a ciphertext on the wire.
type truth struct {
	ct, ss []byte
	f      int
	pub    string // recipient's public key
}

type keyPair struct {
	f    int
	prv  *sidh.PrivateKey
	pub  *sidh.PublicKey
	s    []byte
	pubB []byte
	prvB []byte
}

type kworld struct {
	id    string
	dir   map[string][]byte // published public keys
	wire  map[int]*truth
	keys  map[string]*keyPair
	tasks int
}

func (w *kworld) port(i int) string { return fmt.Sprintf("kem%d", i) }

// key returns the task's own key pair, loading or generating it.
func (w *kworld) key(t *Task, me, f int, reimport bool) *keyPair {
	name := fmt.Sprintf("sike-%d-%d", me, f)
	if kp := w.keys[name]; kp != nil {
		if reimport {
			// the same key again through its export, into the same or new objects
			t.Must(w.id, func() {
				if kp.prvB[1]&3 != 0 {
					soilSidh(kp.prv, kp.pub, f, 2, uint64(kp.prvB[1])<<8|uint64(kp.prvB[2]))
				}
				if kp.prvB[0]&1 == 0 {
					kp.prv = sidh.NewPrivateKey(fields[f], sidh.KeyVariantSike)
					kp.pub = sidh.NewPublicKey(fields[f], sidh.KeyVariantSike)
				}
				kp.prv.Import(clone(kp.prvB))
				kp.pub.Import(clone(kp.pubB))
			})
			t.S.St.Probes["key-reimported"]++
		}
		return kp
	}
	s := t.S
	kp := &keyPair{f: f}
	kp.prv = sidh.NewPrivateKey(fields[f], sidh.KeyVariantSike)
	kp.pub = sidh.NewPublicKey(fields[f], sidh.KeyVariantSike)
	if seed := t.Plan.P["ent"] + f; seed%2 == 0 {
		t.Must(w.id, func() { soilSidh(kp.prv, kp.pub, f, 2, uint64(seed)) })
	}
	loaded := false
	if rec, ok := t.ReadDisk(name); ok {
		t.Must(w.id, func() { loaded = kp.prv.Import(rec) == nil })
		s.St.Probes["key-reloaded-from-disk"]++
	}
	if !loaded {
		e := s.NewEntropy(&EntPlan{Seed: t.Plan.P["ent"]*31 + f + t.Node.Epoch*7919})
		var err error
		t.Must(w.id, func() { err = kp.prv.Generate(e) })
		if err != nil {
			t.Fail("generate", "key generation failed with a healthy source: %v", err)
		}
		t.WriteDisk(name, expPrv(kp.prv))
	}
	t.Must(w.id, func() { kp.prv.GeneratePublicKey(kp.pub) })
	kp.prvB, kp.pubB = expPrv(kp.prv), expPub(kp.pub)
	kp.s = kp.prvB[:common.Params(fields[f]).MsgLen]
	w.keys[name] = kp
	w.dir[fmt.Sprintf("%d-%d", me, f)] = kp.pubB
	return kp
}

func (w *kworld) task(t *Task, me int) {
	s := t.S
	var slots [3]*kslot
	// a restarted node has lost its objects
	for f := range fields {
		delete(w.keys, fmt.Sprintf("sike-%d-%d", me, f))
	}
	t.Boundary()
	w.key(t, me, t.Plan.P["f"]%3, false)
	start := 0
	if t.Node.Epoch > 0 {
		start = len(t.Plan.Ops) / 2
	}
	for i := start; i < len(t.Plan.Ops); i++ {
		t.Boundary()
		op := &t.Plan.Ops[i]
		w.op(t, me, i, op, &slots)
		s.St.Ops["kem-"+op.K]++
	}
	for k := 0; k < 8; k++ {
		t.Boundary()
		if !w.recv(t, me, slots[:], k, 120) {
			break
		}
	}
}

func (w *kworld) op(t *Task, me, i int, op *Op, slots *[3]*kslot) {
	s := t.S
	sl := abs(op.Arg(0)) % 3
	switch op.K {
	case "new":
		f := op.Arg(3) % 3
		e := s.NewEntropy(op.E)
		t.Must(w.id, func() { slots[sl] = &kslot{newKEM(op.Arg(1)&1, op.Arg(2)&1, f, e), op.Arg(1) & 1, f, e} })
		s.Logf("t%d new kem", me)
		return
	case "recv":
		w.recv(t, me, slots[:], op.Arg(0), int64(op.Arg(1)))
		return
	case "sleep":
		t.Sleep(int64(op.Arg(0)))
		return
	}
	k := slots[sl]
	if k == nil {
		return
	}
	switch op.K {
	case "realloc":
		k.f = op.Arg(1) % 3
		t.Must(w.id, func() { k.k.Allocate(fields[k.f], k.e) })
	case "reset":
		t.Must(w.id, func() { k.k.Reset() })
	case "fail":
		// an encapsulation whose entropy fails
		k.e.Inject([]string{"err", "eof", "errdata", "panic"}[op.Arg(1)%4], op.Arg(2)%20)
		pub := rePub(t, k.f, 2, 0, []byte(known(k.f, 2, i).Pub))
		ct, ss := make([]byte, k.k.CiphertextSize()), make([]byte, k.k.SharedSecretSize())
		t.Op(func() { k.k.Encapsulate(ct, ss, pub) })
		k.e.Clear()
	case "bad":
		// a refused call
		pub := rePub(t, k.f, 2, 0, []byte(known(k.f, 2, i).Pub))
		prv := rePrv(t, k.f, 2, 0, []byte(known(k.f, 2, i).Prv))
		ct, ss := make([]byte, k.k.CiphertextSize()), make([]byte, k.k.SharedSecretSize())
		t.Op(func() {
			switch op.Arg(1) % 4 {
			case 0:
				k.k.Encapsulate(ct[1:], ss, pub)
			case 1:
				k.k.Encapsulate(ct, ss[1:], pub)
			case 2:
				k.k.Decapsulate(ss, prv, pub, ct[1:])
			default:
				k.k.Encapsulate(ct, ss, sidh.NewPublicKey(fields[k.f], sidh.KeyVariantSidhA))
			}
		})
	case "odd":
		// decapsulation of noise, result thrown away
		kk := known(k.f, 2, i)
		pub, prv := rePub(t, k.f, 2, 0, []byte(kk.Pub)), rePrv(t, k.f, 2, 0, []byte(kk.Prv))
		ss := make([]byte, k.k.SharedSecretSize())
		t.Must(w.id, func() { k.k.Decapsulate(ss, prv, pub, randCt(k.f, uint64(op.Arg(1)), op.Arg(2))) })
	case "enc":
		to := abs(op.Arg(1)) % w.tasks
		pb, ok := w.dir[fmt.Sprintf("%d-%d", to, k.f)]
		if !ok {
			// the recipient has no key for this field: use a constant key and decapsulate here
			w.local(t, i, op, k)
			return
		}
		var pub *sidh.PublicKey
		t.Must(w.id, func() { pub = rePub(t, k.f, 2, 0, pb) })
		ct := pattern(k.k.CiphertextSize()+op.Arg(2), i)
		ss := pattern(k.k.SharedSecretSize()+op.Arg(3), i)
		var err error
		t.Must(w.id, func() { err = k.k.Encapsulate(ct, ss, pub) })
		if err != nil {
			t.Fail("encapsulate", "encapsulation failed with a healthy source: %v", err)
		}
		ct, ss = ct[:k.k.CiphertextSize()], ss[:k.k.SharedSecretSize()]
		s.Logf("t%d enc %x %x", me, Digest(ct), Digest(ss))
		dst := to
		if w.id == "K03" && op.Arg(4) > 0 {
			dst = op.Arg(4) % w.tasks // delivered to somebody else
		}
		payload := clone(ct)
		if w.id == "K02" {
			payload = Seal(ct)
		}
		nd := s.Plan.Tasks[dst].Node % len(s.Nodes)
		id := t.Send(nd, w.port(dst), "ct", payload)
		w.wire[id] = &truth{clone(ct), clone(ss), k.f, string(pb)}
	}
}

func randCt(f int, seed uint64, kind int) []byte {
	p := common.Params(fields[f])
	if kind%3 == 0 {
		return append(randPub(f, seed, 0), Fill(seed, 0, p.MsgLen)...)
	}
	return Fill(seed, kind%6, p.CiphertextSize)
}

// local: encapsulate to a known key and decapsulate on another slot or this one.
func (w *kworld) local(t *Task, i int, op *Op, k *kslot) {
	kk := known(k.f, 2, op.Arg(1))
	pub, prv := rePub(t, k.f, 2, 0, []byte(kk.Pub)), rePrv(t, k.f, 2, 0, []byte(kk.Prv))
	ct := pattern(k.k.CiphertextSize()+op.Arg(2), i)
	ss := pattern(k.k.SharedSecretSize()+op.Arg(3), i)
	s2 := make([]byte, k.k.SharedSecretSize())
	var err, err2 error
	t.Must(w.id, func() { err = k.k.Encapsulate(ct, ss, pub) })
	if err != nil {
		t.Fail("encapsulate", "encapsulation failed with a healthy source: %v", err)
	}
	ct = ct[:k.k.CiphertextSize()]
	tr := &truth{clone(ct), clone(ss[:len(s2)]), k.f, kk.Pub}
	if w.id == "K03" {
		damage(k.f, ct, op.Arg(5), uint64(i), nil)
	}
	t.Must(w.id, func() { err2 = k.k.Decapsulate(s2, prv, pub, ct) })
	kp := &keyPair{f: k.f, s: []byte(kk.Prv)[:common.Params(fields[k.f]).MsgLen], pubB: []byte(kk.Pub)}
	w.judge(t, k, kp, tr, ct, s2, err2)
}

// damage alters a ciphertext in place.
func damage(f int, ct []byte, mode int, seed uint64, prev []byte) {
	p := common.Params(fields[f])
	r := NewRng(seed + 77)
	switch mode % 10 {
	case 1:
		ct[r.N(len(ct))] ^= 1 << uint(r.N(8))
	case 2: // all zero
		for i := range ct {
			ct[i] = 0
		}
	case 3: // all one
		for i := range ct {
			ct[i] = 0xff
		}
	case 4: // the same field element, encoded differently
		addP(f, ct[:p.PublicKeySize], r.N(6))
	case 5: // common part only
		ct[r.N(p.PublicKeySize)] ^= byte(1 + r.N(255))
	case 6: // message part only
		ct[p.PublicKeySize+r.N(p.MsgLen)] ^= byte(1 + r.N(255))
	case 7: // splice with an earlier ciphertext
		if len(prev) == len(ct) {
			if r.N(2) == 0 {
				copy(ct[p.PublicKeySize:], prev[p.PublicKeySize:])
			} else {
				copy(ct[:p.PublicKeySize], prev[:p.PublicKeySize])
			}
		}
	case 8: // last byte
		ct[len(ct)-1] ^= 0x80
	case 9: // first byte
		ct[0] ^= 1
	}
}

func (w *kworld) recv(t *Task, me int, slots []*kslot, pick int, d int64) bool {
	s := t.S
	m, ok := t.Recv(w.port(me), d)
	if !ok {
		return false
	}
	tr := w.wire[m.ID]
	if tr == nil {
		return true
	}
	data := m.Data
	if w.id == "K02" {
		b, good := Open(data)
		if !good {
			s.St.Probes["damaged-message-discarded"]++
			return true
		}
		data = b
	}
	kp := w.key(t, me, tr.f, pick%3 == 1)
	if w.id == "K02" && string(kp.pubB) != tr.pub {
		s.St.Probes["ciphertext-for-a-lost-key"]++
		return true
	}
	if w.id == "K03" {
		// the transport has fixed-size frames: cut or refill
		n := common.Params(fields[tr.f]).CiphertextSize
		ct := make([]byte, n)
		copy(ct, data)
		damage(tr.f, ct, m.Route, uint64(m.ID), w.last(tr.f))
		data = ct
	}
	var k *kslot
	for j := range slots {
		c := slots[(pick+j)%len(slots)]
		if c != nil && c.f == tr.f {
			k = c
			break
		}
	}
	if k == nil {
		e := s.NewEntropy(nil)
		k = &kslot{newKEM(pick&1, pick>>1&1, tr.f, e), pick & 1, tr.f, e}
		if c := slots[pick%len(slots)]; c != nil && pick&4 == 4 {
			// move an existing object to another field
			t.Must(w.id, func() { c.k.Allocate(fields[tr.f], c.e) })
			c.f = tr.f
			k = c
		}
	}
	t.Boundary()
	ss := pattern(k.k.SharedSecretSize()+(m.ID%3)*5, m.ID)
	ct2 := clone(data)
	var err error
	t.Must(w.id, func() { err = k.k.Decapsulate(ss, kp.prv, kp.pub, ct2) })
	ss = ss[:k.k.SharedSecretSize()]
	s.Logf("t%d dec %x %x", me, Digest(data), Digest(ss))
	w.judge(t, k, kp, tr, data, ss, err)
	if w.id == "K03" && m.ID%2 == 0 {
		// again, on a new object of either package
		e := s.NewEntropy(nil)
		var s2 []byte
		t.Must(w.id, func() {
			n := newKEM(m.ID>>1&1, m.ID>>2&1, tr.f, e)
			s2 = make([]byte, n.SharedSecretSize())
			err = n.Decapsulate(s2, kp.prv, kp.pub, clone(data))
		})
		if err != nil || !eq(s2, ss) {
			t.Fail("unstable", "two decapsulations of the same ciphertext differ: %s, %s (%v)", hexs(ss), hexs(s2), err)
		}
		s.St.Probes["repeated-decapsulations-compared"]++
	}
	return true
}

func (w *kworld) last(f int) []byte {
	for i := len(w.wire) + 40; i >= 0; i-- {
		if tr := w.wire[i]; tr != nil && tr.f == f {
			return tr.ct
		}
	}
	return nil
}

func (w *kworld) judge(t *Task, k *kslot, kp *keyPair, tr *truth, ct, ss []byte, err error) {
	s := t.S
	desc := fmt.Sprintf("%s, package %s", fieldName[tr.f], []string{"dh/sidh", "kem/mkem"}[k.pkg])
	if err != nil {
		t.Fail("decapsulate", "%s: decapsulation failed: %v", desc, err)
	}
	intact := eq(ct, tr.ct) && string(kp.pubB) == tr.pub
	if w.id == "K02" {
		if intact {
			s.St.Probes["secrets-compared"]++
			if !eq(ss, tr.ss) {
				t.Fail("secret", "%s: decapsulated secret %s, the sender has %s", desc, hexs(ss), hexs(tr.ss))
			}
		}
		return
	}
	if intact {
		return
	}
	want := models.SHAKE256Sum(len(ss), kp.s, ct)
	s.St.Probes["rejections-compared"]++
	if eq(ss, tr.ss) {
		t.Fail("accepted", "%s: a damaged or misdelivered ciphertext gave the sender's secret", desc)
	}
	if !eq(ss, want) {
		t.Fail("reject", "%s: rejection secret is %s, expected SHAKE256(S, ciphertext) = %s", desc, hexs(ss), hexs(want))
	}
}

func execKem(id string) func(s *Sim) {
	return func(s *Sim) {
		w := &kworld{id: id, dir: map[string][]byte{}, wire: map[int]*truth{}, keys: map[string]*keyPair{}, tasks: len(s.Plan.Tasks)}
		for ni, nd := range s.Nodes {
			ni := ni
			nd.OnBoot(func(nd *Node) {
				for i := range s.Plan.Tasks {
					i := i
					tp := &s.Plan.Tasks[i]
					if tp.Node%len(s.Nodes) == ni {
						s.Spawn(fmt.Sprintf("t%d", i), nd, tp, func(t *Task) { w.task(t, i) })
					}
				}
			})
		}
		s.Run()
	}
}

func genKem(id string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "kem"}
		nn := r.In(1, 3)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		nt := r.In(1, 3)
		main := r.Pick(6, 3, 1)
		for k := 0; k < nt; k++ {
			tp := TaskPlan{Node: r.N(nn), P: map[string]int{"f": main, "ent": r.N(1 << 20)}}
			pick := func() int {
				if r.Chance(80) {
					return main
				}
				return r.Pick(6, 3, 1)
			}
			n := 4 + r.N(9)
			tp.Ops = append(tp.Ops, Op{K: "new", I: []int{0, r.N(2), r.N(2), main}, E: GenEnt(r)})
			if r.Chance(50) {
				tp.Ops = append(tp.Ops, Op{K: "new", I: []int{1, r.N(2), r.N(2), pick()}, E: GenEnt(r)})
			}
			for len(tp.Ops) < n {
				sl := r.Pick(4, 2)
				switch r.Pick(8, 4, 1, 1, 1, 1, 1, 1, 1) {
				case 0:
					xc, xs := 0, 0
					if r.Chance(30) {
						xc = r.Log(60)
					}
					if r.Chance(30) {
						xs = r.Log(60)
					}
					mis := 0
					if r.Chance(15) {
						mis = r.In(1, 5)
					}
					tp.Ops = append(tp.Ops, Op{K: "enc", I: []int{sl, r.N(nt), xc, xs, mis, r.N(10)}})
				case 1:
					tp.Ops = append(tp.Ops, Op{K: "recv", I: []int{r.N(8), r.Log(40)}})
				case 2:
					tp.Ops = append(tp.Ops, Op{K: "new", I: []int{sl, r.N(2), r.N(2), pick()}, E: GenEnt(r)})
				case 3:
					tp.Ops = append(tp.Ops, Op{K: "realloc", I: []int{sl, pick()}})
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "reset", I: []int{sl}})
				case 5:
					tp.Ops = append(tp.Ops, Op{K: "fail", I: []int{sl, r.N(4), r.N(20)}})
				case 6:
					tp.Ops = append(tp.Ops, Op{K: "bad", I: []int{sl, r.N(4)}})
				case 7:
					tp.Ops = append(tp.Ops, Op{K: "odd", I: []int{sl, r.N(1 << 20), r.N(6)}})
				case 8:
					tp.Ops = append(tp.Ops, Op{K: "sleep", I: []int{r.Log(60)}})
				}
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		pool := fnPool("dh/sidh", "kem/mkem.KEM", "hash/sha3")
		genNet(r, pl, nn, pool)
		if id == "K03" {
			// most messages are damaged in one way or another
			for len(pl.Net) < 20 {
				pl.Net = append(pl.Net, Fate{})
			}
			for k := range pl.Net {
				f := &pl.Net[k]
				f.Drop = false
				switch r.N(4) {
				case 0:
					f.Flip = []int{r.N(1 << 16)}
				case 1, 2:
					f.Mode = r.In(1, 9)
				}
			}
		}
		genSched(r, pl, 60000, 12, pool, false)
		return pl
	}
}

func init() {
	real := []string{"dh/sidh (SIDH, SIKE)", "kem/mkem KEM", "hash/sha3", "dh/sidh/internal/p434,p503,p751"}
	Register(&Prop{ID: "K02", Title: "SIKE round trip", Quick: 5200, Thorough: 90000, Gen: genKem("K02"), Exec: execKem("K02"),
		Rule: "it is non-trivial when a KEM operation was performed", Real: real, Stub: netStub,
		Probes: []string{"secrets-compared", "key-reloaded-from-disk", "key-reimported", "crash-inside-operation", "message-duplicated"}})
	Register(&Prop{ID: "K03", Title: "SIKE implicit rejection", Quick: 3900, Thorough: 90000, Gen: genKem("K03"), Exec: execKem("K03"),
		Rule: "it is non-trivial when a KEM operation was performed", Real: real, Stub: netStub,
		Probes: []string{"rejections-compared", "repeated-decapsulations-compared", "message-corrupted", "message-truncated"}})
}
