package scn

import (
	"fmt"
	"reflect"
	"unsafe"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/drbg"
	. "verifsim/engine"
	"verifsim/models"
)

// ---- M02, M03: multi-recipient KEM ----

// mkCt0 and mkCts give access to the unexported parts of a MultiKEM, which
// are its ciphertext: a node sends them, another loads them.
func mkField(u *mkem.MultiKEM, name string, shape func(reflect.Type) bool) reflect.Value {
	v := reflect.ValueOf(u).Elem()
	f := v.FieldByName(name)
	if !f.IsValid() || !shape(f.Type()) {
		for i := 0; i < v.NumField(); i++ {
			if shape(v.Field(i).Type()) {
				f = v.Field(i)
				break
			}
		}
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func isByteArr(t reflect.Type, n int) bool {
	return t.Kind() == reflect.Array && t.Elem().Kind() == reflect.Uint8 && t.Len() == n
}

func mkCt0(u *mkem.MultiKEM) []byte {
	f := mkField(u, "ct0", func(t reflect.Type) bool { return isByteArr(t, common.MaxPublicKeySz) })
	return f.Slice(0, f.Len()).Bytes()
}

func mkEntry(u *mkem.MultiKEM, i int) []byte {
	f := mkField(u, "cts", func(t reflect.Type) bool {
		return t.Kind() == reflect.Slice && isByteArr(t.Elem(), common.MaxMsgBsz)
	})
	e := f.Index(i)
	return e.Slice(0, e.Len()).Bytes()
}

type mslot struct {
	u    *mkem.MultiKEM
	f    int
	n    int
	e    *Entropy
	ct0  []byte  // what the object's ciphertext is, nil if unknown
	last *mtruth // a ciphertext the object holds the common part of
}

type mtruth struct {
	f       int
	ct0, ct []byte
	ss      []byte
	to      int // constant key index of the recipient
}

type mworld struct {
	id    string
	wire  map[int]*mtruth
	tasks int
}

func (w *mworld) port(i int) string { return fmt.Sprintf("mk%d", i) }

func (w *mworld) newSlot(t *Task, f, n int, ep *EntPlan) *mslot {
	m := &mslot{u: new(mkem.MultiKEM), f: f, n: n, e: t.S.NewEntropy(ep)}
	t.Must(w.id, func() { m.u.Allocate(fields[f], uint(n), m.e) })
	return m
}

func (w *mworld) task(t *Task, me int) {
	s := t.S
	var slots [2]*mslot
	start := 0
	t.Boundary()
	if t.Node.Epoch > 0 {
		start = len(t.Plan.Ops) / 2
	}
	for i := start; i < len(t.Plan.Ops); i++ {
		t.Boundary()
		op := &t.Plan.Ops[i]
		s.St.Ops["mkem-"+op.K]++
		sl := op.Arg(0) & 1
		if op.K == "new" {
			slots[sl] = w.newSlot(t, op.Arg(1)%3, 1+op.Arg(2)%12, op.E)
			continue
		}
		if op.K == "recv" {
			w.recv(t, me, slots[:], op.Arg(0), int64(op.Arg(1)))
			continue
		}
		m := slots[sl]
		if m == nil {
			continue
		}
		switch op.K {
		case "enc":
			w.enc(t, i, op, m)
		case "reset":
			t.Must(w.id, func() { m.u.Reset() })
		case "realloc":
			m.f, m.n = op.Arg(1)%3, 1+op.Arg(2)%12
			m.ct0, m.last = nil, nil
			t.Must(w.id, func() { m.u.Allocate(fields[m.f], uint(m.n), m.e) })
		case "fail":
			m.e.Inject([]string{"err", "eof", "errdata", "panic"}[op.Arg(1)%4], op.Arg(2)%16)
			pub := rePub(t, m.f, 2, 9, []byte(known(m.f, 2, i).Pub))
			ss := pattern(m.u.SharedSecretSize(), i)
			var err error
			pv := t.Op(func() { err = m.u.Encapsulate(ss, []*sidh.PublicKey{pub}) })
			if pv == nil && err == nil {
				t.Fail("unreported", "MultiKEM.Encapsulate reported success although its random device failed")
			}
			if !eq(ss, pattern(len(ss), i)) {
				t.Fail("leak", "MultiKEM.Encapsulate failed but had written to the secret")
			}
			m.e.Clear()
			m.ct0, m.last = nil, nil
		case "spoilt": // somebody's damaged entry, and then the honest ones again
			if m.last == nil {
				break
			}
			w.spoil(t, op, m)
		case "single": // the embedded single-recipient KEM
			kk := known(m.f, 2, op.Arg(1))
			pub, prv := rePub(t, m.f, 2, 9, []byte(kk.Pub)), rePrv(t, m.f, 2, 9, []byte(kk.Prv))
			ct, ss, s2 := make([]byte, m.u.CiphertextSize()), make([]byte, m.u.SharedSecretSize()), make([]byte, m.u.SharedSecretSize())
			var e1, e2 error
			t.Must(w.id, func() {
				e1 = m.u.KEM.Encapsulate(ct, ss, pub)
				e2 = m.u.KEM.Decapsulate(s2, prv, pub, ct)
			})
			if e1 != nil || e2 != nil || !eq(ss, s2) {
				t.Fail("single", "the embedded KEM of a MultiKEM does not agree with itself (%v, %v)", e1, e2)
			}
		case "bad":
			ss := make([]byte, m.u.SharedSecretSize())
			q := sidh.NewPublicKey(fields[m.f], sidh.KeyVariantSidhA)
			t.Op(func() { m.u.Encapsulate(ss, []*sidh.PublicKey{q}) })
			m.ct0, m.last = nil, nil
		}
	}
	for k := 0; k < 10; k++ {
		t.Boundary()
		if !w.recv(t, me, slots[:], k, 120) {
			break
		}
	}
}

// spoil offers the object a damaged entry. Its common part stays what it was.
func (w *mworld) spoil(t *Task, op *Op, m *mslot) {
	tr := m.last
	kk := known(tr.f, 2, (tr.to+op.Arg(1)/8)%3)
	prv, pub := rePrv(t, tr.f, 2, 9, []byte(kk.Prv)), rePub(t, tr.f, 2, 9, []byte(kk.Pub))
	ct := clone(tr.ct)
	r := NewRng(uint64(op.Arg(2)))
	ct[r.N(len(ct))] ^= byte(1 + r.N(255))
	ss := make([]byte, m.u.SharedSecretSize())
	t.Must(w.id, func() { m.u.Decapsulate(ss, prv, pub, ct) })
	t.S.St.Probes["honest-entry-after-a-damaged-one"]++
	t.Boundary()
	w.dec(t, m, tr, tr.ct0, tr.ct, false, op.Arg(3))
}

func (w *mworld) enc(t *Task, i int, op *Op, m *mslot) {
	s := t.S
	nr := 1 + op.Arg(1)%m.n
	pubs := make([]*sidh.PublicKey, nr)
	to := make([]int, nr)
	for j := range pubs {
		to[j] = (abs(op.Arg(2)) + j*(abs(op.Arg(2))/3%3)) % 3
		pubs[j] = rePub(t, m.f, 2, j, []byte(known(m.f, 2, to[j]).Pub))
	}
	ml := m.u.SharedSecretSize()
	ss := pattern(ml+op.Arg(3)%9, i)
	var err error
	m.e.Mark()
	t.Must(w.id, func() { err = m.u.Encapsulate(ss, pubs) })
	if err != nil {
		t.Fail("encapsulate", "MultiKEM.Encapsulate failed with a healthy source: %v", err)
	}
	ss = ss[:ml]
	n := common.Params(fields[m.f]).PublicKeySize
	ct0 := clone(mkCt0(m.u)[:n])
	m.ct0 = ct0
	defer func() {
		if k := abs(op.Arg(7)); k&1 == 1 {
			t.Boundary()
			w.spoil(t, &Op{I: []int{0, k / 2, k, k}}, m)
		}
	}()
	s.Logf("t%d menc %x %x", t.ID, Digest(ct0), Digest(ss))
	var ents [][]byte
	for j := range pubs {
		ents = append(ents, clone(mkEntry(m.u, j)[:ml]))
	}
	if one := abs(op.Arg(7)) / 4 % nr; w.id == "M02" && abs(op.Arg(7))&2 == 2 {
		// the same random bytes, one of the recipients, a new object
		u, s2, log := new(mkem.MultiKEM), make([]byte, ml), clone(m.e.Log)
		quietly(t, "MultiKEM.Encapsulate", func() {
			u.Allocate(fields[m.f], 1, &replayReader{b: log})
			u.Encapsulate(s2, []*sidh.PublicKey{impPub(m.f, 2, []byte(known(m.f, 2, to[one]).Pub))})
		})
		s.St.Probes["entries-compared-with-a-single-recipient"]++
		if !eq(ss, s2) || !eq(ct0, mkCt0(u)[:n]) {
			t.Fail("common", "%s: given the same random bytes, a new object with one of the %d recipients produces another secret or common part", fieldName[m.f], nr)
		}
		if !eq(ents[one], mkEntry(u, 0)[:ml]) {
			t.Fail("entry", "%s: the entry of recipient %d of %d is not what it would be for that recipient alone", fieldName[m.f], one, nr)
		}
	}
	for j := range pubs {
		ct := ents[j]
		if w.id == "M03" && op.Arg(4)&3 == 1 && nr > 1 {
			ct = ents[(j+1)%nr] // somebody else's entry
		}
		dst := (to[j] + op.Arg(5)) % w.tasks
		payload := append(clone(ct0), ct...)
		if w.id == "M02" {
			payload = Seal(payload)
		}
		nd := s.Plan.Tasks[dst].Node % len(s.Nodes)
		id := t.Send(nd, w.port(dst), "mct", payload)
		w.wire[id] = &mtruth{m.f, ct0, ents[j], clone(ss), to[j]}
		m.last = &mtruth{m.f, ct0, ents[j], clone(ss), to[j]}
	}
	// the sender's object serves recipients too
	for j := range pubs {
		if (op.Arg(6)>>uint(j))&1 == 1 {
			t.Boundary()
			w.dec(t, m, &mtruth{m.f, ct0, ents[j], clone(ss), to[j]}, ct0, ents[j], false, i+j)
			if op.Arg(6)&64 != 0 {
				t.Must(w.id, func() { m.u.Reset() })
			}
		}
	}
}

func (w *mworld) recv(t *Task, me int, slots []*mslot, pick int, d int64) bool {
	s := t.S
	msg, ok := t.Recv(w.port(me), d)
	if !ok {
		return false
	}
	tr := w.wire[msg.ID]
	if tr == nil {
		return true
	}
	data := msg.Data
	n := common.Params(fields[tr.f]).PublicKeySize
	ml := common.Params(fields[tr.f]).KemSize
	if w.id == "M02" {
		b, good := Open(data)
		if !good {
			s.St.Probes["damaged-message-discarded"]++
			return true
		}
		data = b
	} else {
		b := make([]byte, n+ml)
		copy(b, data)
		w.damage(tr, b, msg.Route, uint64(msg.ID))
		data = b
	}
	var m *mslot
	for j := range slots {
		if c := slots[(pick+j)%len(slots)]; c != nil && c.f == tr.f {
			m = c
			break
		}
	}
	if m == nil {
		m = w.newSlot(t, tr.f, 1, nil)
		slots[pick&1] = m
	}
	t.Boundary()
	w.dec(t, m, tr, data[:n], data[n:], true, msg.ID)
	if msg.ID%3 == 0 {
		// again
		if msg.ID%2 == 0 {
			t.Must(w.id, func() { m.u.Reset() })
		} else {
			m = w.newSlot(t, tr.f, 1, nil)
		}
		w.dec(t, m, tr, data[:n], data[n:], true, msg.ID+1)
		s.St.Probes["repeated-decapsulations"]++
	}
	return true
}

func (w *mworld) damage(tr *mtruth, b []byte, mode int, seed uint64) {
	p := common.Params(fields[tr.f])
	n := p.PublicKeySize
	r := NewRng(seed + 99)
	switch mode % 10 {
	case 1: // entry
		b[n+r.N(len(b)-n)] ^= byte(1 + r.N(255))
	case 2: // common part
		b[r.N(n)] ^= byte(1 + r.N(255))
	case 3: // entry zero
		for i := n; i < len(b); i++ {
			b[i] = 0
		}
	case 4: // common part zero
		for i := 0; i < n; i++ {
			b[i] = 0
		}
	case 5: // same field element, other encoding
		addP(tr.f, b[:n], r.N(6))
	case 6: // another encapsulation's common part
		for _, o := range w.order() {
			if o.f == tr.f && !eq(o.ct0, tr.ct0) {
				copy(b, o.ct0)
			}
		}
	case 7: // another encapsulation's entry
		for _, o := range w.order() {
			if o.f == tr.f && !eq(o.ct0, tr.ct0) {
				copy(b[n:], o.ct)
			}
		}
	case 8: // last byte of the entry
		b[len(b)-1] ^= 1
	case 9: // first byte of the entry
		b[n] ^= 0x80
	}
}

func (w *mworld) order() []*mtruth {
	var o []*mtruth
	for i := 0; i < 400; i++ {
		if tr := w.wire[i]; tr != nil {
			o = append(o, tr)
		}
	}
	return o
}

func (w *mworld) dec(t *Task, m *mslot, tr *mtruth, ct0, ct []byte, load bool, x int) {
	s := t.S
	kk := known(tr.f, 2, tr.to)
	prv, pub := rePrv(t, tr.f, 2, 9, []byte(kk.Prv)), rePub(t, tr.f, 2, 9, []byte(kk.Pub))
	if load {
		copy(mkCt0(m.u), ct0)
		m.ct0 = clone(ct0)
		m.last = nil
		if eq(ct0, tr.ct0) {
			m.last = tr
		}
	}
	ml := m.u.SharedSecretSize()
	ss := pattern(ml+x%2*7, x)
	var err error
	t.Must(w.id, func() { err = m.u.Decapsulate(ss, prv, pub, clone(ct)) })
	ss = ss[:ml]
	s.Logf("t%d mdec %x", t.ID, Digest(ss))
	if err != nil {
		t.Fail("decapsulate", "MultiKEM.Decapsulate failed: %v", err)
	}
	if eq(ct0, tr.ct0) && eq(ct, tr.ct) {
		s.St.Probes["secrets-compared"]++
		if w.id == "M02" && !eq(ss, tr.ss) {
			t.Fail("secret", "%s: recipient %d decapsulated %s, the sender has %s", fieldName[tr.f], tr.to, hexs(ss), hexs(tr.ss))
		}
		return
	}
	if w.id != "M03" {
		return
	}
	s.St.Probes["rejections-compared"]++
	if eq(ss, tr.ss) {
		t.Fail("accepted", "%s: a damaged ciphertext gave the sender's secret (common part intact: %v, entry intact: %v)", fieldName[tr.f], eq(ct0, tr.ct0), eq(ct, tr.ct))
	}
	sv := []byte(kk.Prv)[:common.Params(fields[tr.f]).MsgLen]
	if want := models.SHAKE256Sum(ml, append([]byte{3}, sv...)); !eq(ss, want) {
		t.Fail("reject", "%s: rejection secret is %s, expected the one determined by S, %s (common part intact: %v, entry intact: %v)", fieldName[tr.f], hexs(ss), hexs(want), eq(ct0, tr.ct0), eq(ct, tr.ct))
	}
}

func execMkem(id string) func(s *Sim) {
	return func(s *Sim) {
		w := &mworld{id: id, wire: map[int]*mtruth{}, tasks: len(s.Plan.Tasks)}
		for ni, nd := range s.Nodes {
			ni := ni
			nd.OnBoot(func(nd *Node) {
				for i := range s.Plan.Tasks {
					i := i
					tp := &s.Plan.Tasks[i]
					if tp.Node%len(s.Nodes) == ni {
						s.Spawn(fmt.Sprintf("t%d", i), nd, tp, func(t *Task) { w.task(t, i) })
					}
				}
			})
		}
		s.Run()
	}
}

func genMkem(id string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "mkem"}
		nn := r.In(1, 3)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		nt := r.In(1, 3)
		f := r.Pick(7, 3, 1)
		for k := 0; k < nt; k++ {
			tp := TaskPlan{Node: r.N(nn)}
			pick := func() int {
				if r.Chance(85) {
					return f
				}
				return r.Pick(7, 3, 1)
			}
			rec := func() int { return r.N(5) + r.Pick(12, 1)*r.N(8) }
			tp.Ops = append(tp.Ops, Op{K: "new", I: []int{0, f, rec()}, E: GenEnt(r)})
			n := r.In(2, 8)
			for len(tp.Ops) < n {
				sl := r.Pick(4, 1)
				switch r.Pick(8, 4, 1, 1, 1, 1, 1, 1, 1) {
				case 8:
					tp.Ops = append(tp.Ops, Op{K: "spoilt", I: []int{sl, r.N(24), r.N(1 << 16), r.N(8)}})
				case 0:
					tp.Ops = append(tp.Ops, Op{K: "enc", I: []int{sl, r.N(5) + r.Pick(12, 1)*r.N(8), r.N(12), r.N(9), r.N(4), r.N(3), r.N(2) * r.N(128), r.N(64)}})
				case 1:
					tp.Ops = append(tp.Ops, Op{K: "recv", I: []int{r.N(8), r.Log(40)}})
				case 2:
					tp.Ops = append(tp.Ops, Op{K: "new", I: []int{sl, pick(), rec()}, E: GenEnt(r)})
				case 3:
					tp.Ops = append(tp.Ops, Op{K: "reset", I: []int{sl}})
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "realloc", I: []int{sl, pick(), rec()}})
				case 5:
					tp.Ops = append(tp.Ops, Op{K: "fail", I: []int{sl, r.N(4), r.N(16)}})
				case 6:
					tp.Ops = append(tp.Ops, Op{K: "single", I: []int{sl, r.N(3)}})
				case 7:
					tp.Ops = append(tp.Ops, Op{K: "bad", I: []int{sl}})
				}
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		pool := fnPool("dh/sidh", "kem/mkem", "hash/sha3")
		genNet(r, pl, nn, pool)
		if id == "M03" {
			for len(pl.Net) < 30 {
				pl.Net = append(pl.Net, Fate{})
			}
			for k := range pl.Net {
				pl.Net[k].Drop = false
				if r.Chance(30) {
					pl.Net[k].Flip = []int{r.N(1 << 16)}
				} else if r.Chance(80) {
					pl.Net[k].Mode = r.In(1, 9)
				}
			}
		}
		genSched(r, pl, 60000, 12, pool, false)
		return pl
	}
}

// ---- M01, M04: CSIDH-based encryption ----

type pslot struct {
	g    *drbg.CtrDrbg
	p    *mkem.PKE
	m    *mkem.MultiPKE
	n    int
	ct0s map[[64]byte]bool // common parts seen from this generator
}

type ptruth struct {
	pt   [16]byte
	u, v [64]byte
	to   int
}

type pworld struct {
	id   string
	wire map[int]*ptruth
}

func pkeCt[T any](func(*csidh.PublicKey, *[16]byte) T) (t T) { return }

func newPslot(kind, n, seed int) *pslot {
	q := &pslot{n: n, ct0s: map[[64]byte]bool{}}
	q.g = drbg.NewCtrDrbg()
	q.g.Init(Fill(uint64(seed), 0, 48), Fill(uint64(seed), 1, seed%20))
	if kind == 0 {
		q.p = new(mkem.PKE)
		q.p.Allocate(q.g)
	} else {
		q.m = new(mkem.MultiPKE)
		q.m.Allocate(uint(n), q.g)
		q.p = &q.m.PKE
	}
	return q
}

func pkeDec(p *mkem.PKE, sk *csidh.PrivateKey, u, v [64]byte) [16]byte {
	ct := pkeCt(p.Enc)
	ct.U, ct.V = u, v
	return p.Dec(sk, &ct)
}

// keys gives key pair i in objects that may have held another one.
func (w *pworld) keys(t *Task, i int) (*csidh.PrivateKey, *csidh.PublicKey) {
	sk := ring(t, ringKey{2, 0, 0, 0}, func() interface{} { return new(csidh.PrivateKey) }).(*csidh.PrivateKey)
	pk := ring(t, ringKey{3, 0, 0, 0}, func() interface{} { return new(csidh.PublicKey) }).(*csidh.PublicKey)
	p := pkePair(i)
	sk.Import(clone(p[0]))
	pk.Import(clone(p[1]))
	return sk, pk
}

// pkePair is key pair i: constant ones, the mirror image of one, the key that
// does nothing, and one with all exponents used.
func pkePair(i int) [2][]byte {
	i = abs(i) % nPkeKeys
	switch i {
	case 5:
		return [2][]byte{make([]byte, 37), make([]byte, 64)}
	case 6: // each exponent negated: the quadratic twist
		p, _, _ := hostile([]byte(knownCsidh[0][1]), 1, 0)
		return [2][]byte{negKey([]byte(knownCsidh[0][0])), p}
	case 7:
		i = 5
	}
	return [2][]byte{[]byte(knownCsidh[i][0]), []byte(knownCsidh[i][1])}
}

const nPkeKeys = 8

// genPkeKey draws a recipient; the last key is costly to use.
func genPkeKey(r *Rng) int {
	if r.N(40) == 0 {
		return 7
	}
	return r.N(7)
}

// fresh checks that the common part of an encryption is new.
func (w *pworld) fresh(t *Task, q *pslot, what string, u [64]byte) {
	if q.ct0s[u] {
		t.Fail("repeated", "%s: the common part is that of an earlier encryption", what)
	}
	q.ct0s[u] = true
}

// again repeats an encryption on a new object with the generator in the state
// it had: what an object was used for before must not matter.
func (w *pworld) again(t *Task, what string, multi bool, g *drbg.CtrDrbg, to []int, pt [16]byte, u [64]byte, v [][64]byte) {
	var wu [64]byte
	wv := make([][64]byte, len(to))
	quietly(t, what, func() {
		pks := make([]csidh.PublicKey, len(to))
		for j := range pks {
			pks[j].Import(pkePair(to[j])[1])
		}
		if multi {
			m := new(mkem.MultiPKE)
			m.Allocate(uint(len(to)), g)
			m.Encrypt(pks, &pt)
			wu = m.Ct0
			for j := range m.Cts {
				wv[j] = m.Cts[j]
			}
		} else {
			p := new(mkem.PKE)
			p.Allocate(g)
			ct := p.Enc(&pks[0], &pt)
			wu, wv[0] = ct.U, ct.V
		}
	})
	t.S.St.Probes["encryptions-repeated-on-a-new-object"]++
	if u != wu {
		t.Fail("past", "%s: a new object with the generator in the same state makes another common part", what)
	}
	for j := range v {
		if !eq(v[j][:16], wv[j][:16]) {
			t.Fail("past", "%s: a new object with the generator in the same state makes another entry %d", what, j)
		}
	}
}

func (w *pworld) task(t *Task, me int) {
	s := t.S
	var slots [2]*pslot
	t.Boundary()
	start := 0
	if t.Node.Epoch > 0 {
		start = len(t.Plan.Ops) / 2
	}
	for i := start; i < len(t.Plan.Ops); i++ {
		t.Boundary()
		op := &t.Plan.Ops[i]
		s.St.Ops["pke-"+op.K]++
		sl := op.Arg(0) & 1
		if op.K == "new" {
			t.Must(w.id, func() { slots[sl] = newPslot(op.Arg(1)&1, 1+op.Arg(2)%12, op.Arg(3)) })
			continue
		}
		q := slots[sl]
		if q == nil {
			t.Must(w.id, func() { q = newPslot(op.Arg(1)&1, 3, i) })
			slots[sl] = q
		}
		switch op.K {
		case "recv":
			w.recv(t, q, int64(op.Arg(1)))
		case "enc":
			w.enc(t, i, op, q)
		case "menc":
			if q.m == nil {
				w.enc(t, i, op, q)
			} else {
				w.menc(t, i, op, q)
			}
		case "junk": // decrypting noise, result thrown away
			sk, _ := w.keys(t, op.Arg(1)%7)
			var u, v [64]byte
			copy(u[:], Fill(uint64(op.Arg(2)), 0, 64))
			copy(v[:], Fill(uint64(op.Arg(2)), 1, 64))
			t.Op(func() { pkeDec(q.p, sk, u, v) })
		case "dirty": // the hash object is left in the middle of something
			t.Op(func() {
				q.p.H.Write(Fill(uint64(i), 0, op.Arg(1)%200))
				if op.Arg(2)&1 == 1 {
					q.p.H.Read(make([]byte, op.Arg(1)%300))
				}
			})
		case "realloc":
			t.Must(w.id, func() {
				if q.m != nil {
					q.n = 1 + op.Arg(1)%12
					q.m.Allocate(uint(q.n), q.g)
				} else {
					q.p.Allocate(q.g)
				}
			})
		case "reseed":
			t.Must(w.id, func() { q.g.Reseed(Fill(uint64(op.Arg(1)), 0, 48), nil) })
		}
	}
	for k := 0; k < 8; k++ {
		t.Boundary()
		if slots[k&1] == nil {
			t.Must(w.id, func() { slots[k&1] = newPslot(0, 1, k) })
		}
		if !w.recv(t, slots[k&1], 100) {
			break
		}
	}
}

// badPub imports an invalid key.
func badPub(pk *csidh.PublicKey, r int, seed uint64) string {
	kinds := []int{3, 4, 5, 6, 8, 9, 10, 11, 13, 17}
	enc, ok, what := hostile(pkePair(r)[1], kinds[int(seed>>4)%len(kinds)], seed)
	if ok {
		enc, _, what = hostile(pkePair(r)[1], 4, seed)
	}
	pk.Import(enc)
	return what
}

// guessable lists masks an outsider could compute.
func (w *pworld) guessable(t *Task, what string, entry []byte, pt *[16]byte, others [][]byte) {
	mask := make([]byte, 16)
	for i := range mask {
		mask[i] = entry[i] ^ pt[i]
	}
	if allZeros(mask) {
		t.Fail("clear", "%s: the entry for an invalid key holds the plaintext", what)
	}
	if eq(mask, models.SHAKE128Sum(16, make([]byte, 64))) {
		t.Fail("guessable", "%s: the entry for an invalid key is masked with a value anybody can compute", what)
	}
	for _, o := range others {
		if eq(mask, o) {
			t.Fail("reuse", "%s: the entry for an invalid key reuses another recipient's mask", what)
		}
	}
}

func (w *pworld) enc(t *Task, i int, op *Op, q *pslot) {
	s := t.S
	to := abs(op.Arg(1)) % nPkeKeys
	_, pk := w.keys(t, to)
	var pt [16]byte
	copy(pt[:], Fill(uint64(op.Arg(2)), op.Arg(3)%6, 16))
	ptc := pt
	if w.id == "M04" && op.Arg(4)&1 == 1 {
		what := badPub(pk, to, uint64(op.Arg(2)))
		var u, v [64]byte
		pv := t.Op(func() {
			ct := q.p.Enc(pk, &pt)
			u, v = ct.U, ct.V
		})
		s.St.Probes["invalid-keys-offered"]++
		if pv == nil {
			d := "PKE.Enc to a key that is " + what
			if u != [64]byte{} || v != [64]byte{} {
				w.guessable(t, d, v[:], &pt, nil)
			}
			t.Fail("accepted", "%s was not refused", d)
		}
		return
	}
	var u, v [64]byte
	var g *drbg.CtrDrbg
	if op.Arg(5)&0x30 == 0x30 {
		g = DeepCopy(q.g).(*drbg.CtrDrbg)
	}
	t.Must(w.id, func() {
		ct := q.p.Enc(pk, &pt)
		u, v = ct.U, ct.V
	})
	w.fresh(t, q, "PKE.Enc", u)
	if g != nil {
		w.again(t, "PKE.Enc", false, g, []int{to}, pt, u, [][64]byte{v})
	}
	if pt != ptc {
		t.Fail("input", "PKE.Enc changed the plaintext")
	}
	s.Logf("t%d enc %x", t.ID, Digest(v[:]))
	w.send(t, &ptruth{pt, u, v, to})
	if op.Arg(5)&3 == 0 {
		t.Boundary()
		w.dec(t, q.p, &ptruth{pt, u, v, to})
	}
}

func (w *pworld) menc(t *Task, i int, op *Op, q *pslot) {
	s := t.S
	nr := 1 + abs(op.Arg(5))%q.n
	pks := ring(t, ringKey{4, 0, 0, nr}, func() interface{} { return make([]csidh.PublicKey, nr) }).([]csidh.PublicKey)
	to := make([]int, nr)
	for j := range pks {
		to[j] = (abs(op.Arg(1)) + j*(abs(op.Arg(1))/5%3)) % 7
		if op.Arg(7) > 0 && j == op.Arg(7)%nr {
			to[j] = 7
		}
		pks[j].Import(clone(pkePair(to[j])[1]))
	}
	var pt [16]byte
	copy(pt[:], Fill(uint64(op.Arg(2)), op.Arg(3)%6, 16))
	ptc := pt
	bad := -1
	what := ""
	if w.id == "M04" && op.Arg(4)&1 == 1 {
		bad = op.Arg(4) / 2 % nr
		what = badPub(&pks[bad], to[bad], uint64(op.Arg(2)))
		if op.Arg(4)&64 != 0 && nr > 1 {
			badPub(&pks[(bad+1)%nr], to[bad], uint64(op.Arg(2))+5)
		}
	}
	before := make([][64]byte, len(q.m.Cts))
	for j := range q.m.Cts {
		copy(q.m.Cts[j][:], pattern(64, i+j)) // a stale entry
		before[j] = q.m.Cts[j]
	}
	if bad >= 0 {
		pv := t.Op(func() { q.m.Encrypt(pks, &pt) })
		s.St.Probes["invalid-keys-offered"]++
		d := fmt.Sprintf("MultiPKE.Encrypt to %d recipients, number %d a key that is %s,", nr, bad, what)
		var others [][]byte
		for j := 0; j < nr; j++ {
			if j != bad && q.m.Cts[j] != before[j] {
				m := make([]byte, 16)
				for k := range m {
					m[k] = q.m.Cts[j][k] ^ pt[k]
				}
				others = append(others, m)
			}
		}
		if q.m.Cts[bad] != before[bad] {
			w.guessable(t, d, q.m.Cts[bad][:], &pt, others)
		}
		if pv == nil {
			t.Fail("accepted", "%s was not refused", d)
		}
		return
	}
	var g *drbg.CtrDrbg
	if op.Arg(6)&0x30 == 0x30 && nr <= 3 {
		g = DeepCopy(q.g).(*drbg.CtrDrbg)
	}
	t.Must(w.id, func() { q.m.Encrypt(pks, &pt) })
	w.fresh(t, q, "MultiPKE.Encrypt", q.m.Ct0)
	for j := range pks {
		if eq(q.m.Cts[j][:16], pt[:]) {
			t.Fail("clear", "MultiPKE.Encrypt to %d recipients: entry %d holds the plaintext", nr, j)
		}
	}
	if g != nil {
		v := make([][64]byte, nr)
		for j := range v {
			v[j] = q.m.Cts[j]
		}
		w.again(t, fmt.Sprintf("MultiPKE.Encrypt to %d recipients", nr), true, g, to, pt, q.m.Ct0, v)
	}
	if pt != ptc {
		t.Fail("input", "MultiPKE.Encrypt changed the plaintext")
	}
	s.Logf("t%d menc %x", t.ID, Digest(q.m.Ct0[:]))
	for j := range pks {
		w.send(t, &ptruth{pt, q.m.Ct0, q.m.Cts[j], to[j]})
	}
	if op.Arg(6)&3 == 0 {
		j := op.Arg(6) / 4 % nr
		t.Boundary()
		w.dec(t, q.p, &ptruth{pt, q.m.Ct0, q.m.Cts[j], to[j]})
	}
}

func (w *pworld) send(t *Task, tr *ptruth) {
	s := t.S
	dst := tr.to % len(s.Plan.Tasks)
	nd := s.Plan.Tasks[dst].Node % len(s.Nodes)
	id := t.Send(nd, fmt.Sprintf("pke%d", dst), "ct", Seal(append(tr.u[:len(tr.u):len(tr.u)], tr.v[:]...)))
	w.wire[id] = tr
}

func (w *pworld) recv(t *Task, q *pslot, d int64) bool {
	m, ok := t.Recv(fmt.Sprintf("pke%d", t.PlanIndex()), d)
	if !ok {
		return false
	}
	b, good := Open(m.Data)
	tr := w.wire[m.ID]
	if !good || tr == nil {
		t.S.St.Probes["damaged-message-discarded"]++
		return true
	}
	x := &ptruth{pt: tr.pt, to: tr.to}
	copy(x.u[:], b)
	copy(x.v[:], b[64:])
	w.dec(t, q.p, x)
	return true
}

func (w *pworld) dec(t *Task, p *mkem.PKE, tr *ptruth) {
	sk, _ := w.keys(t, tr.to)
	var got [16]byte
	t.Must(w.id, func() { got = pkeDec(p, sk, tr.u, tr.v) })
	t.S.Logf("t%d dec %x", t.ID, got)
	t.S.St.Probes["plaintexts-compared"]++
	if got != tr.pt {
		t.Fail("plaintext", "recipient %d decrypted %x, the plaintext was %x", tr.to, got, tr.pt)
	}
}

func execPke(id string) func(s *Sim) {
	return func(s *Sim) {
		w := &pworld{id: id, wire: map[int]*ptruth{}}
		for ni, nd := range s.Nodes {
			ni := ni
			nd.OnBoot(func(nd *Node) {
				for i := range s.Plan.Tasks {
					i := i
					tp := &s.Plan.Tasks[i]
					if tp.Node%len(s.Nodes) == ni {
						s.Spawn(fmt.Sprintf("t%d", i), nd, tp, func(t *Task) { w.task(t, i) })
					}
				}
			})
		}
		s.Run()
	}
}

func genPke(id string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "pke"}
		nn := r.In(1, 2)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		nt := r.Pick(3, 2) + 1
		for k := 0; k < nt; k++ {
			tp := TaskPlan{Node: r.N(nn)}
			tp.Ops = append(tp.Ops, Op{K: "new", I: []int{0, r.Pick(1, 2), r.N(4) + r.Pick(20, 1)*8, r.N(1 << 20)}})
			n := r.In(2, 4)
			if nt == 1 {
				n += 2
			}
			for len(tp.Ops) < n {
				sl := r.Pick(5, 1)
				bad := r.N(128)
				switch r.Pick(3, 5, 2, 2, 2, 1, 1, 1) {
				case 0:
					tp.Ops = append(tp.Ops, Op{K: "enc", I: []int{sl, genPkeKey(r), r.N(1 << 20), r.N(6), bad, r.N(64)}})
				case 1:
					tp.Ops = append(tp.Ops, Op{K: "menc", I: []int{sl, r.N(42), r.N(1 << 20), r.N(6), bad, r.Pick(3, 4, 2, 1) + r.Pick(25, 1)*r.In(4, 8), r.N(64), r.Pick(40, 1) * r.In(1, 12)}})
				case 2:
					tp.Ops = append(tp.Ops, Op{K: "recv", I: []int{sl, r.Log(40)}})
				case 3:
					tp.Ops = append(tp.Ops, Op{K: "junk", I: []int{sl, r.N(5), r.N(1 << 20)}})
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "dirty", I: []int{sl, r.N(1000), r.N(2)}})
				case 5:
					tp.Ops = append(tp.Ops, Op{K: "realloc", I: []int{sl, r.N(4)}})
				case 6:
					tp.Ops = append(tp.Ops, Op{K: "reseed", I: []int{sl, r.N(1 << 20)}})
				case 7:
					tp.Ops = append(tp.Ops, Op{K: "new", I: []int{sl, r.N(2), r.N(4) + r.Pick(20, 1)*8, r.N(1 << 20)}})
				}
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		pool := fnPool("dh/csidh", "kem/mkem", "hash/sha3", "drbg.")
		genNet(r, pl, nn, pool)
		for k := range pl.Net {
			if pl.Net[k].Dup > 1 {
				pl.Net[k].Dup = 1
			}
		}
		if len(pl.Crash) > 1 {
			pl.Crash = pl.Crash[:1]
		}
		genSched(r, pl, 200000, 10, pool, false)
		return pl
	}
}

func init() {
	Register(&Prop{ID: "M01", Title: "multi-recipient encryption", Quick: 580, Thorough: 20000, Gen: genPke("M01"), Exec: execPke("M01"),
		Rule: "it is non-trivial when something was encrypted", Real: []string{"kem/mkem PKE, MultiPKE", "dh/csidh", "drbg", "hash/sha3"}, Stub: netStub,
		Probes: []string{"plaintexts-compared", "encryptions-repeated-on-a-new-object", "preempted-inside-library-operation"}})
	Register(&Prop{ID: "M02", Title: "multi-recipient KEM", Quick: 3600, Thorough: 70000, Gen: genMkem("M02"), Exec: execMkem("M02"),
		Rule: "it is non-trivial when a KEM operation was performed", Real: []string{"kem/mkem MultiKEM", "dh/sidh", "hash/sha3"}, Stub: append([]string{"loading a received common part into a MultiKEM (there is no public call for it)"}, netStub...),
		Probes: []string{"secrets-compared", "entries-compared-with-a-single-recipient", "repeated-decapsulations", "crash-inside-operation", "message-duplicated"}})
	Register(&Prop{ID: "M03", Title: "multi-recipient rejection", Quick: 3200, Thorough: 70000, Gen: genMkem("M03"), Exec: execMkem("M03"),
		Rule: "it is non-trivial when a KEM operation was performed", Real: []string{"kem/mkem MultiKEM", "dh/sidh", "hash/sha3"}, Stub: append([]string{"loading a received common part into a MultiKEM (there is no public call for it)"}, netStub...),
		Probes: []string{"rejections-compared", "repeated-decapsulations", "message-corrupted"}})
	Register(&Prop{ID: "M04", Title: "invalid recipient keys", Quick: 900, Thorough: 20000, Gen: genPke("M04"), Exec: execPke("M04"),
		Rule: "it is non-trivial when something was encrypted or refused", Real: []string{"kem/mkem PKE, MultiPKE", "dh/csidh", "drbg", "hash/sha3"}, Stub: append([]string{"recipients that publish invalid keys"}, netStub...),
		Probes: []string{"invalid-keys-offered", "plaintexts-compared"}})
}
