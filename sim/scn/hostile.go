package scn

import (
	"fmt"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	. "verifsim/engine"
	"verifsim/models"
)

// K07: servers with long-lived keys and objects serve requests of which some
// are hostile: of the right size, but not what an honest party would send.

// hreq is a request; the payload travels, the rest is the simulator's.
type hreq struct {
	kind string
	f, v int // field; variant of the server's key
	i    int // which of the server's keys
	pkg  int
	alt  int
}

type hkey struct{ f, v, i int }

// hserver is the state of one node: it dies with the node.
type hserver struct {
	prv map[hkey]*sidh.PrivateKey // shared by the workers of the node, who only read them
	pub map[hkey]*sidh.PublicKey
}

type xworld struct {
	srv  []*hserver
	wire map[int]*hreq
	// timed: operations are judged by the time they take (K08)
	timed bool
}

// key returns a long-lived key pair of the node, loading it from disk.
func (w *xworld) key(t *Task, k hkey) (*sidh.PrivateKey, *sidh.PublicKey) {
	sv := w.srv[t.Node.ID]
	if sv.prv[k] != nil {
		return sv.prv[k], sv.pub[k]
	}
	kk := known(k.f, k.v, k.i)
	name := fmt.Sprintf("key-%d-%d-%d", k.f, k.v, k.i)
	rec, ok := t.ReadDisk(name)
	if !ok || string(rec) != kk.Prv {
		rec = []byte(kk.Prv)
		t.WriteDisk(name, rec)
	}
	prv, pub := sidh.NewPrivateKey(fields[k.f], variants[k.v]), sidh.NewPublicKey(fields[k.f], variants[k.v])
	t.Must("K07", func() {
		prv.Import(clone(rec))
		pub.Import([]byte(kk.Pub))
	})
	if sv.prv[k] == nil {
		sv.prv[k], sv.pub[k] = prv, pub
	}
	return sv.prv[k], sv.pub[k]
}

// hslots are the objects of one worker.
type hslots struct {
	kem [2][3]*kslot
	mk  [3]*mslot
	pke *pslot
}

func (w *xworld) port(i int) string { return fmt.Sprintf("srv%d", i) }

func (w *xworld) task(t *Task, me int) {
	s := t.S
	s.SetLimit(1 << 31)
	sl := &hslots{}
	start := 0
	t.Boundary()
	if t.Node.Epoch > 0 {
		start = len(t.Plan.Ops) / 2
	}
	for i := start; i < len(t.Plan.Ops); i++ {
		t.Boundary()
		op := &t.Plan.Ops[i]
		if op.K == "recv" {
			w.recv(t, me, sl, int64(op.Arg(0)))
			continue
		}
		q := &hreq{kind: op.K, f: op.Arg(0) % 3, v: op.Arg(1) % 3, i: op.Arg(2) % 3, pkg: op.Arg(3) & 1, alt: abs(op.Arg(4))}
		pay := w.payload(t, q, op)
		dst := abs(op.Arg(9)) % len(s.Plan.Tasks)
		if dst == me {
			w.serve(t, sl, q, pay, op.E)
			continue
		}
		nd := s.Plan.Tasks[dst].Node % len(s.Nodes)
		id := t.Send(nd, w.port(dst), q.kind, pay)
		w.wire[id] = q
	}
	for k := 0; k < 8; k++ {
		t.Boundary()
		if !w.recv(t, me, sl, 120) {
			break
		}
	}
}

func (w *xworld) recv(t *Task, me int, sl *hslots, d int64) bool {
	m, ok := t.Recv(w.port(me), d)
	if !ok {
		return false
	}
	q := w.wire[m.ID]
	if q == nil {
		return true
	}
	// frames have a fixed size: cut or refill
	b := make([]byte, w.size(q))
	copy(b, m.Data)
	w.serve(t, sl, q, b, nil)
	t.S.St.Probes["requests-served-over-the-network"]++
	return true
}

// opposite is the variant of the peer's key.
func (q *hreq) opposite() int {
	if q.v == 0 {
		return 1
	}
	return 0
}

func (w *xworld) size(q *hreq) int {
	p := common.Params(fields[q.f])
	switch q.kind {
	case "der", "enc", "menc":
		return p.PublicKeySize
	case "dec":
		return p.CiphertextSize
	case "mdec":
		return p.PublicKeySize + p.KemSize
	case "prv":
		return len(known(q.f, q.v, 0).Prv)
	}
	return 128
}

// honest is what an honest party would have sent.
func (w *xworld) honest(q *hreq) []byte {
	k := known(q.f, q.v, q.i)
	switch q.kind {
	case "der":
		return []byte(known(q.f, q.opposite(), q.i).Pub)
	case "enc", "menc":
		return []byte(known(q.f, 2, q.i).Pub)
	case "dec":
		return []byte(known(q.f, 2, q.i).Ct)
	case "mdec":
		e := mdecHonest(q.f, q.i)
		return append(clone(e.ct0), e.ct...)
	case "prv":
		return []byte(k.Prv)
	}
	c := pdecHonest()
	return append(clone(c[0][:]), c[1][:]...)
}

func (w *xworld) payload(t *Task, q *hreq, op *Op) []byte {
	b := clone(w.honestQuiet(t, q))
	mode, seed := abs(op.Arg(5)), uint64(op.Arg(6))
	if mode == 0 {
		return b
	}
	n := common.Params(fields[q.f]).PublicKeySize
	r := NewRng(seed*31 + uint64(mode))
	switch q.kind {
	case "prv":
		m := 0
		if q.v == 2 {
			m = common.Params(fields[q.f]).MsgLen
		}
		copy(b[m:], hostileScalar(len(b)-m, mode-1, seed))
		return b
	case "pdec":
		h, _, _ := hostile(b[:64], mode, seed)
		copy(b, h)
		return b
	}
	switch {
	case mode <= 7:
		copy(b, hostileSidh(q.f, b[:n], mode-1, seed))
	case mode == 8: // arbitrary field elements: almost surely no curve of the class
		copy(b, randPub(q.f, seed, r.N(3)))
	case mode == 9: // a key of the other side
		o := 0
		if q.kind == "der" && q.opposite() == 0 || q.kind == "dec" || q.kind == "mdec" {
			o = 1
		}
		copy(b, known(q.f, o, q.i).Pub)
	case mode == 10: // coordinates exchanged
		l := n / 3
		i, j := r.N(3), r.N(3)
		x := clone(b[i*l : (i+1)*l])
		copy(b[i*l:], b[j*l:(j+1)*l])
		copy(b[j*l:], x)
	case mode == 11: // equal points
		l := n / 3
		copy(b[l:2*l], b[:l])
		if r.N(2) == 0 {
			copy(b[2*l:3*l], b[:l])
		}
	case mode == 12: // the server's own key
		copy(b, known(q.f, q.v, q.i).Pub)
	case mode == 13: // one bit
		b[r.N(len(b))] ^= 1 << uint(r.N(8))
	case mode == 14: // nothing but zeros or ones, or one value in every place
		x := []byte{0, 0, 0xff, byte(seed)}[r.N(4)]
		for i := 0; i < n; i++ {
			b[i] = x
		}
		if r.N(4) == 0 {
			addP(q.f, b[:n], r.N(6))
		}
	case mode == 15: // part of the coordinates zero
		l := n / 6
		m := r.In(1, 63)
		for i := 0; i < 6; i++ {
			if m>>uint(i)&1 == 1 {
				for j := i * l; j < (i+1)*l; j++ {
					b[j] = 0
				}
			}
		}
	default: // everything else unchanged, the tail (the entry) altered
		b[len(b)-1-r.N(len(b)-n+1)] ^= byte(1 + r.N(255))
	}
	return b
}

// mdecHonest is a fixed multi-recipient ciphertext, made once per process.
var mdecMemo = map[[2]int]*mtruth{}

func mdecHonest(f, i int) *mtruth {
	if m := mdecMemo[[2]int{f, i}]; m != nil {
		return m
	}
	k := known(f, 2, i)
	p := common.Params(fields[f])
	msg := Fill(uint64(17+f*3+i), 0, p.MsgLen)
	// made with the model: ct0 is the public key of the scalar hashed from msg
	sc := models.SHAKE256Sum(int(p.A.SecretByteLen), append([]byte{1}, msg...))
	sc[len(sc)-1] &= (1 << (p.A.SecretBitLen % 8)) - 1
	a := impPrv(f, 0, sc)
	pa := sidh.NewPublicKey(fields[f], sidh.KeyVariantSidhA)
	a.GeneratePublicKey(pa)
	j := make([]byte, a.SharedSecretSize())
	a.DeriveSecret(j, impPubAs(f, 1, []byte(k.Pub)))
	mask := models.SHAKE256Sum(p.MsgLen, append([]byte{2}, j...))
	for n := range mask {
		mask[n] ^= msg[n]
	}
	m := &mtruth{f: f, ct0: expPub(pa), ct: mask, ss: models.SHAKE256Sum(p.KemSize, append([]byte{3}, msg...)), to: i}
	mdecMemo[[2]int{f, i}] = m
	return m
}

// impPubAs imports a SIKE public key, which is one of variant B.
func impPubAs(f, v int, b []byte) *sidh.PublicKey {
	k := sidh.NewPublicKey(fields[f], variants[v])
	k.Import(clone(b))
	return k
}

var pdecMemo [][64]byte

var pdecPt = [16]byte{4, 8, 15, 16, 23, 42}

// pdecHonest is a fixed ciphertext for the first CSIDH key.
func pdecHonest() [][64]byte {
	if pdecMemo == nil {
		u, ss := []byte(knownCsidh[1][1]), []byte(knownCsidh[0][2]) // key 0 with peer 1
		m := models.SHAKE128Sum(16, ss)
		var c [2][64]byte
		copy(c[0][:], u)
		for i := range pdecPt {
			c[1][i] = m[i] ^ pdecPt[i]
		}
		pdecMemo = c[:]
	}
	return pdecMemo
}

func (w *xworld) serve(t *Task, sl *hslots, q *hreq, pay []byte, ep *EntPlan) {
	s := t.S
	s.St.Ops["hostile-"+q.kind]++
	if w.timed {
		w.timing(t, sl, q, pay, ep)
		return
	}
	hon := eq(pay, w.honestQuiet(t, q))
	if hon {
		s.St.Probes["honest-requests"]++
	} else {
		s.St.Probes["hostile-requests"]++
	}
	what := fmt.Sprintf("%s, %s request %s", fieldName[q.f], map[bool]string{true: "honest", false: "hostile"}[hon], q.kind)
	switch q.kind {
	case "der":
		w.der(t, q, pay, hon, what)
	case "prv":
		w.prv(t, q, pay, hon, what)
	case "dec":
		w.dec(t, sl, q, pay, hon, what)
	case "mdec":
		w.mdec(t, sl, q, pay, hon, what)
	case "enc":
		w.enc(t, sl, q, pay, what, ep)
	case "menc":
		w.menc(t, sl, q, pay, what, ep)
	case "pdec":
		w.pdec(t, sl, q, pay, hon, what)
	}
}

func (w *xworld) honestQuiet(t *Task, q *hreq) (b []byte) {
	t.S.Quiet(func() { b = w.honest(q) })
	return
}

// must runs oracle work on new objects with exactly the same bytes.
func quietly(t *Task, what string, fn func()) {
	var pv interface{}
	t.S.Quiet(func() {
		defer func() { pv = recover() }()
		fn()
	})
	if pv != nil {
		t.Fail("panic", "%s: on new objects: %v", what, pv)
	}
}

func (w *xworld) der(t *Task, q *hreq, pay []byte, hon bool, what string) {
	if q.v == 2 {
		q = &hreq{kind: q.kind, f: q.f, v: 1, i: q.i, pkg: q.pkg, alt: q.alt}
	}
	k := hkey{q.f, q.v, q.i}
	prv, _ := w.key(t, k)
	o := q.opposite()
	var pub *sidh.PublicKey
	ss := pattern(prv.SharedSecretSize(), q.alt)
	t.Must("K07", func() {
		pub = rePub(t, q.f, o, 0, pay)
		if q.alt%5 == 4 {
			expPub(pub)
		}
		prv.DeriveSecret(ss, pub)
	})
	t.S.Logf("t%d der %x", t.ID, Digest(ss))
	if hon {
		if want := known(q.f, q.v, q.i).Secret; string(ss) != want {
			t.Fail("honest", "%s: derived %s, the peer has %s", what, hexs(ss), hexs([]byte(want)))
		}
	} else {
		want := make([]byte, len(ss))
		quietly(t, what, func() {
			impPrv(q.f, q.v, []byte(known(q.f, q.v, q.i).Prv)).DeriveSecret(want, impPub(q.f, o, pay))
		})
		if !eq(ss, want) {
			t.Fail("history", "%s: derived %s, new objects with the same keys derive %s", what, hexs(ss), hexs(want))
		}
	}
	if b := expPrv(prv); string(b) != known(q.f, q.v, q.i).Prv {
		t.Fail("key-changed", "%s: the private key is not what it was", what)
	}
}

func (w *xworld) prv(t *Task, q *hreq, pay []byte, hon bool, what string) {
	var b, want []byte
	t.Must("K07", func() {
		prv := rePrv(t, q.f, q.v, 3, pay)
		pub := rePub(t, q.f, q.v, 3, []byte(known(q.f, q.v, q.i+1).Pub))
		prv.GeneratePublicKey(pub)
		b = expPub(pub)
	})
	t.S.Logf("t%d prv %x", t.ID, Digest(b))
	if hon {
		want = []byte(known(q.f, q.v, q.i).Pub)
	} else {
		quietly(t, what, func() {
			p := sidh.NewPublicKey(fields[q.f], variants[q.v])
			impPrv(q.f, q.v, pay).GeneratePublicKey(p)
			want = expPub(p)
		})
	}
	if !eq(b, want) {
		t.Fail("history", "%s: public key %s, expected %s", what, hexs(b), hexs(want))
	}
}

func (w *xworld) kem(t *Task, sl *hslots, q *hreq, ep *EntPlan) *kslot {
	k := sl.kem[q.pkg][q.f]
	if k == nil {
		e := t.S.NewEntropy(ep)
		t.Must("K07", func() { k = &kslot{newKEM(q.pkg, q.alt&1, q.f, e), q.pkg, q.f, e} })
		sl.kem[q.pkg][q.f] = k
	} else if q.alt%7 == 6 {
		t.Must("K07", func() { k.k.Reset() })
	}
	return k
}

func (w *xworld) dec(t *Task, sl *hslots, q *hreq, pay []byte, hon bool, what string) {
	k := w.kem(t, sl, q, nil)
	prv, pub := w.key(t, hkey{q.f, 2, q.i})
	kk := known(q.f, 2, q.i)
	ss := pattern(k.k.SharedSecretSize(), q.alt)
	var err error
	t.Must("K07", func() { err = k.k.Decapsulate(ss, prv, pub, clone(pay)) })
	t.S.Logf("t%d dec %x", t.ID, Digest(ss))
	want := []byte(kk.Secret)
	if !hon {
		want = models.SHAKE256Sum(len(ss), []byte(kk.Prv)[:common.Params(fields[q.f]).MsgLen], pay)
	}
	if err != nil || !eq(ss, want) {
		t.Fail("secret", "%s: decapsulated %s, expected %s (%v)", what, hexs(ss), hexs(want), err)
	}
}

func (w *xworld) multi(t *Task, sl *hslots, q *hreq, ep *EntPlan) *mslot {
	m := sl.mk[q.f]
	if m == nil {
		m = &mslot{u: new(mkem.MultiKEM), f: q.f, n: 4, e: t.S.NewEntropy(ep)}
		t.Must("K07", func() { m.u.Allocate(fields[q.f], 4, m.e) })
		sl.mk[q.f] = m
	}
	return m
}

func (w *xworld) mdec(t *Task, sl *hslots, q *hreq, pay []byte, hon bool, what string) {
	m := w.multi(t, sl, q, nil)
	prv, pub := w.key(t, hkey{q.f, 2, q.i})
	kk := known(q.f, 2, q.i)
	p := common.Params(fields[q.f])
	ss := pattern(m.u.SharedSecretSize(), q.alt)
	copy(mkCt0(m.u), pay[:p.PublicKeySize])
	var err error
	t.Must("K07", func() { err = m.u.Decapsulate(ss, prv, pub, clone(pay[p.PublicKeySize:])) })
	t.S.Logf("t%d mdec %x", t.ID, Digest(ss))
	var want []byte
	if hon {
		quietly(t, what, func() { want = mdecHonest(q.f, q.i).ss })
	} else {
		want = models.SHAKE256Sum(len(ss), append([]byte{3}, []byte(kk.Prv)[:p.MsgLen]...))
	}
	if err != nil || !eq(ss, want) {
		t.Fail("secret", "%s: decapsulated %s, expected %s (%v)", what, hexs(ss), hexs(want), err)
	}
}

func (w *xworld) enc(t *Task, sl *hslots, q *hreq, pay []byte, what string, ep *EntPlan) {
	k := w.kem(t, sl, q, ep)
	n, m := k.k.CiphertextSize(), k.k.SharedSecretSize()
	ct, ss := pattern(n, q.alt), pattern(m, q.alt+1)
	k.e.Mark()
	var err error
	t.Must("K07", func() { err = k.k.Encapsulate(ct, ss, rePub(t, q.f, 2, 0, pay)) })
	t.S.Logf("t%d enc %x %x", t.ID, Digest(ct), Digest(ss))
	if err != nil {
		t.Fail("error", "%s: %v", what, err)
	}
	need := common.Params(fields[q.f]).MsgLen
	log := clone(k.e.Log)
	if len(log) < need || !eq(ss, models.SHAKE256Sum(m, log[:need], ct)) {
		t.Fail("secret", "%s: the secret was not made from the bytes the device delivered and the ciphertext", what)
	}
	ct2, ss2 := make([]byte, n), make([]byte, m)
	quietly(t, what, func() {
		newKEM(q.alt>>1&1, 0, q.f, &replayReader{b: log}).Encapsulate(ct2, ss2, impPub(q.f, 2, pay))
	})
	if !eq(ct, ct2) || !eq(ss, ss2) {
		t.Fail("history", "%s: a new object given the same key and random bytes produced another ciphertext or secret", what)
	}
}

func (w *xworld) menc(t *Task, sl *hslots, q *hreq, pay []byte, what string, ep *EntPlan) {
	m := w.multi(t, sl, q, ep)
	p := common.Params(fields[q.f])
	nr := 1 + q.alt%4
	bad := q.alt / 4 % nr
	var keys [][]byte
	for j := 0; j < nr; j++ {
		b := []byte(known(q.f, 2, q.i+j).Pub)
		if j == bad || q.alt&256 != 0 && j == (bad+2)%nr {
			b = pay
		}
		keys = append(keys, b)
	}
	ss := pattern(m.u.SharedSecretSize(), q.alt)
	m.e.Mark()
	var err error
	t.Must("K07", func() {
		var pubs []*sidh.PublicKey
		for j, b := range keys {
			pubs = append(pubs, rePub(t, q.f, 2, 10+j, b))
		}
		err = m.u.Encapsulate(ss, pubs)
	})
	if err != nil {
		t.Fail("error", "%s: %v", what, err)
	}
	ct0 := clone(mkCt0(m.u)[:p.PublicKeySize])
	var ents [][]byte
	for j := range keys {
		ents = append(ents, clone(mkEntry(m.u, j)[:p.MsgLen]))
	}
	t.S.Logf("t%d menc %x %x", t.ID, Digest(ct0), Digest(ss))
	log := clone(m.e.Log)
	if len(log) < p.MsgLen || !eq(ss, models.SHAKE256Sum(len(ss), []byte{3}, log[:p.MsgLen])) {
		t.Fail("secret", "%s: the secret was not made from the bytes the device delivered", what)
	}
	// every recipient's part is what it would be if it were the only one
	one := q.alt / 16 % nr
	ss2 := make([]byte, len(ss))
	u := new(mkem.MultiKEM)
	quietly(t, what, func() {
		u.Allocate(fields[q.f], 1, &replayReader{b: log})
		u.Encapsulate(ss2, []*sidh.PublicKey{impPub(q.f, 2, keys[one])})
	})
	if !eq(ss, ss2) || !eq(ct0, mkCt0(u)[:p.PublicKeySize]) {
		t.Fail("history", "%s: a new object given the same random bytes and one of the %d recipients produced another common part or secret", what, nr)
	}
	if !eq(ents[one], mkEntry(u, 0)[:p.MsgLen]) {
		t.Fail("others", "%s: the entry of recipient %d depends on the other recipients (number %d has a hostile key)", what, one, bad)
	}
	// an honest recipient, on its own object
	j := q.alt / 64 % nr
	if eq(keys[j], pay) && !eq(pay, []byte(known(q.f, 2, q.i+j).Pub)) {
		return
	}
	t.Boundary()
	prv, pub := w.key(t, hkey{q.f, 2, (q.i + j) % 3})
	copy(mkCt0(m.u), ct0)
	t.Must("K07", func() { err = m.u.Decapsulate(ss2, prv, pub, clone(ents[j])) })
	if err != nil || !eq(ss, ss2) {
		t.Fail("secret", "%s: recipient %d decapsulated %s, the sender has %s (%v)", what, j, hexs(ss2), hexs(ss), err)
	}
	t.S.St.Probes["honest-recipients-beside-a-hostile-one"]++
}

func (w *xworld) pdec(t *Task, sl *hslots, q *hreq, pay []byte, hon bool, what string) {
	if sl.pke == nil {
		t.Must("K07", func() { sl.pke = newPslot(q.alt&1, 2, q.alt) })
	}
	sk := new(csidh.PrivateKey)
	var u, v [64]byte
	copy(u[:], pay)
	copy(v[:], pay[64:])
	sk.Import([]byte(knownCsidh[0][0]))
	var got, want [16]byte
	t.Must("K07", func() { got = pkeDec(sl.pke.p, sk, u, v) })
	t.S.Logf("t%d pdec %x", t.ID, got)
	if hon {
		want = pdecPt
	} else {
		quietly(t, what, func() {
			k := new(csidh.PrivateKey)
			k.Import([]byte(knownCsidh[0][0]))
			want = pkeDec(newPslot(0, 1, 1).p, k, u, v)
		})
	}
	if got != want {
		t.Fail("history", "CSIDH, request %s: decrypted %x, expected %x", q.kind, got, want)
	}
}

func execHostile(s *Sim) { execServers(s, false) }

func execTiming(s *Sim) { execServers(s, true) }

func execServers(s *Sim, timed bool) {
	w := &xworld{wire: map[int]*hreq{}, srv: make([]*hserver, len(s.Nodes)), timed: timed}
	for ni, nd := range s.Nodes {
		ni := ni
		nd.OnBoot(func(nd *Node) {
			w.srv[ni] = &hserver{map[hkey]*sidh.PrivateKey{}, map[hkey]*sidh.PublicKey{}}
			for i := range s.Plan.Tasks {
				i := i
				tp := &s.Plan.Tasks[i]
				if tp.Node%len(s.Nodes) == ni {
					s.Spawn(fmt.Sprintf("t%d", i), nd, tp, func(t *Task) { w.task(t, i) })
				}
			}
		})
	}
	s.Run()
}

func genHostile(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "hostile"}
	nn := r.In(1, 3)
	for k := 0; k < nn; k++ {
		pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
	}
	nt := r.Pick(3, 3, 1) + 1
	f0 := r.Pick(7, 3, 1)
	for k := 0; k < nt; k++ {
		tp := TaskPlan{Node: r.N(nn)}
		n := r.In(3, 9)
		for len(tp.Ops) < n {
			f := f0
			if r.Chance(12) {
				f = r.Pick(7, 3, 1)
			}
			kind := []string{"der", "dec", "mdec", "enc", "menc", "prv", "recv", "pdec"}[r.Pick(8, 5, 4, 4, 5, 3, 5, 1)]
			if kind == "recv" {
				tp.Ops = append(tp.Ops, Op{K: "recv", I: []int{r.Log(40)}})
				continue
			}
			v := 2
			if kind == "der" {
				v = r.N(2)
			} else if kind == "prv" {
				v = r.N(3)
			}
			mode := 0
			if r.Chance(65) {
				mode = r.In(1, 17)
				if kind == "pdec" {
					mode = r.In(1, 19)
				}
			}
			dst := k
			if r.Chance(40) {
				dst = r.N(nt)
			}
			o := Op{K: kind, I: []int{f, v, r.N(3), r.N(2), r.N(512), mode, r.N(1 << 20), 0, 0, dst}}
			if kind == "enc" || kind == "menc" {
				o.E = GenEnt(r)
			}
			tp.Ops = append(tp.Ops, o)
			// often the same kind again at once, honestly
			if mode > 0 && r.Chance(30) {
				o.I = append([]int(nil), o.I...)
				o.I[5] = 0
				o.I[9] = k
				tp.Ops = append(tp.Ops, o)
			}
		}
		pl.Tasks = append(pl.Tasks, tp)
	}
	pool := fnPool("dh/sidh", "kem/mkem", "hash/sha3")
	genNet(r, pl, nn, pool)
	if r.Chance(50) {
		// a network that damages instead of losing
		for k := range pl.Net {
			if pl.Net[k].Drop {
				pl.Net[k].Drop = false
				pl.Net[k].Flip = []int{r.N(1 << 16)}
			}
		}
	}
	genSched(r, pl, 60000, 12, pool, false)
	return pl
}

func init() {
	Register(&Prop{ID: "K07", Title: "hostile input", Quick: 3740, Thorough: 60000, Gen: genHostile, Exec: execHostile,
		Rule: "it is non-trivial when a request was served", Real: []string{"dh/sidh", "kem/mkem KEM, MultiKEM, PKE", "dh/csidh", "hash/sha3"}, Stub: append([]string{"hostile peers", "loading a received common part into a MultiKEM (there is no public call for it)"}, netStub...),
		Probes: []string{"hostile-requests", "honest-requests", "requests-served-over-the-network", "honest-recipients-beside-a-hostile-one", "crash-inside-operation", "message-corrupted"}})
}
