package scn

import (
	"fmt"
	"io"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	. "verifsim/engine"
	"verifsim/models"
)

// X06: objects do not wear out. One object is used again and again with two or
// three inputs in turn, disturbed now and then by refused and failing calls.
// Every use must give what a new object gave for that input before, and in the
// end new objects must give it again.

// worn is an object in service.
type worn struct {
	one func(i int) string // use number i
	bad func(i int)        // a call that is refused or fails
	end func() string      // judged once, after all uses
}

// soakKinds: name, uses in the long run every check makes.
var soakKinds = []struct {
	name string
	max  int
	mk   func(t *Task, f, seed int) *worn
}{
	{"hash-reset", 1050000, soakHash},
	{"hash-long", 1100000, soakLong},
	{"xof-reset", 1050000, soakXof},
	{"xof-long", 1100000, soakXofLong},
	{"clone-chain", 66500, soakClone},
	{"drbg-init", 1050000, soakInit},
	{"drbg-reseed", 1050000, soakReseed},
	{"sidh-import", 1050000, soakSidhImport},
	{"sidh-generate", 1050000, soakSidhGen},
	{"csidh-import", 1050000, soakCsidhImport},
	{"csidh-generate", 1050000, soakCsidhGen},
	{"sike-reimported", 20, soakKemKeys},
	{"csidh-reimported", 12, soakCsidhKeys},
	// expensive ones
	{"sidh-public-key", 1030, soakSidhPub},
	{"sidh-derive", 1030, soakSidhDerive},
	{"sike-encapsulate", 1030, soakEnc},
	{"sike-decapsulate", 1030, soakDec},
	{"multi-kem", 1030, soakMulti},
	{"csidh-validate", 1030, soakVal},
	{"csidh-public-key", 1030, soakCPub},
	{"csidh-derive", 262, soakCDer},
	{"pke", 262, soakPke},
	{"multi-pke", 262, soakMPke},
}

const soakCheap = 13

func soakHash(t *Task, f, seed int) *worn {
	alg := []int{models.SHA3_224, models.SHA3_256, models.SHA3_384, models.SHA3_512, models.SM3ID}[seed%5]
	o := newHobj(alg, nil, nil)
	return &worn{one: func(i int) string {
		o.h.Reset()
		o.h.Write(in(seed, 0, 3+i*70))
		return hexs(o.h.Sum(nil))
	}, bad: func(i int) {
		o.h.Write(in(seed, 1, i%40))
		o.h.Sum(nil)
	}}
}

// soakLong is one message written in very many pieces.
func soakLong(t *Task, f, seed int) *worn {
	alg := []int{models.SHA3_224, models.SHA3_256, models.SHA3_384, models.SHA3_512, models.SM3ID}[seed%5]
	o := newHobj(alg, nil, nil)
	var msg []byte
	size := 1 + seed/5%3
	if seed/15%3 > 0 {
		size = 1 + seed/45%200
	}
	piece := in(seed, 0, size)
	return &worn{one: func(i int) string {
		if len(msg) > 16<<20 {
			return fmt.Sprint(size, errs(nil))
		}
		n, err := o.h.Write(piece)
		msg = append(msg, piece...)
		return fmt.Sprint(n, errs(err))
	}, end: func() string {
		// to a round number of blocks
		p := in(seed, 0, roundUp(len(msg), models.Rate(alg))-len(msg))
		o.h.Write(p)
		msg = append(msg, p...)
		if !eq(o.h.Sum(nil), models.Digest(alg, msg)) {
			return fmt.Sprintf("the %s digest of %d bytes is wrong", models.AlgName[alg], len(msg))
		}
		o.h.Reset()
		o.h.Write(piece)
		if !eq(o.h.Sum(nil), models.Digest(alg, piece)) {
			return fmt.Sprintf("and a message of %d bytes the %s object still knows it after Reset", len(msg), models.AlgName[alg])
		}
		return ""
	}}
}

// roundUp gives the next power of two of blocks.
func roundUp(n, rate int) int {
	k := rate
	for k < n {
		k *= 2
	}
	return k
}

func soakXof(t *Task, f, seed int) *worn {
	o := newHobj(models.SHAKE128+seed%4, in(seed, 0, 5), in(seed, 0, 9))
	return &worn{one: func(i int) string {
		o.x.Reset()
		o.x.Write(in(seed, 0, 3+i*90))
		b := make([]byte, 20)
		o.x.Read(b)
		return hexs(b)
	}, bad: func(i int) {
		o.x.Write([]byte{1}) // refused
	}}
}

func soakXofLong(t *Task, f, seed int) *worn {
	alg := models.SHAKE128 + seed%4
	N, S := in(seed, 0, 5), in(seed, 0, 9)
	o := newHobj(alg, N, S)
	msg := in(seed, 0, 33)
	o.x.Write(msg)
	var out []byte
	size := 1 + seed/4%5
	if seed/20%3 > 0 {
		size = 1 + seed/60%200
	}
	return &worn{one: func(i int) string {
		if len(out) > 16<<20 {
			return fmt.Sprint(size, errs(nil))
		}
		b := make([]byte, size)
		n, err := o.x.Read(b)
		out = append(out, b...)
		return fmt.Sprint(n, errs(err))
	}, bad: func(i int) {
		o.x.Write([]byte{1})
	}, end: func() string {
		b := make([]byte, roundUp(len(out), models.Rate(alg))-len(out)+seed/7%2)
		o.x.Read(b)
		out = append(out, b...)
		want := models.XOF(alg, N, S, msg, 0, len(out)+50)
		if !eq(out, want[:len(out)]) {
			return fmt.Sprintf("the first %d bytes of the %s stream are wrong", len(out), models.AlgName[alg])
		}
		c := o.x.Clone()
		for i, x := range []io.Reader{c, o.x} {
			b := make([]byte, 50)
			x.Read(b)
			if !eq(b, want[len(out):]) {
				return fmt.Sprintf("(%d bytes read) the %s of the object goes on wrongly", len(out), []string{"clone", "original"}[i])
			}
		}
		o.x.Reset()
		o.x.Write(msg[1:])
		b = make([]byte, 20)
		o.x.Read(b)
		if !eq(b, models.XOF(alg, N, S, msg[1:], 0, 20)) {
			return fmt.Sprintf("and %d bytes read the %s object still knows it after Reset", len(out), models.AlgName[alg])
		}
		return ""
	}}
}

// soakClone goes on with the clone of the clone of the clone.
func soakClone(t *Task, f, seed int) *worn {
	alg := models.SHAKE128 + seed%4
	N, S := in(seed, 0, 5), in(seed, 0, 9)
	o := newHobj(alg, N, S)
	first := o.x
	var msg []byte
	return &worn{one: func(i int) string {
		p := in(seed, 0, seed/4%3)
		n, err := o.x.Write(p)
		msg = append(msg, p...)
		o.x = o.x.Clone()
		return fmt.Sprint(n, errs(err))
	}, end: func() string {
		b, c := make([]byte, 300), make([]byte, 300)
		o.x.Read(b)
		first.Read(c)
		if !eq(b, models.XOF(alg, N, S, msg, 0, len(b))) {
			return fmt.Sprintf("the clone at the end of the chain gives a wrong %s stream for its %d bytes", models.AlgName[alg], len(msg))
		}
		if !eq(c, models.XOF(alg, N, S, in(seed, 0, seed/4%3), 0, len(c))) {
			return "the first object of the chain gives a wrong stream"
		}
		return ""
	}}
}

func soakInit(t *Task, f, seed int) *worn {
	g := drbg.NewCtrDrbg()
	return &worn{one: func(i int) string {
		ok := g.Init(in(seed+i, 0, 48), in(seed, 0, 7))
		b := make([]byte, 21)
		n, err := g.Read(b)
		return fmt.Sprint(ok, n, errs(err), hexs(b))
	}, bad: func(i int) {
		g.Init(in(seed, 0, i%32), nil)
	}}
}

func soakReseed(t *Task, f, seed int) *worn {
	g := drbg.NewCtrDrbg()
	var m models.CTR
	g.Init(in(seed, 0, 48), nil)
	m.Init(in(seed, 0, 48), nil)
	k := 0
	return &worn{one: func(i int) string {
		e := in(seed+k%5, 0, 48)
		g.Reseed(e, nil)
		m.Reseed(e, nil)
		if k++; k%3 == 0 {
			b := make([]byte, 5)
			g.Read(b)
			if !eq(b, m.Generate(5, nil)) {
				return "wrong"
			}
		}
		return "right"
	}, end: func() string {
		b := make([]byte, 50)
		g.Read(b)
		if !eq(b, m.Generate(50, nil)) {
			return "the generator's output is wrong"
		}
		return ""
	}}
}

func soakSidhImport(t *Task, f, seed int) *worn {
	v := seed % 3
	p, k := sidh.NewPublicKey(fields[f], variants[v]), sidh.NewPrivateKey(fields[f], variants[v])
	return &worn{one: func(i int) string {
		kk := known(f, v, i)
		e1, e2 := p.Import([]byte(kk.Pub)), k.Import([]byte(kk.Prv))
		return errs(e1) + errs(e2) + hexs(Digest(expPub(p))) + hexs(Digest(expPrv(k)))
	}, bad: func(i int) {
		p.Import(make([]byte, i%50))
		k.Import(make([]byte, i%15))
	}}
}

func soakSidhGen(t *Task, f, seed int) *worn {
	k := sidh.NewPrivateKey(fields[f], variants[seed%3])
	return &worn{one: func(i int) string {
		err := k.Generate(t.S.NewEntropy(&EntPlan{Seed: seed + i}))
		return errs(err) + hexs(Digest(expPrv(k)))
	}, bad: func(i int) {
		k.Generate(failing(t, i%20))
	}}
}

// failing is a source that breaks down after n bytes.
func failing(t *Task, n int) io.Reader {
	return t.S.NewEntropy(&EntPlan{Seed: n, Fault: []EntFault{{At: n, Kind: "err"}}})
}

func soakCsidhImport(t *Task, f, seed int) *worn {
	var p csidh.PublicKey
	var k csidh.PrivateKey
	return &worn{one: func(i int) string {
		a, b := make([]byte, 37), make([]byte, 64)
		o1, o2 := k.Import([]byte(knownCsidh[i][0])), p.Import([]byte(knownCsidh[i][1]))
		o3, o4 := k.Export(a), p.Export(b)
		return fmt.Sprint(o1, o2, o3, o4) + hexs(Digest(a)) + hexs(Digest(b))
	}, bad: func(i int) {
		k.Import(make([]byte, i%37))
		p.Import(make([]byte, i%64))
		// not a number of the field: refused at once
		b := make([]byte, 64)
		for j := range b {
			b[j] = 0xff
		}
		p.Import(b)
		var ss [64]byte
		csidh.DeriveSecret(&ss, &p, &k, plainRng())
	}}
}

func soakCsidhGen(t *Task, f, seed int) *worn {
	var k csidh.PrivateKey
	return &worn{one: func(i int) string {
		e := &EntPlan{Seed: seed + i} // most bytes are rejected
		if f == 0 {
			e.Mode, e.Len = 3, 1000 // nearly none
		}
		err := csidh.GeneratePrivateKey(&k, t.S.NewEntropy(e))
		a := make([]byte, 37)
		k.Export(a)
		return errs(err) + hexs(Digest(a))
	}, bad: func(i int) {
		csidh.GeneratePrivateKey(&k, failing(t, i%64))
	}}
}

func soakSidhPub(t *Task, f, seed int) *worn {
	v := seed % 3
	k, p := impPrv(f, v, []byte(known(f, v, 0).Prv)), sidh.NewPublicKey(fields[f], variants[v])
	return &worn{one: func(i int) string {
		k.GeneratePublicKey(p)
		return hexs(Digest(expPub(p)))
	}, bad: func(i int) {
		k.GeneratePublicKey(sidh.NewPublicKey(fields[f], variants[(v+1)%3]))
	}}
}

func soakSidhDerive(t *Task, f, seed int) *worn {
	v := seed % 2
	k, p := impPrv(f, v, []byte(known(f, v, 0).Prv)), impPub(f, 1-v, []byte(known(f, 1-v, 0).Pub))
	q := impPub(f, v, []byte(known(f, v, 0).Pub))
	return &worn{one: func(i int) string {
		b := make([]byte, k.SharedSecretSize())
		k.DeriveSecret(b, p)
		return hexs(Digest(b))
	}, bad: func(i int) {
		k.DeriveSecret(make([]byte, k.SharedSecretSize()), q)
	}}
}

func soakEnc(t *Task, f, seed int) *worn {
	sw := &switchRng{}
	c := newKEM(seed%2, seed/2%2, f, sw)
	p := impPub(f, 2, []byte(known(f, 2, 0).Pub))
	return &worn{one: func(i int) string {
		sw.r = t.S.NewEntropy(&EntPlan{Seed: seed + i})
		ct, ss := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize())
		err := c.Encapsulate(ct, ss, p)
		return errs(err) + hexs(Digest(ct)) + hexs(Digest(ss))
	}, bad: func(i int) {
		sw.r = failing(t, i%16)
		c.Encapsulate(make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize()), p)
		if i%3 == 0 {
			c.Reset()
		}
	}}
}

func soakDec(t *Task, f, seed int) *worn {
	c := newKEM(seed%2, seed/2%2, f, plainRng())
	k, p := impPrv(f, 2, []byte(known(f, 2, 0).Prv)), impPub(f, 2, []byte(known(f, 2, 0).Pub))
	return &worn{one: func(i int) string {
		ct := []byte(known(f, 2, 0).Ct)
		if i > 0 {
			ct[len(ct)-i] ^= 0x10
		}
		ss := make([]byte, c.SharedSecretSize())
		err := c.Decapsulate(ss, k, p, ct)
		return errs(err) + hexs(ss)
	}, bad: func(i int) {
		c.Decapsulate(make([]byte, c.SharedSecretSize()), k, p, make([]byte, i%300))
	}}
}

// soakTimes is how often a key object is filled between two uses.
func soakTimes(seed int) int { return []int{1, 2, 128, 256, 256, 1024, 65536}[seed/3%7] }

// soakKemKeys uses keys in objects that are filled again many times between two uses.
func soakKemKeys(t *Task, f, seed int) *worn {
	sw := &switchRng{plainRng()}
	c := newKEM(seed%2, seed/2%2, f, sw)
	k, p := sidh.NewPrivateKey(fields[f], variants[2]), sidh.NewPublicKey(fields[f], variants[2])
	m := soakTimes(seed)
	if seed/21%3 > 0 {
		p.Import([]byte(known(f, 2, 2).Pub))
		k.Import([]byte(known(f, 2, 2).Prv))
	}
	return &worn{one: func(i int) string {
		for j := m - 1; j >= 0; j-- {
			// the last one is the one in use
			p.Import([]byte(known(f, 2, i+j).Pub))
			k.Import([]byte(known(f, 2, i+j).Prv))
		}
		sw.r = t.S.NewEntropy(&EntPlan{Seed: seed})
		ct, ss, s2 := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize()), make([]byte, c.SharedSecretSize())
		e1 := c.Encapsulate(ct, ss, p)
		e2 := c.Decapsulate(s2, k, p, ct)
		q := sidh.NewPublicKey(fields[f], variants[2])
		k.GeneratePublicKey(q)
		return errs(e1) + errs(e2) + hexs(ss) + fmt.Sprint(eq(ss, s2)) + hexs(Digest(expPub(q)))
	}}
}

func soakCsidhKeys(t *Task, f, seed int) *worn {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	m := soakTimes(seed)
	if seed/21%3 > 0 {
		k.Import([]byte(knownCsidh[4][0]))
		p.Import([]byte(knownCsidh[4][1]))
	}
	return &worn{one: func(i int) string {
		for j := m - 1; j >= 0; j-- {
			k.Import([]byte(knownCsidh[(i+j)%5][0]))
			p.Import([]byte(knownCsidh[(i+j+seed%4)%5][1]))
		}
		var b [64]byte
		ok := csidh.DeriveSecret(&b, &p, &k, t.S.NewEntropy(&EntPlan{Seed: seed}))
		return fmt.Sprint(ok) + hexs(Digest(b[:]))
	}}
}

func soakMulti(t *Task, f, seed int) *worn {
	sw := &switchRng{}
	u := new(mkem.MultiKEM)
	u.Allocate(fields[f], 2, sw)
	p := impPub(f, 2, []byte(known(f, 2, 0).Pub))
	k := impPrv(f, 2, []byte(known(f, 2, 0).Prv))
	return &worn{one: func(i int) string {
		sw.r = t.S.NewEntropy(&EntPlan{Seed: seed + i})
		n := u.SharedSecretSize()
		ss, s2 := make([]byte, n), make([]byte, n)
		err := u.Encapsulate(ss, []*sidh.PublicKey{p, p}[:1+seed%2])
		r := errs(err) + hexs(ss) + hexs(Digest(mkEntry(u, seed%2)[:n]))
		if i == 0 {
			err = u.Decapsulate(s2, k, p, clone(mkEntry(u, seed%2)[:n]))
			r += errs(err) + hexs(s2)
		}
		return r
	}, bad: func(i int) {
		sw.r = failing(t, i%16)
		u.Encapsulate(make([]byte, u.SharedSecretSize()), []*sidh.PublicKey{p})
	}}
}

func soakVal(t *Task, f, seed int) *worn {
	var p [2]csidh.PublicKey
	for i := range p {
		p[i].Import([]byte(knownCsidh[i+seed%3][1]))
	}
	return &worn{one: func(i int) string {
		return fmt.Sprint(csidh.Validate(&p[i%2], t.S.NewEntropy(&EntPlan{Seed: seed + i})))
	}, bad: func(i int) {
		csidh.Validate(&p[0], failing(t, i%64)) // panics
	}}
}

func soakCPub(t *Task, f, seed int) *worn {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	k.Import([]byte(knownCsidh[seed%5][0]))
	return &worn{one: func(i int) string {
		csidh.GeneratePublicKey(&p, &k, t.S.NewEntropy(&EntPlan{Seed: seed + i}))
		b := make([]byte, 64)
		p.Export(b)
		return hexs(Digest(b))
	}, bad: func(i int) {
		var q csidh.PublicKey
		csidh.GeneratePublicKey(&q, &k, failing(t, i%64))
	}}
}

func soakCDer(t *Task, f, seed int) *worn {
	var k csidh.PrivateKey
	var p csidh.PublicKey
	k.Import([]byte(knownCsidh[seed%5][0]))
	p.Import([]byte(knownCsidh[(seed+1)%5][1]))
	return &worn{one: func(i int) string {
		var b [64]byte
		ok := csidh.DeriveSecret(&b, &p, &k, t.S.NewEntropy(&EntPlan{Seed: seed + i}))
		return fmt.Sprint(ok) + hexs(Digest(b[:]))
	}, bad: func(i int) {
		var b [64]byte
		csidh.DeriveSecret(&b, &p, &k, failing(t, i%64))
	}}
}

func soakPke(t *Task, f, seed int) *worn {
	q := newPslot(0, 1, seed)
	var k csidh.PrivateKey
	var p csidh.PublicKey
	k.Import([]byte(knownCsidh[seed%5][0]))
	p.Import([]byte(knownCsidh[seed%5][1]))
	return &worn{one: func(i int) string {
		q.g.Init(in(seed+i, 0, 48), nil)
		var pt [16]byte
		copy(pt[:], in(seed+i, 0, 16))
		ct := q.p.Enc(&p, &pt)
		got := q.p.Dec(&k, &ct)
		return fmt.Sprint(got == pt) + hexs(Digest(ct.U[:])) + hexs(Digest(ct.V[:]))
	}}
}

func soakMPke(t *Task, f, seed int) *worn {
	q := newPslot(1, 2, seed)
	pks := make([]csidh.PublicKey, 1)
	pks[0].Import([]byte(knownCsidh[seed%5][1]))
	return &worn{one: func(i int) string {
		q.g.Init(in(seed+i, 0, 48), nil)
		var pt [16]byte
		copy(pt[:], in(seed+i, 0, 16))
		q.m.Encrypt(pks, &pt)
		return hexs(Digest(q.m.Ct0[:])) + hexs(Digest(q.m.Cts[0][:]))
	}}
}

// soakFixed are the runs every check begins with, the slow ones first: kind, field, uses.
var soakFixed = func() (l [][3]int) {
	n := len(soakKinds)
	for _, k := range []int{n - 1, n - 2, n - 3, n - 4, n - 5} { // CSIDH
		l = append(l, [3]int{k, 0, soakKinds[k].max})
	}
	for _, f := range []int{2, 1, 0} {
		for k := soakCheap; k < n-5; k++ {
			m := soakKinds[k].max
			if f == 2 {
				m /= 2
			}
			l = append(l, [3]int{k, f, m})
		}
	}
	for k := 0; k < soakCheap-2; k++ {
		l = append(l, [3]int{k, 0, soakKinds[k].max})
	}
	l = append(l, [3]int{1, 2, soakKinds[1].max}, [3]int{soakCheap - 3, 1, 20000})
	for i := 0; i < 12; i++ {
		l = append(l, [3]int{soakCheap - 2, i % 3, 7})
	}
	return append(l, [3]int{soakCheap - 1, 0, 4}, [3]int{soakCheap - 1, 1, 4})
}()

func genX06(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "soak", Nodes: []NodePlan{{Off: GenOff(r)}}}
	var kind, n int
	f := r.N(3)
	nk := len(soakKinds)
	switch {
	case i < len(soakFixed):
		kind, f, n = soakFixed[i][0], soakFixed[i][1], soakFixed[i][2]
	case r.Chance(92) || r.N(100) < 50 && !th:
		kind = r.N(soakCheap)
		n = r.Log(3000)
		if r.Chance(8) {
			n = 65000 + r.N(2000)
		}
		if n > soakKinds[kind].max {
			n = soakKinds[kind].max
		}
	default:
		kind = soakCheap + r.N(nk-soakCheap)
		n = r.Log(30)
		if th {
			n = r.Log(1100)
		}
	}
	seed := r.N(1 << 20)
	if i < len(soakFixed) && kind == 1 {
		// many blocks of either hash: f 2 is SM3
		seed = 45*r.In(20, 199) + 15 + r.N(4)
		seed -= seed % 5
		if f == 2 {
			seed += 4
		}
	}
	if i < len(soakFixed) && kind == 3 {
		seed = 60*r.In(20, 199) + 20 + r.N(20)
	}
	ins := 1 + r.N(3)
	if kind == soakCheap-1 || kind == soakCheap-2 {
		if ins == 1 {
			ins = 3
		}
		for i < len(soakFixed) && (soakTimes(seed) != 256+i/2%2*(65536-256) || seed%2 != i%2) {
			seed++
		}
		if soakTimes(seed) > 1024 && n > 4 {
			n = 4
		}
	}
	if kind == soakCheap-3 && f > 0 && n > 20000 {
		n = 20000
	}
	pl.P = map[string]int{"kind": kind, "n": n, "f": f, "seed": seed, "ins": ins}
	if r.Chance(60) {
		pl.P["d"] = 1 + r.Log(n)
		pl.P["burst"] = 1
		if r.Chance(20) {
			pl.P["burst"] = 1 + r.Log(300)
		}
	}
	return pl
}

func execX06(s *Sim) {
	P := s.Plan.P
	k := soakKinds[abs(P["kind"])%len(soakKinds)]
	f, seed, ins := abs(P["f"])%3, abs(P["seed"]), 1+(abs(P["ins"])+2)%3
	s.Spawn("soak", s.Nodes[0], nil, func(t *Task) {
		var o *worn
		use := func(i int) (r string) {
			if pv := t.Op(func() { r = o.one(i % ins) }); pv != nil {
				r = fmt.Sprintf("panic: %v", pv)
			}
			return
		}
		ref := make([]string, ins)
		fresh := func(i int) string {
			t.Must("X06", func() { o = k.mk(t, f, seed) })
			return use(i)
		}
		t.Must("X06", func() { o = k.mk(t, f, seed) })
		if o.end == nil && P["n"] > ins {
			// what a new object gives, one for each input
			for i := range ref {
				ref[i] = fresh(i)
			}
			t.Must("X06", func() { o = k.mk(t, f, seed) })
		}
		bads := 0
		for i := 0; i < P["n"]; i++ {
			if i%64 == 0 {
				t.Boundary()
			}
			r := use(i)
			if i < ins && ref[i] == "" {
				ref[i] = r
			}
			if i < ins {
				s.Logf("%s %s", k.name, r)
				if o.end == nil && len(r) > 5 && r[:5] == "panic" {
					t.Fail("first-use", "%s: use number %d of a new object: %s", k.name, i+1, r)
				}
			}
			if r != ref[i%ins] {
				t.Fail("worn", "%s: use number %d of an object gave %q, a new object with the same input gave %q (%d refused or failed calls before)", k.name, i+1, r, ref[i%ins], bads)
			}
			if d := P["d"]; d > 0 && i%d == d-1 && o.bad != nil {
				for j := 0; j < P["burst"]; j++ {
					bads++
					t.Op(func() { o.bad(bads) })
				}
				s.St.Faults["refused-or-failed-call"] += int64(P["burst"])
			}
			s.St.Ops["soak-"+k.name]++
		}
		if o.end != nil && P["n"] > 0 {
			var w string
			t.Must("X06", func() { w = o.end() })
			if w != "" {
				t.Fail("worn", "%s: after %d uses (and %d refused or failed calls) %s", k.name, P["n"], bads, w)
			}
			s.St.Probes["long-histories-compared-with-a-model"]++
		}
		if o.end == nil && P["n"] >= ins {
			// a process that has done all this makes new objects like old ones
			for i := 0; i < ins; i++ {
				if r := fresh(i); r != ref[i] {
					t.Fail("worn-process", "%s: in a process that did it %d times a new object gives %q, the first one gave %q", k.name, P["n"], r, ref[i])
				}
			}
			s.St.Probes["uses-compared"] += int64(P["n"])
		}
		if P["n"] > 65536 {
			s.St.Probes["object-used-more-than-65536-times"]++
		}
		if P["n"] > 256 {
			s.St.Probes["object-used-more-than-256-times"]++
		}
		s.Logf("%s x%d", k.name, P["n"])
	})
	s.SetLimit(1 << 40)
	s.Run()
}

func init() {
	Register(&Prop{ID: "X06", Title: "objects do not wear out", Quick: 440, Thorough: 40000, Gen: genX06, Exec: execX06,
		Rule: "an object was used repeatedly and its results compared", Real: isoReal,
		Stub: []string{"entropy devices", "CPU features", "reference: own models where the history is one long message, stream or generator"}, Probes: []string{"uses-compared", "long-histories-compared-with-a-model", "object-used-more-than-65536-times", "object-used-more-than-256-times"}})
}
