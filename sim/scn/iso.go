package scn

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/verifrt"
	. "verifsim/engine"
	"verifsim/models"
)

// Programs over all packages whose operations give transcripts. The same
// program is run under two conditions (interleaved and alone, with and without
// CPU features, with exact and with guarded buffers) and the transcripts are
// compared.

// isoKeys are keys all tasks may read.
type isoKeys struct {
	pub [3][3]*sidh.PublicKey
	prv [3][3]*sidh.PrivateKey
	cpr [5]*csidh.PrivateKey
	cpu [5]*csidh.PublicKey
}

func newIsoKeys() *isoKeys {
	k := &isoKeys{}
	for f := range fields {
		for v := range variants {
			kk := known(f, v, 0)
			k.pub[f][v] = impPub(f, v, []byte(kk.Pub))
			k.prv[f][v] = impPrv(f, v, []byte(kk.Prv))
		}
	}
	for i := range k.cpr {
		k.cpr[i], k.cpu[i] = new(csidh.PrivateKey), new(csidh.PublicKey)
		k.cpr[i].Import([]byte(knownCsidh[i][0]))
		k.cpu[i].Import([]byte(knownCsidh[i][1]))
	}
	return k
}

// changed names a shared key that no longer holds what it held.
func (k *isoKeys) changed() string {
	for f := range fields {
		for v := range variants {
			kk := known(f, v, 0)
			if !eq(expPub(k.pub[f][v]), []byte(kk.Pub)) {
				return fmt.Sprintf("SIDH public key %s variant %d", fieldName[f], v)
			}
			if !eq(expPrv(k.prv[f][v]), []byte(kk.Prv)) {
				return fmt.Sprintf("SIDH private key %s variant %d", fieldName[f], v)
			}
		}
	}
	for i := range k.cpr {
		b := make([]byte, 37)
		k.cpr[i].Export(b)
		if !eq(b, []byte(knownCsidh[i][0])) {
			return fmt.Sprintf("CSIDH private key %d", i)
		}
		b = make([]byte, 64)
		k.cpu[i].Export(b)
		if !eq(b, []byte(knownCsidh[i][1])) {
			return fmt.Sprintf("CSIDH public key %d", i)
		}
	}
	return ""
}

// switchRng lets an object that keeps its source use another one per operation.
type switchRng struct{ r io.Reader }

func (s *switchRng) Read(b []byte) (int, error) { return s.r.Read(b) }

type guardBuf struct {
	what string
	all  []byte
	want []byte
	lo   int // [lo,hi) may be written
	hi   int
}

// isoT is one task's world.
type isoT struct {
	s     *Sim
	sh    *isoKeys // shared keys, nil: private copies
	guard bool     // guarded buffers, scribbled after use
	t     *Task
	rnd   *Rng                      // sizes of guards
	wrap  func(io.Reader) io.Reader // X05: what the random source does besides

	hs   [4]*hobj
	g    [2]*drbg.CtrDrbg
	prv  [3][3]*sidh.PrivateKey
	pubs [3][3]*sidh.PublicKey
	kem  [2][3]kemI
	krng [2][3]*switchRng
	ct   [2][3][]byte
	mk   [3]*mkem.MultiKEM
	mrng [3]*switchRng
	mct  [3][][]byte
	pke  *pslot
	pct  [][2][64]byte
	cpr  *csidh.PrivateKey
	cpu  *csidh.PublicKey

	bufs  []guardBuf
	old   []guardBuf // buffers of earlier calls, already overwritten
	kept  []guardBuf // results that belong to the caller
	after []func()
	log   []string
}

// in hands out an input buffer.
func (x *isoT) in(what string, b []byte) []byte {
	if !x.guard {
		return clone(b)
	}
	n := 1 + x.rnd.N(24)
	all := make([]byte, n+len(b)+n)
	for i := range all {
		all[i] = byte(0xc0 + i%7)
	}
	copy(all[n:], b)
	x.bufs = append(x.bufs, guardBuf{what, all, clone(all), 0, 0})
	if x.rnd.N(2) == 0 { // spare capacity behind the input
		return all[n : n+len(b)]
	}
	return all[n : n+len(b) : n+len(b)]
}

// out hands out an output buffer for n bytes; more makes it longer than needed.
func (x *isoT) out(what string, n int, more bool) []byte {
	if !x.guard {
		return pattern(n, n)
	}
	g := 1 + x.rnd.N(24)
	e := 0
	if more && x.rnd.N(2) == 0 {
		e = 1 + x.rnd.N(40)
	}
	all := make([]byte, g+n+e+g)
	for i := range all {
		all[i] = byte(0x30 + i%11)
	}
	x.bufs = append(x.bufs, guardBuf{what, all, clone(all), g, g + n})
	if x.rnd.N(2) == 0 {
		return all[g : g+n+e]
	}
	return all[g : g+n+e : g+n+e]
}

// flush checks and then overwrites every buffer of the operation.
func (x *isoT) flush(op string) {
	for _, b := range x.bufs {
		for i := range b.all {
			if b.all[i] != b.want[i] && (i < b.lo || i >= b.hi) {
				if b.hi == 0 {
					x.t.Fail("input-changed", "%s changed its input %s (or the memory around it) at offset %d", op, b.what, i)
				}
				x.t.Fail("overrun", "%s wrote outside the documented %d bytes of its output %s, at offset %d", op, b.hi-b.lo, b.what, i-b.lo)
			}
		}
		for i := range b.all {
			b.all[i] ^= byte(0x55 + i)
		}
		b.want = clone(b.all)
		x.old = append(x.old, b)
		x.s.St.Probes["buffers-checked"]++
	}
	x.bufs = x.bufs[:0]
	for _, b := range x.old {
		if !eq(b.all, b.want) {
			x.t.Fail("written-later", "%s wrote into the %s buffer of an earlier call", op, b.what)
		}
	}
	if n := len(x.old); n > 24 {
		x.old = append(x.old[:0], x.old[n-24:]...)
	}
	x.keptCheck(op)
	for _, f := range x.after {
		f()
	}
	x.after = x.after[:0]
}

// keep remembers a slice a call returned: it is the caller's from then on.
func (x *isoT) keep(what string, b []byte) []byte {
	if len(b) > 0 {
		x.kept = append(x.kept, guardBuf{what: what, all: b, want: clone(b)})
	}
	return b
}

func (x *isoT) keptCheck(op string) {
	for _, b := range x.kept {
		if !eq(b.all, b.want) {
			x.t.Fail("result-changed", "the result of an earlier %s (%s) became %s, noticed after %s", b.what, hexs(b.want), hexs(b.all), op)
		}
	}
	if n := len(x.kept); n > 24 {
		x.kept = append(x.kept[:0], x.kept[n-24:]...)
	}
}

func (x *isoT) pub(f, v int) *sidh.PublicKey {
	if x.sh != nil {
		return x.sh.pub[f][v]
	}
	k := impPub(f, v, []byte(known(f, v, 0).Pub))
	if x.guard {
		x.after = append(x.after, func() {
			if !eq(expPub(k), []byte(known(f, v, 0).Pub)) {
				x.t.Fail("key-changed", "an operation changed the %s public key (variant %d) it was given", fieldName[f], v)
			}
			k.Import([]byte(known(f, v, 1).Pub))
		})
	}
	return k
}

func (x *isoT) priv(f, v int) *sidh.PrivateKey {
	if x.sh != nil {
		return x.sh.prv[f][v]
	}
	k := impPrv(f, v, []byte(known(f, v, 0).Prv))
	if x.guard {
		x.after = append(x.after, func() {
			if !eq(expPrv(k), []byte(known(f, v, 0).Prv)) {
				x.t.Fail("key-changed", "an operation changed the %s private key (variant %d) it was given", fieldName[f], v)
			}
			k.Import([]byte(known(f, v, 1).Prv))
		})
	}
	return k
}

func (x *isoT) cpriv(i int) *csidh.PrivateKey {
	if x.sh != nil {
		return x.sh.cpr[i]
	}
	k := new(csidh.PrivateKey)
	k.Import([]byte(knownCsidh[i][0]))
	if x.guard {
		x.after = append(x.after, func() {
			b := make([]byte, 37)
			k.Export(b)
			if !eq(b, []byte(knownCsidh[i][0])) {
				x.t.Fail("key-changed", "an operation changed the CSIDH private key it was given")
			}
			k.Import([]byte(knownCsidh[(i+1)%5][0]))
		})
	}
	return k
}

func (x *isoT) cpub(i int) *csidh.PublicKey {
	if x.sh != nil {
		return x.sh.cpu[i]
	}
	k := new(csidh.PublicKey)
	k.Import([]byte(knownCsidh[i][1]))
	if x.guard {
		x.after = append(x.after, func() {
			b := make([]byte, 64)
			k.Export(b)
			if !eq(b, []byte(knownCsidh[i][1])) {
				x.t.Fail("key-changed", "an operation changed the CSIDH public key it was given")
			}
			k.Import([]byte(knownCsidh[(i+1)%5][1]))
		})
	}
	return k
}

// step runs one operation and returns its transcript.
func (x *isoT) step(op *Op) (r string) {
	x.s.St.Ops["iso-"+op.K]++
	pv := x.t.Op(func() { r = x.do(op) })
	if pv != nil {
		if _, ok := pv.(EntropyPanic); ok {
			r = "source panicked"
		} else {
			r = "panic"
		}
	}
	x.flush(op.K)
	r = op.K + " " + r
	x.log = append(x.log, r)
	return r
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// pubBytes exports a public key through a guarded buffer.
func (x *isoT) pubBytes(k *sidh.PublicKey) []byte {
	n := k.Size()
	b := x.out("PublicKey.Export", n, true)
	k.Export(b)
	return clone(b[:n])
}

func (x *isoT) prvBytes(k *sidh.PrivateKey) []byte {
	n := k.Size()
	b := x.out("PrivateKey.Export", n, true)
	k.Export(b)
	return clone(b[:n])
}

func (x *isoT) do(op *Op) string {
	a := func(i int) int { return abs(op.Arg(i)) }
	var rng io.Reader = nil
	if op.E != nil {
		rng = x.s.NewEntropy(op.E)
		if x.wrap != nil {
			rng = x.wrap(rng)
		}
	}
	f, v := a(0)%3, a(1)%3
	switch op.K {
	case "h.new":
		alg := a(1) % models.NAlg
		N, S := x.in("N", in(a(3), 0, a(2))), x.in("S", in(a(5), 0, a(4)))
		if alg == models.CSHAKE128 || alg == models.CSHAKE256 {
			o := &hobj{alg: alg}
			if alg == models.CSHAKE128 {
				o.x = sha3.NewCShake128(N, S)
			} else {
				o.x = sha3.NewCShake256(N, S)
			}
			x.hs[a(0)%4] = o
		} else {
			x.hs[a(0)%4] = newHobj(alg, nil, nil)
		}
		return models.AlgName[alg]
	case "h.one":
		m := x.in("data", in(a(1), a(2)%6, a(3)))
		out := x.out("hash", a(4), false)
		if a(0)%2 == 0 {
			sha3.ShakeSum128(out, m)
		} else {
			sha3.ShakeSum256(out, m)
		}
		return hexs(Digest(out))
	case "h.w", "h.sum", "h.rd", "h.reset", "h.clone":
		o := x.hs[a(0)%4]
		if o == nil {
			return "-"
		}
		switch op.K {
		case "h.w":
			n, err := o.w().Write(x.in("data", in(a(1), a(2)%6, a(3))))
			return fmt.Sprint(n, errs(err))
		case "h.sum":
			if o.h == nil {
				return "-"
			}
			p := in(a(1), 0, a(2))
			n := o.h.Size()
			var pre []byte
			room := false
			if x.guard && a(3)%3 > 0 && len(p) > 0 {
				// room for the digest behind the prefix
				g := x.out("Sum", len(p)+n, true)
				copy(g, p)
				x.bufs[len(x.bufs)-1].want = clone(x.bufs[len(x.bufs)-1].all)
				x.bufs[len(x.bufs)-1].lo += len(p)
				pre = g[:len(p)]
				room = true
			} else {
				pre = x.in("prefix", p)
				if len(p) > 0 {
					pre = pre[:len(p):len(p)]
				} else {
					pre = nil
				}
			}
			d := o.h.Sum(pre)
			if !room {
				x.keep("Sum", d)
			}
			return hexs(Digest(d))
		case "h.rd":
			if o.x == nil {
				return "-"
			}
			b := x.out("Read", a(1), false)
			n, err := o.x.Read(b)
			return fmt.Sprint(n, errs(err), hexs(Digest(b)))
		case "h.reset":
			if o.h != nil {
				o.h.Reset()
			} else {
				o.x.Reset()
			}
			return "ok"
		case "h.clone":
			if o.x == nil {
				return "-"
			}
			x.hs[a(1)%4] = &hobj{alg: o.alg, x: o.x.Clone()}
			return "ok"
		}
	case "g.new":
		x.g[a(0)%2] = drbg.NewCtrDrbg()
		ok := x.g[a(0)%2].Init(x.in("entropy", in(a(1), 0, 48+a(2))), x.in("personalization", in(a(3), a(4)%6, a(5))))
		return fmt.Sprint(ok)
	case "g.edge":
		// an instance whose counter is about to carry
		var m models.CTR
		v := Fill(uint64(a(1)), 0, 16)
		nb := 1 + a(2)%16
		for i := 16 - nb; i < 16; i++ {
			v[i] = 0xff
		}
		v[15] -= byte(a(3) % 8)
		ent := m.SeedFor(Fill(uint64(a(1))+1<<32, 0, 32), v)
		if x.g[a(0)%2] == nil {
			x.g[a(0)%2] = drbg.NewCtrDrbg()
		}
		g := x.g[a(0)%2]
		ok := g.Init(x.in("entropy", ent), nil)
		b := x.out("output", a(4), false)
		n, err := g.Read(b)
		return fmt.Sprint(ok, n, errs(err), hexs(Digest(b)))
	case "g.init", "g.gen", "g.read", "g.reseed":
		g := x.g[a(0)%2]
		if g == nil {
			return "-"
		}
		switch op.K {
		case "g.init":
			return fmt.Sprint(g.Init(x.in("entropy", in(a(1), 0, 48+a(2))), x.in("personalization", in(a(3), a(4)%6, a(5)))))
		case "g.gen":
			b := x.out("output", a(1), false)
			n, err := g.ReadWithAdditionalData(b, x.in("additional data", in(a(2), a(3)%6, a(4))))
			return fmt.Sprint(n, errs(err), hexs(Digest(b)))
		case "g.read":
			b := x.out("output", a(1), false)
			n, err := g.Read(b)
			return fmt.Sprint(n, errs(err), hexs(Digest(b)))
		case "g.reseed":
			g.Reseed(x.in("entropy", in(a(1), 0, 48)), x.in("additional data", in(a(2), a(3)%6, a(4))))
			return "ok"
		}
	case "s.gen":
		k := x.prv[f][v]
		if k == nil {
			k = sidh.NewPrivateKey(fields[f], variants[v])
			x.prv[f][v] = k
		}
		err := k.Generate(rng)
		if err != nil {
			return "error"
		}
		return hexs(Digest(x.prvBytes(k)))
	case "s.pub":
		k := x.prv[f][v]
		if k == nil || a(2)%3 == 0 {
			k = x.priv(f, v)
		}
		p := x.pubs[f][v]
		if p == nil || a(3)%2 == 0 {
			p = sidh.NewPublicKey(fields[f], variants[v])
			x.pubs[f][v] = p
		}
		before := x.keySnap(k)
		k.GeneratePublicKey(p)
		x.keyCheck("GeneratePublicKey", k, before)
		return hexs(Digest(x.pubBytes(p)))
	case "s.der":
		v %= 2
		k := x.prv[f][v]
		if k == nil || a(2)%2 == 0 {
			k = x.priv(f, v)
		}
		p := x.pubs[f][1-v]
		if p == nil || a(3)%2 == 0 {
			p = x.pub(f, 1-v)
		}
		before := x.keySnap(k)
		ss := x.out("shared secret", k.SharedSecretSize(), true)
		k.DeriveSecret(ss, p)
		x.keyCheck("DeriveSecret", k, before)
		return hexs(Digest(ss[:k.SharedSecretSize()]))
	case "s.imp":
		kk := known(f, v, a(2))
		if a(3)%2 == 0 {
			k := x.pubs[f][v]
			if k == nil {
				k = sidh.NewPublicKey(fields[f], variants[v])
				x.pubs[f][v] = k
			}
			b := []byte(kk.Pub)
			if a(4)%4 == 0 {
				b = b[:len(b)-1-a(4)%7]
			}
			err := k.Import(x.in("key", b))
			return errs(err) + hexs(Digest(x.pubBytes(k)))
		}
		k := x.prv[f][v]
		if k == nil {
			k = sidh.NewPrivateKey(fields[f], variants[v])
			x.prv[f][v] = k
		}
		b := []byte(kk.Prv)
		if a(4)%4 == 0 {
			b = append(clone(b), 1, 2)
		}
		err := k.Import(x.in("key", b))
		return errs(err) + hexs(Digest(x.prvBytes(k)))
	case "s.hos":
		// whatever a peer may send: coordinates at and beyond the edges of the field
		v %= 2
		p := x.pubs[f][1-v]
		if p == nil {
			p = sidh.NewPublicKey(fields[f], variants[1-v])
			x.pubs[f][1-v] = p
		}
		if err := p.Import(x.in("key", hostileSidh(f, []byte(known(f, 1-v, 0).Pub), a(2), uint64(a(3))))); err != nil {
			return "error"
		}
		r := hexs(Digest(x.pubBytes(p)))
		k := sidh.NewPrivateKey(fields[f], variants[v])
		kb := []byte(known(f, v, 0).Prv)
		if a(4)%3 == 0 {
			kb = hostileScalar(len(kb), a(4), uint64(a(3)))
		}
		k.Import(x.in("key", kb))
		ss := x.out("shared secret", k.SharedSecretSize(), true)
		k.DeriveSecret(ss, p)
		r += hexs(Digest(ss[:k.SharedSecretSize()]))
		return r
	case "s.hsc":
		k := sidh.NewPrivateKey(fields[f], variants[v])
		k.Import(x.in("key", hostileScalar(k.Size(), a(2), uint64(a(3)))))
		p := sidh.NewPublicKey(fields[f], variants[v])
		k.GeneratePublicKey(p)
		return hexs(Digest(x.pubBytes(p)))
	case "k.hos":
		pk := a(1) % 2
		c := x.kemOf(pk, f, a(2), rng)
		ct := []byte(known(f, 2, 0).Ct)
		n := len(known(f, 0, 0).Pub)
		ct = append(hostileSidh(f, ct[:n], a(3), uint64(a(4))), ct[n:]...)
		ss := x.out("secret", c.SharedSecretSize(), true)
		if err := c.Decapsulate(ss, x.priv(f, 2), x.pub(f, 2), x.in("ciphertext", ct)); err != nil {
			return "error"
		}
		return hexs(Digest(ss[:c.SharedSecretSize()]))
	case "s.exp":
		r := ""
		if k := x.prv[f][v]; k != nil {
			r += hexs(Digest(x.prvBytes(k)))
		}
		if k := x.pubs[f][v]; k != nil {
			r += hexs(Digest(x.pubBytes(k)))
		}
		return r
	case "k.enc":
		pk := a(1) % 2
		c := x.kemOf(pk, f, a(2), rng)
		ct, ss := x.out("ciphertext", c.CiphertextSize(), true), x.out("secret", c.SharedSecretSize(), true)
		err := c.Encapsulate(ct, ss, x.pub(f, 2))
		if err != nil {
			return "error"
		}
		ct, ss = clone(ct[:c.CiphertextSize()]), clone(ss[:c.SharedSecretSize()])
		x.ct[pk][f] = ct
		if a(3)%4 == 0 {
			c.Reset()
		}
		return hexs(Digest(ct)) + hexs(Digest(ss))
	case "k.dec":
		pk := a(1) % 2
		c := x.kemOf(pk, f, a(2), rng)
		ct := x.ct[pk][f]
		if ct == nil || a(3)%3 == 0 {
			ct = []byte(known(f, 2, 0).Ct)
		}
		ct = clone(ct)
		if a(4)%3 == 0 {
			ct[a(5)%len(ct)] ^= 1 << uint(a(4)%8)
		}
		ss := x.out("secret", c.SharedSecretSize(), true)
		err := c.Decapsulate(ss, x.priv(f, 2), x.pub(f, 2), x.in("ciphertext", ct))
		if err != nil {
			return "error"
		}
		return hexs(Digest(ss[:c.SharedSecretSize()]))
	case "m.enc":
		u := x.mk[f]
		if u == nil {
			x.mrng[f] = &switchRng{}
			u = new(mkem.MultiKEM)
			u.Allocate(fields[f], 3, x.mrng[f])
			x.mk[f] = u
		}
		x.mrng[f].r = rng
		n := 1 + a(1)%3
		pubs := make([]*sidh.PublicKey, n)
		for i := range pubs {
			pubs[i] = x.pub(f, 2)
		}
		keep := append([]*sidh.PublicKey(nil), pubs...)
		ss := x.out("secret", u.SharedSecretSize(), true)
		err := u.Encapsulate(ss, pubs)
		for i := range pubs {
			if pubs[i] != keep[i] && x.guard {
				x.t.Fail("input-changed", "MultiKEM.Encapsulate changed the list of keys it was given")
			}
			pubs[i] = nil
		}
		if err != nil {
			return "error"
		}
		r := clone(ss[:u.SharedSecretSize()])
		x.mct[f] = nil
		for i := 0; i < n; i++ {
			x.mct[f] = append(x.mct[f], clone(mkEntry(u, i)[:u.SharedSecretSize()]))
		}
		ct0 := clone(mkCt0(u)[:common.Params(fields[f]).PublicKeySize])
		if a(2)%4 == 0 {
			u.Reset()
		}
		return hexs(Digest(r)) + hexs(Digest(ct0)) + hexs(Digest(bytes.Join(x.mct[f], nil)))
	case "m.dec":
		u := x.mk[f]
		if u == nil || len(x.mct[f]) == 0 {
			return "-"
		}
		x.mrng[f].r = plainRng()
		e := clone(x.mct[f][a(1)%len(x.mct[f])])
		if a(2)%3 == 0 {
			e[a(2)%len(e)] ^= 4
		}
		ss := x.out("secret", u.SharedSecretSize(), true)
		err := u.Decapsulate(ss, x.priv(f, 2), x.pub(f, 2), x.in("entry", e))
		if err != nil {
			return "error"
		}
		return hexs(Digest(ss[:u.SharedSecretSize()]))
	case "p.enc", "p.menc":
		if x.pke == nil {
			x.pke = newPslot(1, 3, a(4))
		}
		q := x.pke
		var pt [16]byte
		copy(pt[:], in(a(1), a(2)%6, 16))
		keep := pt
		x.pct = x.pct[:0]
		if op.K == "p.enc" {
			ct := q.p.Enc(x.cpub(a(0)%5), &pt)
			x.pct = append(x.pct, [2][64]byte{ct.U, ct.V})
		} else {
			n := 1 + a(3)%2
			pks := make([]csidh.PublicKey, n)
			for i := range pks {
				pks[i] = *x.cpub((a(0) + i) % 5)
			}
			q.m.Encrypt(pks, &pt)
			for i := range pks {
				b := make([]byte, 64)
				pks[i].Export(b)
				if x.guard && !eq(b, []byte(knownCsidh[(a(0)+i)%5][1])) {
					x.t.Fail("key-changed", "MultiPKE.Encrypt changed the key of recipient %d", i)
				}
				pks[i].Import([]byte(knownCsidh[(a(0)+i+1)%5][1]))
				x.pct = append(x.pct, [2][64]byte{q.m.Ct0, q.m.Cts[i]})
			}
		}
		if pt != keep && x.guard {
			x.t.Fail("input-changed", "%s changed the plaintext it was given", op.K)
		}
		pt = [16]byte{1, 2, 3}
		r := ""
		for i := range x.pct {
			r += hexs(Digest(append(x.pct[i][0][:], x.pct[i][1][:]...)))
		}
		return r
	case "p.dec":
		if x.pke == nil || len(x.pct) == 0 {
			return "-"
		}
		c := x.pct[a(1)%len(x.pct)]
		ct := pkeCt(x.pke.p.Enc)
		ct.U, ct.V = c[0], c[1]
		pt := x.pke.p.Dec(x.cpriv(a(0)%5), &ct)
		if x.guard && (ct.U != c[0] || ct.V != c[1]) {
			x.t.Fail("input-changed", "PKE.Dec changed the ciphertext it was given")
		}
		return hexs(pt[:])
	case "c.gen":
		if x.cpr == nil {
			x.cpr = new(csidh.PrivateKey)
		}
		if err := csidh.GeneratePrivateKey(x.cpr, rng); err != nil {
			return "error"
		}
		b := x.out("Export", 37, false)
		ok := x.cpr.Export(b)
		return fmt.Sprint(ok) + hexs(Digest(b))
	case "c.imp":
		if a(0)%2 == 0 {
			if x.cpr == nil {
				x.cpr = new(csidh.PrivateKey)
			}
			ok := x.cpr.Import(x.in("key", []byte(knownCsidh[a(1)%5][0])[:37-a(2)%2]))
			b := x.out("Export", 37, false)
			return fmt.Sprint(ok, x.cpr.Export(b)) + hexs(Digest(b))
		}
		if x.cpu == nil {
			x.cpu = new(csidh.PublicKey)
		}
		ok := x.cpu.Import(x.in("key", []byte(knownCsidh[a(1)%5][1])[:64-a(2)%2]))
		b := x.out("Export", 64, false)
		return fmt.Sprint(ok, x.cpu.Export(b)) + hexs(Digest(b))
	case "c.pub":
		k := x.cpriv(a(0) % 5)
		if x.cpr != nil && a(1)%8 == 0 {
			k = x.cpr
		}
		if x.cpu == nil {
			x.cpu = new(csidh.PublicKey)
		}
		csidh.GeneratePublicKey(x.cpu, k, rng)
		b := x.out("Export", 64, false)
		ok := x.cpu.Export(b)
		return fmt.Sprint(ok) + hexs(Digest(b))
	case "c.der":
		p := x.cpub(a(1) % 5)
		if x.cpu != nil && a(2)%2 == 0 {
			p = x.cpu
		}
		var all [96]byte
		for i := range all {
			all[i] = byte(i * 3)
		}
		out := (*[64]byte)(all[16:80])
		ok := csidh.DeriveSecret(out, p, x.cpriv(a(0)%5), rng)
		for i := range all {
			if x.guard && (i < 16 || i >= 80) && all[i] != byte(i*3) {
				x.t.Fail("overrun", "csidh.DeriveSecret wrote outside its output")
			}
		}
		if !ok {
			return "refused"
		}
		return hexs(Digest(out[:]))
	case "c.hos":
		// a peer's key of any kind, and a key pair with few but extreme exponents
		var k csidh.PrivateKey
		kb := make([]byte, 37)
		q := NewRng(uint64(a(2)))
		for i := 0; i < 1+a(3)%4; i++ {
			kb[q.N(37)] = byte(q.N(256))
		}
		k.Import(x.in("key", kb))
		enc, _, _ := hostile([]byte(knownCsidh[a(0)%5][1]), a(1), uint64(a(2)))
		var p csidh.PublicKey
		p.Import(x.in("key", enc))
		var ss [64]byte
		ok := csidh.DeriveSecret(&ss, &p, &k, rng)
		return fmt.Sprint(ok) + hexs(Digest(ss[:]))
	case "c.val":
		enc, _, _ := hostile([]byte(knownCsidh[a(0)%5][1]), a(1), uint64(a(2)))
		if x.cpu == nil {
			x.cpu = new(csidh.PublicKey)
		}
		x.cpu.Import(x.in("key", enc))
		ok := csidh.Validate(x.cpu, rng)
		b := x.out("Export", 64, false)
		x.cpu.Export(b)
		if x.guard && !eq(b, enc) {
			x.t.Fail("key-changed", "csidh.Validate changed the key it was given")
		}
		return fmt.Sprint(ok)
	}
	return ""
}

// keySnap and keyCheck guard a private key of the task itself.
func (x *isoT) keySnap(k *sidh.PrivateKey) []byte {
	if !x.guard {
		return nil
	}
	return expPrv(k)
}

func (x *isoT) keyCheck(what string, k *sidh.PrivateKey, b []byte) {
	if x.guard && !eq(expPrv(k), b) {
		x.t.Fail("key-changed", "%s changed the private key it was given", what)
	}
}

func (x *isoT) kemOf(pk, f, ctor int, rng io.Reader) kemI {
	if x.kem[pk][f] == nil {
		x.krng[pk][f] = &switchRng{plainRng()}
		x.kem[pk][f] = newKEM(pk, ctor%2, f, x.krng[pk][f])
	}
	if rng != nil {
		x.krng[pk][f].r = rng
	}
	return x.kem[pk][f]
}

// genIsoOps draws a program. class: 0 hashes and generators, 1 key handling and
// cheap operations, 2 SIDH and SIKE, 3 multi-recipient, 4 CSIDH.
func genIsoOps(r *Rng, class, n, faults, hos int) []Op {
	var ops []Op
	f := r.N(3)
	ent := func() *EntPlan {
		if r.Chance(faults) {
			return genEntFaulty(r, 100)
		}
		return GenEnt(r)
	}
	for len(ops) < n {
		if r.Chance(25) {
			f = r.N(3)
		}
		c := class
		if r.Chance(15) {
			c = r.N(2)
		}
		switch c {
		case 0:
			sl := r.N(4)
			if len(ops) == 0 || r.Chance(15) {
				ops = append(ops, Op{K: "h.new", I: []int{sl, r.N(models.NAlg), r.Log(180), r.N(1000), r.Log(180), r.N(1000)}})
			}
			switch r.Pick(6, 3, 3, 1, 2, 2, 1, 1, 3, 2, 2, 2) {
			case 0:
				sd, k := genData(r)
				ops = append(ops, Op{K: "h.w", I: []int{sl, sd, k, genLen(r, 136, 0, 1000)}})
			case 1:
				ops = append(ops, Op{K: "h.sum", I: []int{sl, r.N(1000), r.Log(60), r.N(9)}})
			case 2:
				ops = append(ops, Op{K: "h.rd", I: []int{sl, genLen(r, 136, 0, 600)}})
			case 3:
				ops = append(ops, Op{K: "h.reset", I: []int{sl}})
			case 4:
				ops = append(ops, Op{K: "h.clone", I: []int{sl, r.N(4)}})
			case 5:
				sd, k := genData(r)
				ops = append(ops, Op{K: "h.one", I: []int{r.N(2), sd, k, genLen(r, 168, 0, 600), genLen(r, 168, 0, 600)}})
			case 6:
				ops = append(ops, Op{K: "g.new", I: []int{r.N(2), r.N(1 << 20), r.Pick(3, 1) * r.Log(40), r.N(1 << 20), r.N(6), r.Log(48)}})
			case 7:
				ops = append(ops, Op{K: "g.init", I: []int{r.N(2), r.N(1 << 20), r.Pick(3, 1) * r.Log(40), r.N(1 << 20), r.N(6), r.Log(48)}})
			case 8:
				ops = append(ops, Op{K: "g.gen", I: []int{r.N(2), genBulk(r), r.N(1 << 20), r.N(6), r.Pick(1, 1) * r.Log(48)}})
			case 9:
				ops = append(ops, Op{K: "g.read", I: []int{r.N(2), genBulk(r)}})
			case 11:
				ops = append(ops, Op{K: "g.edge", I: []int{r.N(2), r.N(1 << 20), r.N(16), r.N(8), genBulk(r)}})
			case 10:
				ops = append(ops, Op{K: "g.reseed", I: []int{r.N(2), r.N(1 << 20), r.N(1 << 20), r.N(6), r.Pick(1, 1) * r.Log(48)}})
			}
		case 1:
			switch r.Pick(4, 4, 3, 3, 3, 2) {
			case 0:
				ops = append(ops, Op{K: "s.gen", I: []int{f, r.N(3)}, E: ent()})
			case 1:
				ops = append(ops, Op{K: "s.imp", I: []int{f, r.N(3), r.N(3), r.N(2), r.N(64)}})
			case 2:
				ops = append(ops, Op{K: "s.exp", I: []int{f, r.N(3)}})
			case 3:
				ops = append(ops, Op{K: "c.gen", E: ent()})
			case 4:
				ops = append(ops, Op{K: "c.imp", I: []int{r.N(2), r.N(5), r.Pick(3, 1)}})
			case 5:
				k := []int{1, 2, 3, 4, 5, 6}[r.N(6)]
				ops = append(ops, Op{K: "c.val", I: []int{r.N(5), k, r.N(1 << 20)}, E: ent()})
			}
		case 2:
			v := r.N(3)
			switch r.Pick(4, 8, 8, 6, 8, 2, hos, hos, hos) {
			case 0:
				ops = append(ops, Op{K: "s.gen", I: []int{f, v}, E: ent()})
			case 1:
				ops = append(ops, Op{K: "s.pub", I: []int{f, v, r.N(9), r.N(9)}})
			case 2:
				ops = append(ops, Op{K: "s.der", I: []int{f, v, r.N(9), r.N(9)}})
			case 3:
				ops = append(ops, Op{K: "k.enc", I: []int{f, r.N(2), r.N(2), r.N(9)}, E: ent()})
			case 4:
				ops = append(ops, Op{K: "k.dec", I: []int{f, r.N(2), r.N(2), r.N(9), r.N(64), r.N(1000)}})
			case 6:
				ops = append(ops, Op{K: "s.hos", I: []int{f, r.N(2), r.N(1 << 20), r.N(1 << 20), r.N(60)}})
			case 7:
				ops = append(ops, Op{K: "s.hsc", I: []int{f, v, r.N(60), r.N(1 << 20)}})
			case 8:
				ops = append(ops, Op{K: "k.hos", I: []int{f, r.N(2), r.N(2), r.N(1 << 20), r.N(1 << 20)}})
			case 5:
				ops = append(ops, Op{K: "s.imp", I: []int{f, v, r.N(3), r.N(2), r.N(64)}})
			}
		case 3:
			switch r.Pick(2, 3) {
			case 0:
				ops = append(ops, Op{K: "m.enc", I: []int{f, r.N(3), r.N(16)}, E: ent()})
			case 1:
				ops = append(ops, Op{K: "m.dec", I: []int{f, r.N(3), r.N(64)}})
			}
		case 4:
			switch r.Pick(6, 8, 4, 4, 4, hos) {
			case 0:
				ops = append(ops, Op{K: "c.pub", I: []int{r.N(5), r.N(32)}, E: GenEnt(r)})
			case 1:
				ops = append(ops, Op{K: "c.der", I: []int{r.N(5), r.N(5), r.N(9)}, E: ent()})
			case 2:
				ops = append(ops, Op{K: []string{"p.enc", "p.menc"}[r.Pick(3, 1)], I: []int{r.N(5), r.N(1 << 20), r.N(6), r.N(4), r.N(1000)}})
			case 3:
				ops = append(ops, Op{K: "p.dec", I: []int{r.N(5), r.N(3)}})
			case 5:
				ops = append(ops, Op{K: "c.hos", I: []int{r.N(5), r.N(24), r.N(1 << 20), r.N(4)}, E: GenEnt(r)})
			case 4:
				ops = append(ops, Op{K: "c.val", I: []int{r.N(5), r.N(24), r.N(1 << 20)}, E: ent()})
			}
		}
	}
	return ops
}

// genBulk is a request size, now and then long enough for any bulk path.
func genBulk(r *Rng) int {
	if r.Chance(4) {
		return r.Log(70000)
	}
	return r.Log(300)
}

var sidhPrimes [3]*big.Int

// hostileSidh replaces some of the six coordinates of an encoded public key.
func hostileSidh(f int, pub []byte, mode int, seed uint64) []byte {
	if sidhPrimes[0] == nil {
		for i, e := range [3][2]int64{{250, 159}, {372, 239}, {216, 137}} {
			p := new(big.Int).Exp(big.NewInt(3), big.NewInt(e[1]), nil)
			p.Lsh(p, uint(e[0]))
			sidhPrimes[i] = p.Sub(p, big.NewInt(1))
		}
	}
	id := int(fields[f])
	p := sidhPrimes[id]
	n := common.Params(fields[f]).Bytelen
	r := NewRng(seed)
	out := clone(pub)
	which := mode % 7 // one coordinate, or all
	for c := 0; c < 6; c++ {
		if which < 6 && c != which {
			continue
		}
		var x *big.Int
		b := out[c*n : (c+1)*n]
		old := new(big.Int)
		for i := n - 1; i >= 0; i-- {
			old.Lsh(old, 8)
			old.Or(old, big.NewInt(int64(b[i])))
		}
		d := big.NewInt(int64(r.N(3)))
		switch r.N(10) {
		case 0:
			x = d
		case 1:
			x = new(big.Int).Sub(p, d)
		case 2:
			x = new(big.Int).Add(p, d)
		case 3:
			x = new(big.Int).Sub(new(big.Int).Lsh(p, 1), d)
		case 4:
			x = new(big.Int).Add(new(big.Int).Lsh(p, 1), d)
		case 5: // the same residue, not reduced
			x = new(big.Int).Add(old, p)
		case 6:
			x = new(big.Int).Lsh(big.NewInt(1), uint(r.N(n*8)))
		case 7:
			x = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n*8)), big.NewInt(1))
		case 8:
			x = new(big.Int).SetBytes(Fill(seed+uint64(c), 0, n))
		case 9:
			x = new(big.Int).Sub(p, old)
		}
		for i := range b {
			b[i] = 0
		}
		for i, w := range x.Bytes() {
			if k := len(x.Bytes()) - 1 - i; k < n {
				b[k] = w
			}
		}
	}
	return out
}

// hostileScalar is a private key nobody would generate.
func hostileScalar(n, mode int, seed uint64) []byte {
	b := make([]byte, n)
	switch mode % 5 {
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		b[int(seed%uint64(n))] = 1 << uint(seed%8)
	case 3:
		copy(b, Fill(seed, 0, n))
	case 4:
		copy(b, Fill(seed, 0, n/2))
	}
	return b
}

var isoPools = [][]string{
	{"hash/", "drbg"},
	{"dh/sidh.", "dh/sidh/common", "dh/csidh.PrivateKey", "dh/csidh.PublicKey", "dh/csidh.Gen", "dh/csidh.Validate", "dh/csidh.fpRngGen", "dh/csidh.is"},
	{"dh/sidh", "kem/mkem.KEM", "hash/sha3"},
	{"dh/sidh", "kem/mkem", "hash/sha3"},
	{"dh/csidh", "kem/mkem", "drbg", "hash/sha3"},
}

var isoGap = []int{3000, 1000, 60000, 60000, 400000}

// ---------------------------------------------------------------- X01

func genX01(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "iso", Nodes: []NodePlan{{Off: GenOff(r)}}}
	class := []int{0, 2, 0, 1, 0, 2, 1, 3, 0, 4}[r.N(10)]
	nt := 2 + r.N(2)
	if class < 2 {
		nt = 2 + r.N(4)
	}
	pool := fnPool(isoPools[class]...)
	for t := 0; t < nt; t++ {
		c := class
		if r.Chance(15) {
			c = r.N(2)
		}
		n := 3 + r.N(12)
		if c == 1 {
			n = 2 + r.N(8)
		}
		if c > 1 {
			n = 1 + r.N(3)
		}
		ops := genIsoOps(r, c, n, 12, 1)
		if c == 2 && r.Chance(30) {
			// an operation that fails before it computes anything
			e := GenEnt(r)
			e.Fault = []EntFault{{At: r.N(16), Kind: entKinds[r.N(len(entKinds))]}}
			ops = append([]Op{{K: "k.enc", I: []int{op0(ops), r.N(2), r.N(2), r.N(9)}, E: e}}, ops...)
		}
		pl.Tasks = append(pl.Tasks, TaskPlan{Ops: ops})
	}
	if i%4 == 3 {
		genTwins(r, pl, class, pool)
		return pl
	}
	genSched(r, pl, isoGap[class], 40, pool, true)
	return pl
}

// genTwins makes every task do the same kind of operation with other data, and
// keeps switching, so that the same function is under way in all of them.
func genTwins(r *Rng, pl *Plan, class int, pool []string) {
	n := 1 + r.N(2)
	if class < 2 {
		n = 3 + r.N(8)
	}
	ops := genIsoOps(r, class, n, 5, 1)
	for t := range pl.Tasks {
		var o []Op
		for _, op := range ops {
			op.I = append([]int(nil), op.I...)
			if op.E != nil {
				op.E = GenEnt(r)
			}
			// other data, same objects and shapes
			switch op.K {
			case "h.w", "h.one", "g.init", "g.gen", "c.der", "c.pub", "p.dec", "p.enc", "p.menc":
				k := map[string]int{"g.gen": 2, "c.der": 1, "c.pub": 0, "p.dec": 0, "p.enc": 1, "p.menc": 1}[op.K]
				if k == 0 && (op.K == "h.w" || op.K == "h.one" || op.K == "g.init") {
					k = 1
				}
				op.I[k] = r.N(1 << 20)
			case "s.pub", "s.der":
				op.I[2], op.I[3] = r.N(9), r.N(9)
			case "k.dec":
				op.I[3], op.I[4], op.I[5] = r.N(9), r.N(64), r.N(1000)
			}
			o = append(o, op)
		}
		if class == 2 {
			// own keys: the same isogeny walk with another kernel
			f, v := op0(ops), r.N(3)
			o = append([]Op{{K: "s.gen", I: []int{f, v}, E: GenEnt(r)}}, o...)
			if r.Chance(30) {
				e := GenEnt(r)
				e.Fault = []EntFault{{At: r.N(16), Kind: entKinds[r.N(len(entKinds))]}}
				o = append([]Op{{K: "k.enc", I: []int{f, r.N(2), r.N(2), 1}, E: e}}, o...)
			}
			o = append(o, Op{K: "s.pub", I: []int{f, v, 1, 0}}, Op{K: "s.der", I: []int{f, v, 1, 0}})
		}
		pl.Tasks[t].Ops = o
	}
	g := isoGap[class]
	for i := 0; i < 60; i++ {
		pl.Pre = append(pl.Pre, Pre{Gap: 1 + r.Log(g), Pick: r.N(4)})
	}
	for i := 0; i < 30; i++ {
		pl.Traps = append(pl.Traps, TrapPlan{Fn: pickFn(r, pool), N: r.Log(60), After: r.Pick(1, 1) * r.Log(60), Pick: r.N(4)})
	}
	for i := 0; i < 40; i++ {
		pl.Picks = append(pl.Picks, r.N(4))
	}
}

// op0 is the field of the first operation that has one.
func op0(ops []Op) int {
	for _, o := range ops {
		if o.K[0] == 's' || o.K[0] == 'k' || o.K[0] == 'm' {
			return o.Arg(0)
		}
	}
	return 0
}

func execX01(s *Sim) {
	sh := newIsoKeys()
	logs := make([][]string, len(s.Plan.Tasks))
	run := func(t *Task) {
		x := &isoT{s: s, sh: sh, t: t}
		me := t.PlanIndex()
		defer func() { logs[me] = x.log }()
		for i := range t.Plan.Ops {
			t.Boundary()
			r := x.step(&t.Plan.Ops[i])
			s.Logf("t%d %s", me, r)
		}
		t.Boundary()
		x.keptCheck("the last operation")
	}
	runTasks(s, run)
	if s.V != nil {
		return
	}
	if k := sh.changed(); k != "" {
		s.Violate("shared-key", k+", which all goroutines only read, changed")
		return
	}
	inter := logs
	logs = make([][]string, len(s.Plan.Tasks))
	full := s.Plan
	solo := *full
	solo.Pre, solo.Traps, solo.Picks, solo.Crash = nil, nil, nil, nil
	s.Plan = &solo
	defer func() { s.Plan = full }()
	for i := range full.Tasks {
		RestoreGlobals()
		sh = newIsoKeys()
		s.Spawn(fmt.Sprintf("solo%d", i), s.Nodes[0], &full.Tasks[i], run)
		s.Run()
		if s.V != nil {
			return
		}
		for j, l := range inter[i] {
			if j >= len(logs[i]) || logs[i][j] != l {
				w := "nothing"
				if j < len(logs[i]) {
					w = logs[i][j]
				}
				s.Violate("interference", fmt.Sprintf("goroutine %d, operation %d: with the others running it gave %q, alone %q", i, j, l, w))
				return
			}
			s.St.Probes["results-compared"]++
		}
	}
}

// ---------------------------------------------------------------- X02

var featSets = [][]int{{FeatAES}, {FeatADX}, {FeatBMI2}, {FeatBMI2, FeatADX}, {FeatAES, FeatBMI2, FeatADX}}

func genX02(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "features"}
	class := []int{0, 2, 0, 1, 2, 4, 0, 3, 1, 2}[r.N(10)]
	n := 2 + r.N(12)
	if class > 1 {
		n = 1 + r.N(2)
	}
	pl.Tasks = []TaskPlan{{Ops: genIsoOps(r, class, n, 8, 6)}}
	return pl
}

func execX02(s *Sim) {
	var first []string
	sets := append([][]int{nil}, featSets...)
	if verifrt.Portable {
		sets = sets[:2]
	}
	for si, off := range sets {
		RestoreGlobals()
		var got []string
		s.Nodes[0].Off = off
		s.Spawn(fmt.Sprintf("set%d", si), s.Nodes[0], &s.Plan.Tasks[0], func(t *Task) {
			x := &isoT{s: s, t: t}
			defer func() { got = x.log }()
			for i := range t.Plan.Ops {
				t.Boundary()
				r := x.step(&t.Plan.Ops[i])
				if si == 0 {
					s.Logf("%s", r)
				}
			}
		})
		s.Run()
		if s.V != nil {
			return
		}
		for _, f := range off {
			s.St.Faults["cpu-without-"+FeatName[f]]++
		}
		if si == 0 {
			first = got
			continue
		}
		for j := range first {
			if j >= len(got) || first[j] != got[j] {
				w := ""
				for _, f := range off {
					w += " " + FeatName[f]
				}
				g := "nothing"
				if j < len(got) {
					g = got[j]
				}
				s.Violate("features", fmt.Sprintf("operation %d gives %q on a full CPU and %q on one without%s", j, first[j], g, w))
				return
			}
			s.St.Probes["results-compared"]++
		}
	}
}

// ---------------------------------------------------------------- X03

func genX03(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "buffers", P: map[string]int{"g": r.N(1 << 30)}, Nodes: []NodePlan{{Off: GenOff(r)}}}
	class := []int{0, 2, 0, 1, 2, 4, 0, 3, 1, 2}[r.N(10)]
	n := 3 + r.N(16)
	if class > 1 {
		n = 1 + r.N(4)
	}
	pl.Tasks = []TaskPlan{{Ops: genIsoOps(r, class, n, 25, 2)}}
	return pl
}

func execX03(s *Sim) {
	var logs [2][]string
	for g := 0; g < 2; g++ {
		RestoreGlobals()
		s.Spawn(fmt.Sprintf("guard%d", g), s.Nodes[0], &s.Plan.Tasks[0], func(t *Task) {
			x := &isoT{s: s, t: t, guard: g == 1, rnd: NewRng(uint64(s.Plan.P["g"]))}
			defer func() { logs[g] = x.log }()
			for i := range t.Plan.Ops {
				t.Boundary()
				r := x.step(&t.Plan.Ops[i])
				if g == 0 {
					s.Logf("%s", r)
				}
			}
		})
		s.Run()
		if s.V != nil {
			return
		}
	}
	for j := range logs[0] {
		if j >= len(logs[1]) || logs[0][j] != logs[1][j] {
			g := "nothing"
			if j < len(logs[1]) {
				g = logs[1][j]
			}
			s.Violate("retained", fmt.Sprintf("operation %d gives %q with buffers and keys left alone, and %q when the caller overwrites buffers and keys of earlier calls and passes longer output buffers", j, logs[0][j], g))
			return
		}
		s.St.Probes["results-compared"]++
	}
}

var isoReal = []string{"hash/sha3", "hash/sm3", "drbg", "dh/sidh", "dh/csidh", "kem/mkem"}

func init() {
	Register(&Prop{ID: "X01", Title: "concurrent independence", Quick: 5600, Thorough: 400000, Gen: genX01, Exec: execX01,
		Rule: "context switches between at least two goroutines happened inside library operations", Real: isoReal,
		Stub: []string{"goroutine scheduler", "package sync (cooperative versions)", "entropy devices", "CPU features"}, Probes: []string{"results-compared"}})
	Register(&Prop{ID: "X02", Title: "CPU features and builds", Quick: 3080, Thorough: 200000, Gen: genX02, Exec: execX02, PairBin: true,
		Rule: "every program is executed under six CPU feature sets and by the portable build", Real: isoReal,
		Stub: []string{"CPU features", "entropy devices"}, Probes: []string{"results-compared"}})
	Register(&Prop{ID: "X03", Title: "buffers", Quick: 7800, Thorough: 300000, Gen: genX03, Exec: execX03,
		Rule: "operations ran with guarded buffers", Real: isoReal,
		Stub: []string{"caller memory (guard regions, overwritten between calls)", "entropy devices", "CPU features"}, Probes: []string{"results-compared", "buffers-checked"}})
}
