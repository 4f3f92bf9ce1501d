package scn

import (
	"bytes"
	"crypto/hmac"
	"errors"
	"fmt"
	"hash"
	"io"

	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
	. "verifsim/engine"
	"verifsim/models"
)

// hobj is a library object together with what the model knows about it.
type hobj struct {
	alg    int
	h      hash.Hash
	x      sha3.ShakeHash
	N, S   []byte
	msg    []byte // bytes written since creation or Reset
	pos    int    // bytes read so far (XOF)
	squeez bool   // reading has begun
	maybe  bool   // a zero-length read happened first: either state is fine
	stream []byte // cache of the model's output
	hist   []hev  // everything done to it, clones inherit it (H05)
	mac    []byte // key, if the object is a standard library HMAC over the library's hash
}

// digest is what the object's Sum must append.
func (o *hobj) digest() []byte {
	if o.mac == nil {
		return models.Digest(o.alg, o.msg)
	}
	k := o.mac
	bs := models.Rate(o.alg)
	if len(k) > bs {
		k = models.Digest(o.alg, k)
	}
	pad := func(x byte) []byte {
		b := make([]byte, bs)
		copy(b, k)
		for i := range b {
			b[i] ^= x
		}
		return b
	}
	return models.Digest(o.alg, append(pad(0x5c), models.Digest(o.alg, append(pad(0x36), o.msg...))...))
}

// newMac makes a standard library HMAC over the library's hash.
func newMac(alg int, key []byte) *hobj {
	return &hobj{alg: alg, mac: append([]byte{}, key...), h: hmac.New(func() hash.Hash { return newHobj(alg, nil, nil).h }, clone(key))}
}

// hev is one event in the life of an object.
type hev struct {
	k    byte // w, x (refused write), r, z (reset)
	data []byte
}

func newHobj(alg int, N, S []byte) *hobj {
	o := &hobj{alg: alg}
	switch alg {
	case models.SHA3_224:
		o.h = sha3.New224()
	case models.SHA3_256:
		o.h = sha3.New256()
	case models.SHA3_384:
		o.h = sha3.New384()
	case models.SHA3_512:
		o.h = sha3.New512()
	case models.SM3ID:
		o.h = sm3.New()
	case models.SHAKE128:
		o.x = sha3.NewShake128()
	case models.SHAKE256:
		o.x = sha3.NewShake256()
	case models.CSHAKE128:
		o.N, o.S = N, S
		o.x = sha3.NewCShake128(clone(N), clone(S))
	case models.CSHAKE256:
		o.N, o.S = N, S
		o.x = sha3.NewCShake256(clone(N), clone(S))
	}
	return o
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func (o *hobj) w() io.Writer {
	if o.h != nil {
		return o.h
	}
	return o.x
}

func (o *hobj) reset() {
	if o.h != nil {
		o.h.Reset()
	} else {
		o.x.Reset()
	}
	o.msg, o.pos, o.squeez, o.maybe, o.stream = nil, 0, false, false, nil
}

func (o *hobj) want(n int) []byte {
	if len(o.stream) < o.pos+n {
		o.stream = models.XOF(o.alg, o.N, o.S, o.msg, 0, 2*(o.pos+n)+200)
	}
	return o.stream[o.pos : o.pos+n]
}

type hmode struct {
	id       string
	sums     bool // Sum in the middle of a message
	prefix   bool // Sum with caller's prefix
	counts   bool // judge (n, err) of writes
	copies   bool // feed from flaky readers
	xof      bool
	fixed    bool
	clones   bool
	refused  bool // writes after reading began
	oneshots bool
}

type hworld struct {
	m     hmode
	slots [][]*hobj
	all   []*hobj
	kept  []kept
}

// kept is a digest a caller still holds.
type kept struct {
	what      string
	got, want []byte
}

// held checks the digests returned so far: they belong to the caller, nothing
// that happens later may change them.
func (w *hworld) held(t *Task) {
	for _, k := range w.kept {
		if !bytes.Equal(k.got, k.want) {
			t.Fail("digest-changed", "%s returned %s; the caller kept the slice and it now reads %s", k.what, hexs(k.want), hexs(k.got))
		}
	}
	if n := len(w.kept); n > 32 {
		w.kept = append(w.kept[:0], w.kept[n-32:]...)
	}
}

func (w *hworld) add(to []*hobj, k int, o *hobj) {
	to[abs(k)%len(to)] = o
	if w.m.clones {
		w.all = append(w.all, o)
	}
}

// replay repeats an object's own history on a new object that was never
// cloned and has the process to itself; every output must be the same.
func (w *hworld) replay(s *Sim) {
	for i, o := range w.all {
		if s.V != nil {
			return
		}
		f := newHobj(o.alg, o.N, o.S)
		pos := 0
		for _, e := range o.hist {
			switch e.k {
			case 'w', 'x':
				f.w().Write(e.data)
			case 'z':
				f.reset()
				pos = 0
			case 'r':
				b := make([]byte, len(e.data))
				f.x.Read(b)
				if !bytes.Equal(b, e.data) {
					s.Violate("clone", fmt.Sprintf("%s object %d: output bytes %d..%d differ from those of an object with the same history that was never cloned and ran alone: got %s want %s", models.AlgName[o.alg], i, pos, pos+len(b), hexs(e.data), hexs(b)))
					return
				}
				pos += len(b)
			}
		}
		s.St.Probes["object-histories-replayed"]++
	}
}

func (w *hworld) task(t *Task) {
	s := t.S
	me := t.ID
	for i := range t.Plan.Ops {
		t.Boundary()
		o := &t.Plan.Ops[i]
		w.op(t, me, i, o)
		s.St.Ops["hash-"+o.K]++
	}
	// closing check of everything this task holds
	for k, o := range w.slots[me] {
		if o == nil {
			continue
		}
		t.Boundary()
		if o.h != nil {
			w.sum(t, o, fmt.Sprintf("final slot %d", k), nil, -1)
		} else {
			w.read(t, o, fmt.Sprintf("final slot %d", k), 40+models.Rate(o.alg), me)
		}
	}
	w.held(t)
}

func (w *hworld) get(me, k int) *hobj { return w.slots[me][abs(k)%len(w.slots[me])] }

func (w *hworld) op(t *Task, me, i int, op *Op) {
	s := t.S
	id := w.m.id
	switch op.K {
	case "new":
		N, S := in(op.Arg(3), 0, op.Arg(2)), in(op.Arg(5), 0, op.Arg(4))
		var o *hobj
		t.Must(id, func() { o = newHobj(op.Arg(1)%models.NAlg, N, S) })
		w.add(w.slots[me], op.Arg(0), o)
		s.Logf("t%d new %s", me, models.AlgName[o.alg])
	case "mac":
		var o *hobj
		t.Must(id, func() { o = newMac(op.Arg(1)%(models.SM3ID+1), in(op.Arg(2), op.Arg(3)%6, op.Arg(4))) })
		w.add(w.slots[me], op.Arg(0), o)
		s.Logf("t%d mac %s", me, models.AlgName[o.alg])
	case "oneshot":
		m := in(op.Arg(1), op.Arg(2), op.Arg(3))
		out := pattern(op.Arg(4), i)
		alg := models.SHAKE128 + op.Arg(0)%2
		t.Must(id, func() {
			if alg == models.SHAKE128 {
				sha3.ShakeSum128(out, m)
			} else {
				sha3.ShakeSum256(out, m)
			}
		})
		if e := models.XOF(alg, nil, nil, m, 0, len(out)); !bytes.Equal(e, out) {
			t.Fail("oneshot", "one-shot %s of %d bytes to %d bytes: got %s want %s", models.AlgName[alg], len(m), len(out), hexs(out), hexs(e))
		}
		s.Logf("t%d oneshot %x", me, Digest(out))
	}
	o := w.get(me, op.Arg(0))
	if o == nil {
		return
	}
	switch op.K {
	case "w":
		w.write(t, o, in(op.Arg(1), op.Arg(2), op.Arg(3)), op.Arg(4), op.Arg(5))
	case "cp":
		w.copy(t, o, op)
	case "sum":
		if o.h == nil {
			return
		}
		pk := op.Arg(1)
		if !w.m.prefix || o.mac != nil && o.alg == models.SM3ID {
			pk = 0
		}
		var pre []byte
		room := -1
		switch pk {
		case 0:
		case 1:
			pre = []byte{}
		case 2: // exact capacity
			pre = append([]byte{}, in(op.Arg(2), 0, op.Arg(3))...)
			pre = pre[:len(pre):len(pre)]
		default: // spare capacity
			b := make([]byte, op.Arg(3)+op.Arg(4))
			for j := range b {
				b[j] = 0xEE
			}
			copy(b, in(op.Arg(2), 0, op.Arg(3)))
			pre = b[:op.Arg(3)]
			room = op.Arg(4)
		}
		w.sum(t, o, fmt.Sprintf("op %d", i), pre, room)
	case "rd":
		if o.x != nil {
			w.read(t, o, fmt.Sprintf("op %d", i), op.Arg(1), op.Arg(2))
		}
	case "reset":
		t.Must(id, func() { o.reset() })
		if w.m.clones {
			o.hist = append(o.hist, hev{k: 'z'})
		}
		s.Logf("t%d reset", me)
	case "clone":
		if o.x == nil {
			return
		}
		var c sha3.ShakeHash
		t.Must(id, func() { c = o.x.Clone() })
		d := *o
		d.x = c
		d.msg = clone(o.msg)
		d.stream = nil
		d.hist = append([]hev(nil), o.hist...)
		w.add(w.slots[op.Arg(1)%len(w.slots)], op.Arg(2), &d)
		s.Logf("t%d clone", me)
	}
}

func (w *hworld) write(t *Task, o *hobj, data []byte, how, off int) {
	s := t.S
	if o.squeez && !o.maybe {
		if !w.m.refused {
			return
		}
		var n int
		var err error
		if w.m.clones {
			t.Op(func() { o.w().Write(clone(data)) })
			o.hist = append(o.hist, hev{'x', data})
			return
		}
		pv := t.Op(func() { n, err = o.w().Write(data) })
		if pv != nil {
			t.Fail("refused-write", "write of %d bytes to %s after a read panicked: %v", len(data), models.AlgName[o.alg], pv)
		}
		if len(data) > 0 && (n != 0 || !errors.Is(err, sha3.ErrWriteAfterRead)) {
			t.Fail("refused-write", "write of %d bytes to %s after a read: got (%d, %v), want (0, ErrWriteAfterRead)", len(data), models.AlgName[o.alg], n, err)
		}
		s.St.Probes["write-refused-after-read"]++
		s.Logf("refused")
		return
	}
	// the caller's slice starts anywhere in memory
	buf := append(make([]byte, off, off+len(data)), data...)[off:]
	var n int
	var err error
	t.Must(w.m.id, func() {
		if how == 1 {
			n, err = io.WriteString(o.w(), string(buf))
		} else {
			n, err = o.w().Write(buf)
		}
	})
	if o.maybe {
		o.maybe = false
		if errors.Is(err, sha3.ErrWriteAfterRead) && n == 0 {
			return
		}
		o.squeez = false
	}
	if w.m.counts && (n != len(data) || err != nil) {
		t.Fail("write-count", "%s: write of %d bytes after %d bytes reported (%d, %v)", models.AlgName[o.alg], len(data), len(o.msg), n, err)
	}
	o.msg = append(o.msg, data...)
	o.stream = nil
	if w.m.clones {
		o.hist = append(o.hist, hev{'w', data})
	}
	s.Logf("w %d", len(data))
	if len(data) > 3*models.Rate(o.alg) {
		s.St.Probes["multi-block-write"]++
	}
	if len(o.msg)%models.Rate(o.alg) == 0 && len(o.msg) > 0 {
		s.St.Probes["block-boundary-reached"]++
	}
}

func (w *hworld) copy(t *Task, o *hobj, op *Op) {
	s := t.S
	if o.squeez {
		return
	}
	total, bsz, how := op.Arg(1), op.Arg(2), op.Arg(3)
	ep := *op.E
	ep.Fault = append(append([]EntFault(nil), ep.Fault...), EntFault{At: total, Kind: "eof"})
	e := s.NewEntropy(&ep)
	var n int64
	var err error
	before := len(o.msg)
	t.Must(w.m.id, func() {
		src := struct{ io.Reader }{e}
		switch how {
		case 0:
			n, err = io.Copy(struct{ io.Writer }{o.w()}, src)
		case 1:
			n, err = io.CopyBuffer(struct{ io.Writer }{o.w()}, src, make([]byte, 1+bsz))
		case 2:
			var b []byte
			b, err = io.ReadAll(io.TeeReader(src, o.w()))
			n = int64(len(b))
		case 3:
			n, err = io.CopyN(o.w(), src, int64(total))
		default: // whatever shortcuts the object offers to io.Copy
			n, err = io.Copy(o.w(), src)
		}
	})
	got := e.Mark()
	o.msg = append(o.msg, got...)
	o.stream = nil
	s.Logf("cp %d %v", n, err)
	if n != int64(len(got)) {
		t.Fail("copy-count", "%s: stream delivered %d bytes (after %d) but the copy reports %d, error %v", models.AlgName[o.alg], len(got), before, n, err)
	}
	if err != nil && err != io.EOF && !errors.Is(err, ErrEntropy) {
		t.Fail("copy-error", "%s: copying failed with %v, which is not the stream's error (%d bytes after %d)", models.AlgName[o.alg], err, len(got), before)
	}
	if err != nil {
		s.St.Probes["copy-ended-by-stream-failure"]++
	}
}

func (w *hworld) sum(t *Task, o *hobj, where string, pre []byte, room int) {
	s := t.S
	keep := clone(pre)
	var full []byte
	if room >= 0 {
		full = pre[:len(pre)+room]
	}
	var d []byte
	t.Must(w.m.id, func() { d = o.h.Sum(pre) })
	want := o.digest()
	s.Logf("sum %x", d)
	name := models.AlgName[o.alg]
	if o.mac != nil {
		name = "HMAC over " + name
		s.St.Probes["hmac-compared"]++
	}
	if n := o.h.Size(); n != len(want) {
		t.Fail("size", "%s %s: Size reports %d, the digest has %d bytes", name, where, n, len(want))
	}
	if n := o.h.BlockSize(); n != models.Rate(o.alg) {
		t.Fail("size", "%s %s: BlockSize reports %d, the standard's block has %d bytes", name, where, n, models.Rate(o.alg))
	}
	if len(keep) > 0 && o.mac == nil && o.alg == models.SM3ID && len(d) == sm3.Size {
		// precisely: digest of message and prefix together, returned alone
		if bytes.Equal(d, models.SumSM3(append(clone(o.msg), keep...))) {
			t.Finding("sm3-sum-prefix", "SM3 Sum hashes the caller's prefix instead of appending the digest to it")
			return
		}
	}
	if !bytes.Equal(d, append(clone(keep), want...)) {
		t.Fail("digest", "%s %s: message of %d bytes, prefix of %d: got %s want %s%s", name, where, len(o.msg), len(keep), hexs(d), hexs(keep), hexs(want))
	}
	if room >= 0 {
		for j := len(pre) + len(want); j < len(full); j++ {
			if full[j] != 0xEE {
				t.Fail("sum-overrun", "%s Sum changed byte %d of the caller's slice, the digest ends at %d", name, j, len(pre)+len(want))
			}
		}
		if !bytes.Equal(full[:len(keep)], keep) {
			t.Fail("sum-prefix", "%s Sum changed the caller's prefix", name)
		}
	}
	s.St.Probes["digests-compared"]++
	w.kept = append(w.kept, kept{name + " Sum", d, clone(d)})
	w.held(t)
}

func (w *hworld) read(t *Task, o *hobj, where string, n, off int) {
	s := t.S
	out := pattern(n, len(o.msg))
	buf, ok := slack(out, 16+off)
	var k int
	var err error
	t.Must(w.m.id, func() { k, err = o.x.Read(buf) })
	if w.m.clones {
		o.hist = append(o.hist, hev{'r', clone(buf)})
		s.Logf("rd %d %x", n, Digest(buf))
		o.squeez = true
		o.pos += n
		return
	}
	if n == 0 {
		if !o.squeez {
			o.maybe = true
			o.squeez = true
		}
		return
	}
	o.squeez, o.maybe = true, false
	name := models.AlgName[o.alg]
	if k != n || err != nil {
		t.Fail("read-count", "%s %s: Read of %d bytes returned (%d, %v)", name, where, n, k, err)
	}
	want := o.want(n)
	s.Logf("rd %d %x", n, Digest(buf))
	if !bytes.Equal(want, buf) {
		t.Fail("stream", "%s %s (function name %d bytes, customization %d): message of %d bytes, output bytes %d..%d differ: got %s want %s", name, where, len(o.N), len(o.S), len(o.msg), o.pos, o.pos+n, hexs(buf), hexs(want))
	}
	if !ok() {
		t.Fail("read-overrun", "%s Read wrote outside its buffer", name)
	}
	o.pos += n
	s.St.Probes["xof-bytes-compared"] += int64(n)
}

// ---- generation ----

// hgen tracks enough of each object to aim at block boundaries.
type hgen struct {
	alg, len, pos int
	sq            bool
}

func genLen(r *Rng, rate, cur, max int) int {
	switch r.Pick(3, 4, 4, 3, 4, 2) {
	case 0:
		return r.N(3)
	case 1:
		return r.N(rate + 3)
	case 2: // to a block boundary, and around it
		n := rate - cur%rate + r.In(-1, 1) + rate*r.Pick(5, 2, 1)
		if n < 0 {
			n = 0
		}
		return n
	case 3: // to the padding threshold
		n := rate - cur%rate - r.Pick(1, 3, 3, 1)*4 + r.In(-8, 1)
		if n < 0 {
			n += rate
		}
		return n
	case 4:
		return rate*r.In(1, 4) + r.In(-1, 1)
	}
	return r.Log(max)
}

func genHash(m hmode) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "hash", P: map[string]int{}}
		pl.Nodes = []NodePlan{{Off: GenOff(r)}}
		if m.id == "H01" && i == 0 {
			// one message past 2^32 bits
			pl.Scn = "huge"
			pl.P["mb"] = 513
			return pl
		}
		if m.id == "H01" && i == 1 {
			pl.Scn = "huge"
			pl.P["mb"] = 17
			return pl
		}
		nt := r.Pick(3, 4, 2, 1) + 1
		max := 3000
		if r.Chance(4) {
			max = 70000
		}
		const slots = 4
		sh := make([][slots]*hgen, nt)
		for k := 0; k < nt; k++ {
			tp := TaskPlan{}
			nops := 3 + r.N(22)
			if th {
				nops = 3 + r.N(60)
			}
			for len(tp.Ops) < nops {
				sl := r.N(slots)
				g := sh[k][sl]
				if g == nil || r.Chance(4) {
					var alg int
					if m.xof && (!m.fixed || r.Chance(50)) {
						alg = models.SHAKE128 + r.N(4)
					} else {
						alg = r.Pick(2, 3, 2, 2, 5)
					}
					op := Op{K: "new", I: []int{sl, alg}}
					if alg <= models.SM3ID && r.Chance(12) {
						rate := models.Rate(alg)
						op = Op{K: "mac", I: []int{sl, alg, r.N(1 << 20), r.N(6), []int{0, r.N(40), rate - 1, rate, rate + 1, r.N(400)}[r.N(6)]}}
					}
					if alg >= models.CSHAKE128 {
						// encodings of N and S that fill, nearly fill or overflow a block
						rate := models.Rate(alg)
						var nl, s2 int
						switch r.N(4) {
						case 0:
							nl, s2 = r.N(20), r.N(40)
						case 1: // total encoded length around a multiple of the rate
							hd := 2 + 2 + 2
							nl = r.N(30)
							s2 = rate*r.In(1, 2) - hd - nl + r.In(-3, 3)
						case 2:
							nl, s2 = r.Log(700), r.Log(700)
						default:
							nl, s2 = r.Pick(1, 1)*r.N(10), r.Pick(1, 2)*r.N(300)
						}
						// lengths at which the encoded bit length grows by a byte
						if r.Chance(3) {
							n := []int{32, 8192}[r.N(2)] + r.In(-2, 2)
							if r.Chance(50) {
								s2 = n
							} else {
								nl = n
							}
						} else if m.id == "H04" && r.N(40000) == 0 {
							n := 1<<21 + r.In(-1, 1)
							if r.Chance(50) {
								s2 = n
							} else {
								nl = n
							}
						}
						op.I = append(op.I, nl, r.N(1000), s2, r.N(1000))
					}
					tp.Ops = append(tp.Ops, op)
					sh[k][sl] = &hgen{alg: alg}
					continue
				}
				rate := models.Rate(g.alg)
				isX := g.alg >= models.SHAKE128
				sd, kd := genData(r)
				wgt := []int{10, 0, 0, 0, 2, 0, 0}
				if m.copies {
					wgt[1] = 6
				}
				if !isX {
					wgt[2] = 3
				} else {
					wgt[3] = 8
					if m.clones {
						wgt[5] = 4
					}
				}
				if m.oneshots {
					wgt[6] = 1
				}
				if g.sq && isX {
					if m.refused {
						wgt[0] = 2
					} else {
						wgt[0] = 0
					}
					wgt[1] = 0
				}
				switch r.Pick(wgt...) {
				case 0:
					n := genLen(r, rate, g.len, max)
					tp.Ops = append(tp.Ops, Op{K: "w", I: []int{sl, sd, kd, n, r.Pick(9, 1), r.Pick(2, 1) * r.N(16)}})
					if !g.sq {
						g.len += n
					}
				case 1:
					total := genLen(r, rate, g.len, max)
					e := GenEnt(r)
					if r.Chance(70) {
						e.Chunk = nil
						for j := r.In(1, 6); j > 0; j-- {
							e.Chunk = append(e.Chunk, genLen(r, rate, g.len, 200))
						}
					}
					if r.Chance(60) && total > 0 {
						kind := []string{"err", "eof", "eofdata", "errdata", "zero", "fullerr", "scribble"}[r.N(7)]
						e.Fault = append(e.Fault, EntFault{At: r.N(total + 1), Kind: kind})
					}
					how := r.Pick(3, 5, 2, 2, 3)
					tp.Ops = append(tp.Ops, Op{K: "cp", I: []int{sl, total, r.Log(2 * rate), how}, E: e})
					g.len += total
				case 2:
					pl := r.Log(80) + r.Pick(9, 1)*r.Log(400)
					tp.Ops = append(tp.Ops, Op{K: "sum", I: []int{sl, r.Pick(3, 2, 4, 5), sd, pl, r.Pick(2, 1, 3) * r.N(90)}})
					if !m.sums {
						tp.Ops = append(tp.Ops, Op{K: "reset", I: []int{sl}})
						g.len = 0
					}
				case 3:
					lim := 1500
					if r.Chance(2) {
						lim = 70000
					}
					n := genLen(r, rate, g.pos, lim)
					if m.id == "H04" && r.N(60000) == 0 {
						n = 1<<20 + r.N(12<<20)
					}
					tp.Ops = append(tp.Ops, Op{K: "rd", I: []int{sl, n, r.Pick(2, 1) * r.N(16)}})
					g.pos += n
					g.sq = true
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "reset", I: []int{sl}})
					g.len, g.pos, g.sq = 0, 0, false
				case 5:
					t2, s2 := r.N(nt), r.N(slots)
					if t2 == k && s2 == sl {
						continue
					}
					tp.Ops = append(tp.Ops, Op{K: "clone", I: []int{sl, t2, s2}})
					if t2 == k {
						c := *g
						sh[k][s2] = &c
					}
				case 6:
					tp.Ops = append(tp.Ops, Op{K: "oneshot", I: []int{r.N(2), sd, kd, r.N(500) + r.Pick(30, 1)*r.Log(70000), genLen(r, 136+32*r.N(2), 0, 900) + r.Pick(30, 1)*r.Log(70000)}})
				}
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		if nt > 1 {
			genSched(r, pl, 400, 24, fnPool("hash/"), false)
		}
		return pl
	}
}

func execHash(m hmode) func(s *Sim) {
	return func(s *Sim) {
		if s.Plan.Scn == "huge" {
			s.Spawn("huge", s.Nodes[0], nil, func(t *Task) { hugeSM3(t, s.Plan.P["mb"]) })
			s.SetLimit(1 << 40)
			s.Run()
			return
		}
		w := &hworld{m: m}
		for range s.Plan.Tasks {
			w.slots = append(w.slots, make([]*hobj, 4))
		}
		runTasks(s, w.task)
		if m.clones && s.V == nil {
			w.replay(s)
		}
	}
}

// hugeSM3 hashes a message whose bit length does not fit 32 bits.
func hugeSM3(t *Task, mb int) {
	h := sm3.New()
	blk := Fill(7, 0, 1<<20)
	for i := 0; i < mb; i++ {
		t.Boundary()
		blk[i%len(blk)]++
		t.Must("H01", func() { h.Write(blk) })
	}
	t.Must("H01", func() { h.Write(blk[:77]) })
	var d []byte
	t.Must("H01", func() { d = h.Sum(nil) })
	if w := models.HugeSM3(mb, Fill(7, 0, 1<<20)); !bytes.Equal(d, w) {
		t.Fail("digest", "SM3 of a %d MB message: got %x want %x", mb, d, w)
	}
	t.S.St.Probes["message-longer-than-2^32-bits"]++
	t.S.Logf("huge %d %x", mb, d)
}

var hashStub = []string{"scheduler", "streams feeding the objects (entropy device as io.Reader)", "reference: Go standard library crypto/sha3, own SM3 model"}

func init() {
	real := []string{"hash/sha3 (assembly or generic permutation as selected)", "hash/sm3"}
	rule := "it is non-trivial when at least one library operation was performed and compared with the model"
	reg := func(m hmode, title string, q, th int, probes ...string) {
		Register(&Prop{ID: m.id, Title: title, Quick: q, Thorough: th, Gen: genHash(m), Exec: execHash(m), Rule: rule, Real: real, Stub: hashStub, Probes: probes})
	}
	reg(hmode{id: "H01", fixed: true, sums: true}, "digest depends only on the bytes written", 500000, 20000000, "digests-compared", "block-boundary-reached", "multi-block-write", "preempted-inside-library-operation")
	reg(hmode{id: "H02", fixed: true, sums: true, prefix: true}, "Sum has no effect and appends", 1200000, 20000000, "digests-compared")
	reg(hmode{id: "H03", fixed: true, xof: true, copies: true, counts: true}, "writes are consumed and counted in full", 900000, 20000000, "copy-ended-by-stream-failure", "entropy-short-read")
	reg(hmode{id: "H04", xof: true, refused: true, oneshots: true}, "XOF stream", 900000, 20000000, "write-refused-after-read", "xof-bytes-compared")
	reg(hmode{id: "H05", xof: true, clones: true, refused: true}, "clones are independent", 1100000, 20000000, "object-histories-replayed", "preempted-inside-library-operation")
}
