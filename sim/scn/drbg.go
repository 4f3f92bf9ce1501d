package scn

import (
	"bytes"
	"fmt"
	"io"

	"github.com/henrydcase/nobs/drbg"
	. "verifsim/engine"
	"verifsim/models"
)

type dobj struct {
	g     *drbg.CtrDrbg
	m     models.CTR
	ready bool          // instantiated
	sh    *drbg.CtrDrbg // D02: a generator without a past, same requests since the last Init
}

func (o *dobj) init(t *Task, id string, ent, per []byte) {
	o.ready = true
	o.m.Init(ent, per)
	if id == "D02" {
		o.sh = drbg.NewCtrDrbg()
		t.S.Quiet(func() { o.sh.Init(clone(ent), clone(per)) })
	}
}

// want is what the generator must deliver.
func (o *dobj) want(t *Task, n int, ad []byte) []byte {
	w := o.m.Generate(n, ad)
	if o.sh != nil {
		w = make([]byte, n)
		t.S.Quiet(func() { o.sh.ReadWithAdditionalData(w, clone(ad)) })
	}
	return w
}

type dworld struct {
	id    string
	slots [][]*dobj
}

func (w *dworld) task(t *Task) {
	me := t.ID
	for i := range t.Plan.Ops {
		t.Boundary()
		w.op(t, me, i, &t.Plan.Ops[i])
		t.S.St.Ops["drbg-"+t.Plan.Ops[i].K]++
	}
	for k, o := range w.slots[me] {
		if o != nil && o.ready {
			t.Boundary()
			w.gen(t, o, fmt.Sprintf("final slot %d", k), 37, nil, 0)
		}
	}
}

// gen makes a request and compares it. over > 0: the additional input lies in
// the output buffer.
func (w *dworld) gen(t *Task, o *dobj, where string, n int, ad []byte, over int) {
	s := t.S
	buf, ok := slack(pattern(n, 3), 16)
	var k int
	var err error
	a := clone(ad)
	if over > 0 && len(ad) <= n {
		at := (over - 1) % (n - len(ad) + 1)
		a = buf[at : at+len(ad)]
		copy(a, ad)
		s.St.Probes["input-inside-the-output-buffer"]++
	}
	if n > 65536 {
		s.St.Probes["requests-above-64KiB"]++
	}
	v0 := o.m.V
	t.Must(w.id, func() {
		if len(ad) == 0 && n%2 == 0 {
			k, err = o.g.Read(buf)
		} else {
			k, err = o.g.ReadWithAdditionalData(buf, a)
		}
	})
	if w.id == "D01" && (k != n || err != nil) {
		t.Fail("count", "request of %d bytes returned (%d, %v)", n, k, err)
	}
	want := o.want(t, n, ad)
	s.Logf("gen %d %x", n, Digest(buf))
	if !bytes.Equal(buf, want) {
		i := 0
		for buf[i] == want[i] {
			i++
		}
		t.Fail("stream", "%s: request of %d bytes with %d bytes of additional input: output differs from %s at byte %d", where, n, len(ad), map[bool]string{true: "SP 800-90A", false: "that of a new generator given the same Init and requests"}[o.sh == nil], i)
	}
	if !ok() {
		t.Fail("overrun", "request of %d bytes wrote outside its buffer", n)
	}
	if o.m.V != v0 {
		s.St.Probes["requests-compared"]++
	}
	if n%16 != 0 {
		s.St.Probes["partial-last-block"]++
	}
}

func (w *dworld) op(t *Task, me, i int, op *Op) {
	s := t.S
	sl := abs(op.Arg(0)) % 4
	if op.K == "new" {
		o := &dobj{}
		t.Must(w.id, func() { o.g = drbg.NewCtrDrbg() })
		w.slots[me][sl] = o
		return
	}
	o := w.slots[me][sl]
	if o == nil {
		return
	}
	switch op.K {
	case "init":
		ent, per := in(op.Arg(1), op.Arg(2), op.Arg(3)), in(op.Arg(4), op.Arg(5), op.Arg(6))
		if op.E != nil {
			// gathered from a source that may come up short
			e := s.NewEntropy(op.E)
			b := make([]byte, len(ent))
			n, _ := io.ReadFull(e, b)
			ent = b[:n]
			if n < len(b) {
				s.St.Probes["entropy-source-came-up-short"]++
			}
		}
		var ok bool
		e2, p2 := clone(ent), clone(per)
		t.Must(w.id, func() { ok = o.g.Init(e2, p2) })
		s.Logf("init %d %v", len(ent), ok)
		if len(ent) < 32 {
			s.St.Probes["short-entropy-offered"]++
			if ok {
				if !o.ready {
					t.Finding("fresh-init-accepts-short-entropy", fmt.Sprintf("a generator that was never instantiated accepts %d bytes of entropy, the minimum is 32", len(ent)))
					o.init(t, w.id, ent, per)
					return
				}
				t.Fail("short-entropy", "Init with %d bytes of entropy was accepted by an instantiated generator", len(ent))
			}
			return // model unchanged
		}
		if !ok {
			t.Fail("refused", "Init with %d bytes of entropy was refused", len(ent))
		}
		if o.ready {
			s.St.Probes["re-instantiated"]++
		}
		o.init(t, w.id, ent, per)
	case "reseed", "adv":
		if !o.ready {
			return
		}
		ent, ad := in(op.Arg(1), op.Arg(2), op.Arg(3)), in(op.Arg(4), op.Arg(5), op.Arg(6))
		if op.K == "adv" {
			// seed material that brings the counter where carries happen
			key := in(op.Arg(1), op.Arg(2), 32)
			v := in(op.Arg(4), op.Arg(5), 16)
			for k := 0; k < op.Arg(3)%17; k++ {
				v[15-k] = 0xff
			}
			v[15] -= byte(op.Arg(6) % 5)
			ent, ad = o.m.SeedFor(key, v), nil
			s.St.Probes["counter-carry-set-up"]++
		}
		e2, a2 := clone(ent), clone(ad)
		t.Must(w.id, func() { o.g.Reseed(e2, a2) })
		o.m.Reseed(ent, ad)
		if o.sh != nil {
			t.S.Quiet(func() { o.sh.Reseed(clone(ent), clone(ad)) })
		}
		s.Logf("reseed")
	case "burst":
		// very many small requests without a reseed
		if !o.ready {
			return
		}
		n, step := op.Arg(1), 1+op.Arg(2)%5
		bad, what := -1, ""
		t.Must(w.id, func() {
			var b [21]byte
			for j := 0; j < n && bad < 0; j++ {
				q := b[:1+(j*step)%len(b)]
				k, err := o.g.Read(q)
				if w.id == "D01" && (k != len(q) || err != nil) {
					bad, what = j, fmt.Sprintf("returned (%d, %v) for %d bytes", k, err, len(q))
				} else if !bytes.Equal(q, o.want(t, len(q), nil)) {
					bad, what = j, "output differs"
				}
			}
		})
		if bad >= 0 {
			t.Fail("stream", "request number %d in a row without a reseed: %s", bad+1, what)
		}
		s.Logf("burst %d", n)
		if n > 65536 {
			s.St.Probes["more-than-65536-requests-without-reseed"]++
		}
	case "gen":
		if !o.ready {
			return
		}
		w.gen(t, o, fmt.Sprintf("op %d", i), op.Arg(1), in(op.Arg(3), op.Arg(4), op.Arg(2)), op.Arg(5))
	}
}

func genSeedLen(r *Rng) int {
	switch r.N(5) {
	case 0:
		return 48
	case 1:
		return r.In(47, 49)
	case 2:
		return r.In(32, 48)
	case 3:
		return r.In(49, 120) + r.Pick(9, 1)*r.Log(3000)
	}
	return r.In(32, 64)
}

func genAdLen(r *Rng) int {
	switch r.N(6) {
	case 0, 1:
		return 0
	case 2:
		return r.In(1, 47)
	case 3:
		return 48
	case 4:
		return r.In(49, 100) + r.Pick(5, 1)*r.Log(3000)
	}
	return r.In(1, 60)
}

func genDrbg(id string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "drbg"}
		nn := r.In(1, 2)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		if r.Chance(40) {
			pl.Nodes[0].Off = []int{FeatAES}
		}
		nt := r.Pick(3, 3, 1) + 1
		for k := 0; k < nt; k++ {
			tp := TaskPlan{Node: r.N(nn)}
			nops := 4 + r.N(20)
			if th {
				nops = 4 + r.N(80)
			}
			for s := 0; s < r.In(1, 3); s++ {
				tp.Ops = append(tp.Ops, Op{K: "new", I: []int{s}})
				if id == "D01" || r.Chance(70) {
					a, b := genData(r)
					c, d := genData(r)
					tp.Ops = append(tp.Ops, Op{K: "init", I: []int{s, a, b, genSeedLen(r), c, d, genAdLen(r)}})
				}
			}
			for len(tp.Ops) < nops {
				sl := r.N(3)
				a, b := genData(r)
				c, d := genData(r)
				wg := []int{14, 3, 4, 1, 1}
				if id == "D02" {
					wg = []int{8, 2, 1, 6, 1}
				}
				switch r.Pick(wg...) {
				case 0:
					if r.N(1500) == 0 {
						tp.Ops = append(tp.Ops, Op{K: "burst", I: []int{sl, r.Log(5000), r.N(5)}})
					}
					n := 0
					switch r.N(5) {
					case 0:
						n = r.N(18)
					case 1:
						n = 16*r.N(6) + r.In(0, 2)
					case 2:
						n = r.N(100)
					case 3:
						n = 16 * r.N(40)
					default:
						n = r.Log(5000)
					}
					if nt == 1 && r.N(4000) == 0 {
						n = []int{65535, 65536, 65537, 65552, 1 << 17, 70000 + r.N(400000)}[r.N(6)]
					}
					tp.Ops = append(tp.Ops, Op{K: "gen", I: []int{sl, n, genAdLen(r), a, b, r.Pick(5, 1) * r.N(100)}})
				case 1:
					tp.Ops = append(tp.Ops, Op{K: "reseed", I: []int{sl, a, b, r.Pick(1, 6)*r.N(70) + r.Pick(1, 3), c, d, genAdLen(r)}})
				case 2:
					tp.Ops = append(tp.Ops, Op{K: "adv", I: []int{sl, a, b, r.In(1, 16), c, r.Pick(3, 1), r.N(5)}})
				case 3:
					o := Op{K: "init", I: []int{sl, a, b, genSeedLen(r), c, d, genAdLen(r)}}
					if id == "D02" {
						switch r.N(4) {
						case 0:
							o.I[3] = r.Pick(1, 3)*r.N(32) + 0
						case 1:
							o.E = GenEnt(r)
							o.E.Fault = []EntFault{{At: r.N(60), Kind: []string{"err", "eof", "errdata", "scribble"}[r.N(4)]}}
						}
					}
					tp.Ops = append(tp.Ops, o)
				case 4:
					tp.Ops = append(tp.Ops, Op{K: "new", I: []int{sl}})
					if id == "D01" || r.Chance(50) {
						tp.Ops = append(tp.Ops, Op{K: "init", I: []int{sl, a, b, genSeedLen(r), c, d, genAdLen(r)}})
					}
				}
			}
			if i%25000 == 77 && k == 0 {
				tp.Ops = append(tp.Ops, Op{K: "burst", I: []int{0, 65600 + r.N(10000), r.N(5)}})
			}
			pl.Tasks = append(pl.Tasks, tp)
		}
		if nt > 1 {
			genSched(r, pl, 2000, 24, fnPool("drbg"), false)
		}
		return pl
	}
}

func init() {
	for _, id := range []string{"D01", "D02"} {
		id := id
		q, th := 600000, 20000000
		Register(&Prop{ID: id, Title: "DRBG", Quick: q, Thorough: th, Gen: genDrbg(id),
			Exec: func(s *Sim) {
				w := &dworld{id: id}
				for range s.Plan.Tasks {
					w.slots = append(w.slots, make([]*dobj, 4))
				}
				runTasks(s, w.task)
			},
			Rule:   "it is non-trivial when at least one request was compared with the model",
			Real:   []string{"drbg", "drbg/internal/aes (software or AES-NI by node)", "utils feature flags"},
			Stub:   []string{"scheduler", "entropy sources", "CPU features per node", "reference: own SP 800-90A model over crypto/aes"},
			Probes: []string{"requests-compared", "partial-last-block", "counter-carry-set-up", "re-instantiated", "short-entropy-offered"},
		})
	}
}
