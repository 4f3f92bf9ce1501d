package scn

import (
	"fmt"
	"io"

	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	. "verifsim/engine"
)

// X05: the random source is the caller's code, and that code may use the
// library. Task 0 is the host program; whenever it reads its source, the source
// runs some operations of the guest program (task 1) before it delivers; the
// guest's own source does the same with a third program. The bytes may come
// from a generator of the library too. Everything is then repeated apart.

// hookRng is a source that computes with the library before it delivers.
type hookRng struct {
	w  *nest
	r  io.Reader
	lv int
}

// nest is the world of one run.
type nest struct {
	s      *Sim
	t      *Task
	x      []*isoT
	at     []int // next operation of each level
	read   int   // number of reads so far
	depth  int
	stream io.Reader // generator of the library the host's bytes come from
	log    []int     // sizes it was asked for
	rec    []byte    // what it delivered
	replay bool
}

func (h *hookRng) Read(b []byte) (int, error) {
	w := h.w
	if !w.replay && h.lv+1 < len(w.x) {
		k := 0
		if p := w.s.Plan.Picks; len(p) > 0 {
			k = p[w.read%len(p)]
		}
		w.read++
		for ; k > 0 && w.at[h.lv+1] < len(w.s.Plan.Tasks[h.lv+1].Ops); k-- {
			w.s.St.Probes["source-ran-an-operation"]++
			w.step(h.lv + 1)
		}
	}
	n, err := h.r.Read(b)
	if h.lv == 0 && w.stream != nil && n > 0 {
		if w.replay {
			copy(b[:n], w.rec)
			w.rec = w.rec[n:]
		} else {
			w.stream.Read(b[:n])
			w.rec = append(w.rec, b[:n]...)
			w.log = append(w.log, n)
			w.s.St.Probes["source-is-a-library-generator"]++
		}
	}
	return n, err
}

// step runs the next operation of a level.
func (w *nest) step(lv int) {
	op := &w.s.Plan.Tasks[lv].Ops[w.at[lv]]
	w.at[lv]++
	x := w.x[lv]
	r := x.step(op)
	if !w.replay {
		w.s.Logf("level %d %s", lv, r)
	}
}

func (w *nest) add(sh *isoKeys) {
	lv := len(w.x)
	x := &isoT{s: w.s, sh: sh, t: w.t}
	x.wrap = func(r io.Reader) io.Reader { return &hookRng{w: w, r: r, lv: lv} }
	w.x = append(w.x, x)
	w.at = append(w.at, 0)
}

func nestStream(kind, seed int) io.Reader {
	switch kind {
	case 1:
		g := drbg.NewCtrDrbg()
		g.Init(in(seed, 0, 48), nil)
		return g
	case 2:
		x := sha3.NewShake128()
		x.Write(in(seed, 0, 40))
		return x
	case 3:
		x := sha3.NewShake256()
		x.Write(in(seed, 0, 200))
		return x
	case 4:
		x := sha3.NewCShake256([]byte("seed"), in(seed, 0, 7))
		x.Write(in(seed, 0, 13))
		return x
	}
	return nil
}

func genX05(r *Rng, i int, th bool) *Plan {
	pl := &Plan{Scn: "reenter", P: map[string]int{"src": r.Pick(4, 2, 1, 2, 1), "seed": r.N(1 << 20)}, Nodes: []NodePlan{{Off: GenOff(r)}}}
	class := []int{1, 2, 1, 1, 2, 1, 4, 3, 1, 2}[r.N(10)]
	n := 2 + r.N(6)
	if class > 1 {
		n = 1 + r.N(2)
	}
	draw := func(class, n int) []Op {
		var ops []Op
		for k := 0; k < 20; k++ {
			ops = genIsoOps(r, class, n, 8, 1)
			for _, o := range ops {
				if o.E != nil {
					return ops
				}
			}
		}
		return ops
	}
	host := draw(class, n)
	pl.Tasks = []TaskPlan{{Ops: host}}
	lv := 1 + r.Pick(2, 1)
	for k := 0; k < lv; k++ {
		var ops []Op
		if r.Chance(60) {
			// the same operations with other randomness: the same functions are entered again
			for _, o := range host {
				o.I = append([]int(nil), o.I...)
				if o.E != nil {
					o.E = GenEnt(r)
				}
				ops = append(ops, o)
			}
			if class == 2 || class == 3 {
				ops = append(ops, genIsoOps(r, 1, r.N(3), 8, 1)...)
			}
		} else {
			c := []int{0, class, 1, 0}[r.N(4)]
			m := 1 + r.N(10)
			if c > 1 {
				m = 1 + r.N(2)
			}
			ops = genIsoOps(r, c, m, 8, 1)
		}
		pl.Tasks = append(pl.Tasks, TaskPlan{Ops: ops})
	}
	for k := 0; k < 1+r.N(12); k++ {
		pl.Picks = append(pl.Picks, r.Pick(2, 4, 2, 1))
	}
	return pl
}

func execX05(s *Sim) {
	run := func(name string, fn func(t *Task)) bool {
		RestoreGlobals()
		s.Spawn(name, s.Nodes[0], &s.Plan.Tasks[0], fn)
		s.Run()
		return s.V == nil
	}
	kind, seed := s.Plan.P["src"], s.Plan.P["seed"]
	full := s.Plan
	np := *full
	np.Pre, np.Traps, np.Crash = nil, nil, nil
	s.Plan = &np
	defer func() { s.Plan = full }()
	var got *nest
	ok := run("nested", func(t *Task) {
		sh := newIsoKeys()
		w := &nest{s: s, t: t, stream: nestStream(kind, seed)}
		for range np.Tasks {
			w.add(sh)
		}
		got = w
		for lv := range np.Tasks {
			for w.at[lv] < len(np.Tasks[lv].Ops) {
				t.Boundary()
				w.step(lv)
			}
		}
		if k := sh.changed(); k != "" {
			t.Fail("shared-key", "%s, which every level only reads, changed", k)
		}
	})
	if !ok {
		return
	}
	if got.stream != nil {
		// the generator's own output, asked for in the same pieces and nothing in between
		var again []byte
		ok = run("generator", func(t *Task) {
			g := nestStream(kind, seed)
			for _, n := range got.log {
				b := make([]byte, n)
				g.Read(b)
				again = append(again, b...)
			}
		})
		if !ok {
			return
		}
		if !eq(again, got.rec) {
			s.Violate("reentered", "a generator of the library used as a random source delivered other bytes than it does when nothing else is under way")
			return
		}
	}
	for lv := range np.Tasks {
		var x *isoT
		ok = run(fmt.Sprintf("level%d", lv), func(t *Task) {
			w := &nest{s: s, t: t, stream: got.stream, rec: got.rec, replay: true}
			sh := newIsoKeys()
			for range np.Tasks {
				w.add(sh)
			}
			x = w.x[lv]
			for w.at[lv] < len(np.Tasks[lv].Ops) {
				t.Boundary()
				w.step(lv)
			}
		})
		if !ok {
			return
		}
		for j, l := range got.x[lv].log {
			if j >= len(x.log) || x.log[j] != l {
				g := "nothing"
				if j < len(x.log) {
					g = x.log[j]
				}
				s.Violate("reentered", fmt.Sprintf("operation %d of level %d: with random sources that use the library it gave %q, with plain ones that deliver the same bytes %q", j, lv, l, g))
				return
			}
			s.St.Probes["results-compared"]++
		}
	}
}

func init() {
	Register(&Prop{ID: "X05", Title: "random sources that use the library", Quick: 4500, Thorough: 400000, Gen: genX05, Exec: execX05,
		Rule: "an operation of another program ran inside a read of the random source, or the source was a generator of the library", Real: isoReal,
		Stub: []string{"entropy devices", "CPU features", "package sync (cooperative versions)"}, Probes: []string{"results-compared", "source-ran-an-operation", "source-is-a-library-generator"}})
}
