// Package scn holds the scenarios: how plans are generated, what the simulated
// tasks do with the library, and the oracles that judge the outcome.
package scn

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/henrydcase/nobs/verifrt"
	. "verifsim/engine"
)

// fnPool lists instrumented functions of the given packages.
func fnPool(prefixes ...string) []string {
	var o []string
	for _, n := range verifrt.Names {
		for _, p := range prefixes {
			if strings.HasPrefix(n, p) {
				o = append(o, n)
				break
			}
		}
	}
	return o
}

// pickFn draws a function; the many field and curve routines do not crowd out the rest.
func pickFn(r *Rng, pool []string) string {
	f := pool[r.N(len(pool))]
	for i := 0; i < 3 && strings.Contains(f, "/internal/") && r.Chance(60); i++ {
		f = pool[r.N(len(pool))]
	}
	return f
}

// genSched draws the preemptions of a run: gaps in executed library
// statements, entries of library functions, switches between operations.
func genSched(r *Rng, pl *Plan, gap, n int, pool []string, acts bool) {
	if r.Chance(15) {
		// no preemption inside operations, only switches between them
		n = 0
	}
	m := r.N(n + 1)
	g := r.Log(gap)
	for i := 0; i < m; i++ {
		if r.Chance(20) {
			g = r.Log(gap)
		}
		pl.Pre = append(pl.Pre, Pre{Gap: r.Log(g), Pick: r.N(4)})
	}
	if len(pool) > 0 {
		k := r.N(n/2 + 1)
		for i := 0; i < k; i++ {
			t := TrapPlan{Fn: pickFn(r, pool), N: r.Log(200), After: r.Pick(1, 1) * r.Log(40), Pick: r.N(4)}
			if acts && r.Chance(25) {
				t.Act = "abandon"
			}
			pl.Traps = append(pl.Traps, t)
		}
	}
	k := r.N(40)
	for i := 0; i < k; i++ {
		pl.Picks = append(pl.Picks, r.Pick(2, 1, 1, 1))
	}
}

// genData draws the seed and kind of a data block.
func genData(r *Rng) (int, int) { return r.N(1 << 20), r.Pick(8, 1, 1, 1, 1, 1) }

func in(seed, kind, n int) []byte {
	if n < 0 {
		n = 0
	}
	return Fill(uint64(seed), kind, n)
}

// slack returns a copy of b inside a larger allocation, and a function that
// tells whether the surroundings changed.
func slack(b []byte, n int) ([]byte, func() bool) {
	big := make([]byte, len(b)+2*n)
	for i := range big {
		big[i] = byte(0xc0 + i%7)
	}
	copy(big[n:], b)
	want := append([]byte(nil), big...)
	w := big[n : n+len(b) : n+len(b)]
	return w, func() bool {
		return bytes.Equal(big[:n], want[:n]) && bytes.Equal(big[n+len(b):], want[n+len(b):])
	}
}

// pattern fills an output buffer with recognisable bytes.
func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x5a ^ (i*13 + seed*31))
	}
	return b
}

func hexs(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// runTasks spawns one simulated goroutine per task plan and runs them.
func runTasks(s *Sim, fn func(t *Task)) {
	for i := range s.Plan.Tasks {
		tp := &s.Plan.Tasks[i]
		nd := s.Nodes[0]
		if tp.Node < len(s.Nodes) {
			nd = s.Nodes[tp.Node]
		}
		s.Spawn(fmt.Sprintf("t%d", i), nd, tp, fn)
	}
	s.Run()
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
