package engine

import (
	"fmt"
	"os"
	"strings"
)

// Prop ties a property to its scenario.
type Prop struct {
	ID       string
	Title    string
	Quick    int // runs per tier
	Thorough int
	Gen      func(r *Rng, i int, thorough bool) *Plan
	Exec     func(s *Sim)
	Rule     string   // what makes a run non-trivial
	Real     []string // components running real code
	Stub     []string // components simulated
	Probes   []string // probes that must be non-zero over a batch
	Detail   string
	PairBin  bool // also executed by the portable binary, transcripts compared
	PairOwn  bool // the portable binary's run is judged by itself only
}

var Props = map[string]*Prop{}
var Order []string

func Register(p *Prop) {
	Props[p.ID] = p
	Order = append(Order, p.ID)
}

// RunSeed derives the seed of run i.
func RunSeed(base uint64, prop string, i int) uint64 {
	return Mix(Mix(base, HashStr(prop)), uint64(i)+1)
}

// GenPlan expands a seed to a plan.
func GenPlan(prop string, base uint64, i int, thorough bool) *Plan {
	p := Props[prop]
	seed := RunSeed(base, prop, i)
	pl := p.Gen(NewRng(seed), i, thorough)
	pl.Prop = prop
	pl.Seed = seed
	return pl
}

// Result of executing a plan.
type Result struct {
	V        *Violation
	Hash     uint64
	Sched    uint64
	Switches int
	LogLen   int
	Known    map[string]int
	Lines    []string
	SimTime  int64
}

// Known-finding keys that are listed in the committed file.
var KnownListed = map[string]string{}

// LoadKnown reads the known-findings file: lines "KNOWN-FINDING: property=ID key=KEY text".
func LoadKnown(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		f := strings.Fields(l)
		var prop, key string
		for _, w := range f[1:] {
			if strings.HasPrefix(w, "property=") {
				prop = w[9:]
			}
			if strings.HasPrefix(w, "key=") {
				key = w[4:]
			}
		}
		i := strings.Index(l, "key="+key)
		KnownListed[prop+"/"+key] = strings.TrimSpace(l[i+4+len(key):])
	}
	return nil
}

// Finding reports a defect that matches a precise known pattern. It is a
// violation unless the committed file lists it.
func (t *Task) Finding(key, msg string) {
	s := t.S
	if _, ok := KnownListed[s.Plan.Prop+"/"+key]; ok {
		s.Known[key]++
		s.Logf("known finding %s", key)
		return
	}
	t.Fail(key, "%s", msg)
}

// Execute runs one plan to the end.
func Execute(pl *Plan, st *Stats, keep bool) *Result {
	p := Props[pl.Prop]
	if p == nil {
		return &Result{V: &Violation{"harness", "unknown property " + pl.Prop}}
	}
	RestoreGlobals()
	s := NewSim(pl, st)
	s.Log.Keep = keep
	s.Log.Max = 400
	p.Exec(s)
	st.Runs++
	r := &Result{V: s.V, Hash: s.Log.Hash(), Sched: s.SchedHash(), Switches: s.Switched(), LogLen: s.Log.Len(), Known: s.Known, Lines: s.Log.Lines, SimTime: s.now}
	return r
}

func (r *Result) String() string {
	if r.V == nil {
		return "ok"
	}
	return fmt.Sprintf("%s: %s", r.V.Class, r.V.Msg)
}
