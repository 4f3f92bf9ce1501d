// Command simrun runs the simulation for one property.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/henrydcase/nobs/verifrt"
	. "verifsim/engine"
	_ "verifsim/scn"
)

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Uint64("seed", 1, "VERIF_SEED")
	fWorkers  = flag.Int("workers", 8, "worker processes")
	fWorker   = flag.Int("worker", -1, "worker index (internal)")
	fRuns     = flag.Int("runs", 0, "override number of runs")
	fLimit    = flag.Int("limit", 0, "wall clock guard for the search, seconds")
	fExec     = flag.String("exec", "", "execute a replay file")
	fVerbose  = flag.Bool("v", false, "print the history")
	fKnown    = flag.String("known", "", "known findings file")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fPortable = flag.String("portable", "", "portable binary, for paired properties")
	fHashes   = flag.Bool("hashes", false, "worker prints the hash of every run (determinism audit)")
	fShowPlan = flag.Int("plan", -1, "print the plan of run i")
)

type wline struct {
	T     string // start, viol, stats, hash
	I     int
	V     *Violation   `json:",omitempty"`
	Stats *workerStats `json:",omitempty"`
	Hash  uint64       `json:",omitempty"`
}

type workerStats struct {
	St       *Stats
	Known    map[string]int
	Runs     int
	Nontriv  int
	Plans    []uint64
	Scheds   []uint64
	Reruns   int
	Mismatch []int
	Funcs    map[string]uint64
	Samples  []json.RawMessage
	WallMS   int64
	CutShort bool
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	if *fKnown != "" {
		if err := LoadKnown(*fKnown); err != nil {
			die("%v", err)
		}
	}
	if *fExec != "" {
		doExec()
		return
	}
	p := Props[*fProp]
	if p == nil {
		die("unknown property %q", *fProp)
	}
	if *fShowPlan >= 0 {
		b, _ := json.MarshalIndent(GenPlan(*fProp, *fSeed, *fShowPlan, *fTier == "thorough"), "", " ")
		fmt.Println(string(b))
		return
	}
	if *fWorker >= 0 {
		worker(p)
		return
	}
	parent(p)
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

func nruns(p *Prop) int {
	if *fRuns > 0 {
		return *fRuns
	}
	if *fTier == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

func limit() time.Duration {
	if *fLimit > 0 {
		return time.Duration(*fLimit) * time.Second
	}
	if *fTier == "thorough" {
		return 3000 * time.Second
	}
	return 150 * time.Second
}

func worker(p *Prop) {
	runtime.GOMAXPROCS(2)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	ws := &workerStats{St: NewStats(), Known: map[string]int{}, Funcs: map[string]uint64{}}
	start := time.Now()
	thorough := *fTier == "thorough"
	n := nruns(p)
	seenP := map[uint64]bool{}
	seenS := map[uint64]bool{}
	for i := *fWorker; i < n; i += *fWorkers {
		if time.Since(start) > limit() {
			ws.CutShort = true
			break
		}
		enc.Encode(wline{T: "start", I: i})
		w.Flush()
		pl := GenPlan(p.ID, *fSeed, i, thorough)
		pj, _ := json.Marshal(pl)
		r := Execute(pl, ws.St, false)
		ws.Runs++
		for f, c := range verifrt.Cnt {
			if c > 0 && f < len(verifrt.Names) {
				ws.Funcs[verifrt.Names[f]] += uint64(c)
			}
		}
		for k, v := range r.Known {
			ws.Known[k] += v
		}
		if *fHashes {
			enc.Encode(wline{T: "hash", I: i, Hash: Mix(r.Hash, r.Sched)})
		}
		if r.V != nil {
			enc.Encode(wline{T: "viol", I: i, V: r.V})
			w.Flush()
			break
		}
		h := HashStr(string(pj[bytes.Index(pj, []byte("\"scn\"")):]))
		if r.LogLen > 0 && !seenP[h] {
			seenP[h] = true
			ws.Nontriv++
		}
		seenS[r.Sched] = true
		if len(ws.Samples) < 1 && len(pj) < 6000 {
			ws.Samples = append(ws.Samples, json.RawMessage(fmt.Sprintf(`{"run":%d,"loghash":"%016x","switches":%d,"events":%d,"plan":%s}`, i, r.Hash, r.Switches, r.LogLen, pj)))
		}
		// determinism sample
		if (i / *fWorkers)%24 == 5 {
			r2 := Execute(GenPlan(p.ID, *fSeed, i, thorough), NewStats(), false)
			ws.Reruns++
			if r2.Hash != r.Hash || r2.Sched != r.Sched {
				ws.Mismatch = append(ws.Mismatch, i)
			}
		}
	}
	for h := range seenP {
		ws.Plans = append(ws.Plans, h)
	}
	for h := range seenS {
		ws.Scheds = append(ws.Scheds, h)
	}
	ws.WallMS = time.Since(start).Milliseconds()
	enc.Encode(wline{T: "stats", Stats: ws})
	w.Flush()
}

func doExec() {
	b, err := os.ReadFile(*fExec)
	if err != nil {
		die("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("replay file: %v", err)
	}
	if len(rp.Plans) == 0 {
		die("replay file holds no plan")
	}
	res := execReplay(&rp, *fVerbose)
	out, _ := json.Marshal(struct {
		Class, Msg string
		Hash       uint64
		Known      map[string]int
	}{cls(res), msg(res), res.Hash, res.Known})
	if *fVerbose {
		for _, l := range res.Lines {
			fmt.Println(l)
		}
	}
	fmt.Printf("RESULT %s\n", out)
	if res.V != nil {
		os.Exit(1)
	}
}

func execReplay(rp *Replay, keep bool) *Result {
	var last *Result
	var h uint64
	for _, pl := range rp.Plans {
		if strings.HasPrefix(pl.Scn, "pair:") {
			last = execPair(pl, keep)
		} else {
			last = Execute(pl, NewStats(), keep)
		}
		h = Mix(h, last.Hash)
		if last.V != nil {
			break
		}
	}
	last.Hash = h
	return last
}

// execPair compares this binary's transcript with the portable binary's.
func execPair(pl *Plan, keep bool) *Result {
	q := pl.Clone()
	q.Scn = strings.TrimPrefix(q.Scn, "pair:")
	r := Execute(q, NewStats(), keep)
	if r.V != nil || *fPortable == "" {
		return r
	}
	f, err := os.CreateTemp("", "pair*.json")
	if err != nil {
		die("%v", err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(Replay{Plans: []*Plan{q}})
	f.Write(b)
	f.Close()
	c, m, hash, _ := runExec(*fPortable, f.Name(), 300*time.Second)
	if c != "" {
		r.V = &Violation{"portable-build/" + c, m}
	} else if !Props[pl.Prop].PairOwn && hash != Mix(0, r.Hash) {
		r.V = &Violation{"portable-build/transcript", "assembly and portable builds give different results for the same plan"}
	}
	return r
}

func cls(r *Result) string {
	if r.V == nil {
		return ""
	}
	return r.V.Class
}
func msg(r *Result) string {
	if r.V == nil {
		return ""
	}
	return r.V.Msg
}

// runExec executes a replay file in a fresh process.
func runExec(bin, file string, d time.Duration) (class, msg string, hash uint64, stderr string) {
	args := []string{"-exec", file, "-known", *fKnown}
	if *fPortable != "" && bin != *fPortable {
		args = append(args, "-portable", *fPortable)
	}
	c := exec.Command(bin, args...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(d):
		c.Process.Kill()
		<-done
		return "harness-timeout", "no result in time", 0, ""
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var x struct {
				Class, Msg string
				Hash       uint64
			}
			json.Unmarshal([]byte(l[7:]), &x)
			return x.Class, x.Msg, x.Hash, ""
		}
	}
	e := se.String()
	return "process-crash", firstLines(e, 3), 0, e
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return e
}

type found struct {
	i      int
	worker int
	v      *Violation
	crash  string
}

func parent(p *Prop) {
	start := time.Now()
	n := nruns(p)
	nw := *fWorkers
	if nw > n {
		nw = n
	}
	fmt.Printf("property %s tier %s VERIF_SEED %d: %d runs on %d workers, %d library functions and %d yield points instrumented\n", p.ID, *fTier, *fSeed, n, nw, len(verifrt.Names), verifrt.NYields)
	var mu sync.Mutex
	var all []*workerStats
	var viols []found
	var harness []string
	var wg sync.WaitGroup
	cmds := make([]*exec.Cmd, nw)
	stop := make(chan struct{})
	var once sync.Once
	for w := 0; w < nw; w++ {
		args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-workers", fmt.Sprint(nw), "-worker", fmt.Sprint(w), "-runs", fmt.Sprint(n), "-limit", fmt.Sprint(int(limit() / time.Second)), "-known", *fKnown}
		c := exec.Command(self(), args...)
		so, _ := c.StdoutPipe()
		var se bytes.Buffer
		c.Stderr = &se
		cmds[w] = c
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dec := json.NewDecoder(so)
			last := -1
			got := false
			for {
				var l wline
				if err := dec.Decode(&l); err != nil {
					break
				}
				mu.Lock()
				switch l.T {
				case "start":
					last = l.I
				case "viol":
					viols = append(viols, found{i: l.I, worker: w, v: l.V})
					once.Do(func() { close(stop) })
				case "stats":
					all = append(all, l.Stats)
					got = true
				}
				mu.Unlock()
			}
			io.Copy(io.Discard, so)
			c.Wait()
			if !got {
				mu.Lock()
				select {
				case <-stop:
				default:
					viols = append(viols, found{i: last, worker: w, crash: se.String()})
					once.Do(func() { close(stop) })
				}
				mu.Unlock()
			}
		}(w)
	}
	go func() {
		<-stop
		time.Sleep(3 * time.Second)
		for _, c := range cmds {
			c.Process.Kill()
		}
	}()
	hard := time.AfterFunc(limit()+120*time.Second, func() {
		fmt.Println("watchdog: workers did not finish")
		for _, c := range cmds {
			c.Process.Kill()
		}
		os.Exit(2)
	})
	wg.Wait()
	hard.Stop()

	// paired runs on the portable build
	pairRuns := 0
	if len(viols) == 0 && p.PairBin && *fPortable != "" {
		v, k := pairSearch(p, n)
		pairRuns = k
		if v != nil {
			viols = append(viols, *v)
		}
	}
	// determinism: in-process mismatches are rechecked in fresh processes
	mism := 0
	for _, s := range all {
		for _, i := range s.Mismatch {
			mism++
			if mism > 3 {
				continue
			}
			f := writeTemp(&Replay{Plans: []*Plan{GenPlan(p.ID, *fSeed, i, *fTier == "thorough")}})
			_, _, h1, _ := runExec(self(), f, 200*time.Second)
			_, _, h2, _ := runExec(self(), f, 200*time.Second)
			os.Remove(f)
			if h1 != h2 {
				harness = append(harness, fmt.Sprintf("run %d is not deterministic", i))
			}
		}
	}
	code := 0
	nv := 0
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].i < viols[j].i })
		ok := false
		var why []string
		for _, v := range viols {
			rp, reason := confirm(p, v)
			if rp == nil {
				why = append(why, reason)
				continue
			}
			path := saveReplay(p, rp)
			fmt.Printf("violation class %s: %s\n", rp.Class, rp.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			ok = true
			nv++
			break
		}
		if ok {
			code = 1
		} else {
			harness = append(harness, why...)
		}
	}
	if code == 0 && len(harness) > 0 {
		for _, h := range harness {
			fmt.Println("HARNESS ERROR:", h)
		}
		code = 2
	}
	writeEvidence(p, all, start, nv, mism, pairRuns)
	if code == 0 {
		keys := map[string]int{}
		for _, s := range all {
			for k, v := range s.Known {
				keys[k] += v
			}
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", p.ID, KnownListed[p.ID+"/"+k], keys[k])
		}
		fmt.Printf("OK property=%s: held on everything explored\n", p.ID)
	}
	os.Exit(code)
}

func writeTemp(rp *Replay) string {
	f, err := os.CreateTemp("", "simrun*.json")
	if err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	return f.Name()
}

func try(rp *Replay, d time.Duration) (string, string) {
	f := writeTemp(rp)
	defer os.Remove(f)
	c, m, _, _ := runExec(self(), f, d)
	return c, m
}

// confirm reproduces a violation in a fresh process and minimises it.
func confirm(p *Prop, v found) (*Replay, string) {
	th := *fTier == "thorough"
	if v.i < 0 {
		return nil, "worker failed before its first run: " + firstLines(v.crash, 6)
	}
	mk := func(i int) *Plan {
		pl := GenPlan(p.ID, *fSeed, i, th)
		if v.v != nil && strings.HasPrefix(v.v.Class, "portable-build/") {
			pl.Scn = "pair:" + pl.Scn
		}
		return pl
	}
	rp := &Replay{Plans: []*Plan{mk(v.i)}}
	c, m := try(rp, 120*time.Second)
	if c == "" || c == "harness-timeout" {
		// state left by earlier runs of that worker may be needed
		nw := *fWorkers
		if n := nruns(p); nw > n {
			nw = n
		}
		var idx []int
		for i := v.worker; i <= v.i; i += nw {
			idx = append(idx, i)
		}
		rp = nil
		for k := 1; ; k *= 2 {
			if k > len(idx) {
				k = len(idx)
			}
			q := &Replay{Note: "the violation needs library state left by the earlier plans"}
			for _, i := range idx[len(idx)-k:] {
				q.Plans = append(q.Plans, mk(i))
			}
			c, m = try(q, 300*time.Second)
			if c != "" && c != "harness-timeout" {
				rp = q
				break
			}
			if k == len(idx) {
				break
			}
		}
		if rp == nil {
			d := v.crash
			if v.v != nil {
				d = v.v.Class + ": " + v.v.Msg
			}
			return nil, fmt.Sprintf("run %d failed in a worker but not in a fresh process: %s", v.i, firstLines(d, 8))
		}
	}
	if c == "process-crash" && !strings.Contains(m, "goroutine") && !strings.Contains(m, "fatal") && !strings.Contains(m, "SIG") && !strings.Contains(m, "panic") && !strings.Contains(m, "unexpected") && !strings.Contains(m, "runtime") {
		return nil, "process ended abnormally: " + m
	}
	rp.Class, rp.Message = c, m
	return minimise(rp), ""
}

func minimise(rp *Replay) *Replay {
	budget := 45 * time.Second
	if *fTier == "thorough" {
		budget = 240 * time.Second
	}
	end := time.Now().Add(budget)
	tested := 0
	// evaluate a batch in parallel, take the first that still fails the same way
	first := func(c []*Replay) *Replay {
		for a := 0; a < len(c) && time.Now().Before(end); a += 8 {
			b := a + 8
			if b > len(c) {
				b = len(c)
			}
			ok := make([]string, b-a)
			var wg sync.WaitGroup
			cl := make([]string, b-a)
			for i := a; i < b; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					cl[i-a], ok[i-a] = try(c[i], 60*time.Second)
				}(i)
			}
			wg.Wait()
			tested += b - a
			for i := a; i < b; i++ {
				if cl[i-a] == rp.Class {
					c[i].Message = ok[i-a]
					return c[i]
				}
			}
		}
		return nil
	}
	cp := func(pl []*Plan) *Replay {
		return &Replay{Class: rp.Class, Message: rp.Message, Plans: pl, Note: rp.Note}
	}
	for len(rp.Plans) > 1 {
		var c []*Replay
		n := len(rp.Plans) - 1
		for sz := n; sz >= 1; sz /= 2 {
			for a := 0; a < n; a += sz {
				b := a + sz
				if b > n {
					b = n
				}
				c = append(c, cp(append(append([]*Plan(nil), rp.Plans[:a]...), rp.Plans[b:]...)))
			}
		}
		r := first(c)
		if r == nil {
			break
		}
		rp = r
	}
	for time.Now().Before(end) {
		var c []*Replay
		for k := range rp.Plans {
			for _, q := range Candidates(rp.Plans[k]) {
				pl := append([]*Plan(nil), rp.Plans...)
				pl[k] = q
				c = append(c, cp(pl))
			}
		}
		r := first(c)
		if r == nil {
			break
		}
		rp = r
	}
	fmt.Printf("minimised with %d candidate executions\n", tested)
	// the final file must reproduce
	c, m := try(rp, 120*time.Second)
	if c == rp.Class {
		rp.Message = m
	}
	return rp
}

func saveReplay(p *Prop, rp *Replay) string {
	b, _ := json.MarshalIndent(rp, "", " ")
	dir := *fReplays
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", p.ID, uint32(HashStr(string(b)))))
	os.WriteFile(path, b, 0o644)
	return path
}

func pairSearch(p *Prop, n int) (*found, int) {
	k := n / 8
	if k < 8 {
		k = 8
	}
	if k > n {
		k = n
	}
	end := time.Now().Add(limit() / 4)
	type res struct {
		i int
		c string
		m string
	}
	jobs := make(chan int)
	out := make(chan res)
	var wg sync.WaitGroup
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				pl := GenPlan(p.ID, *fSeed, i, *fTier == "thorough")
				pl.Scn = "pair:" + pl.Scn
				c, m := try(&Replay{Plans: []*Plan{pl}}, 200*time.Second)
				out <- res{i, c, m}
			}
		}()
	}
	go func() {
		for i := 0; i < k && time.Now().Before(end); i++ {
			jobs <- i
		}
		close(jobs)
		wg.Wait()
		close(out)
	}()
	var f *found
	done := 0
	for r := range out {
		done++
		if r.c != "" && r.c != "harness-timeout" && (f == nil || r.i < f.i) {
			f = &found{i: r.i, worker: r.i, v: &Violation{r.c, r.m}}
		}
	}
	return f, done
}

func writeEvidence(p *Prop, all []*workerStats, start time.Time, nv, mism, pairRuns int) {
	if *fEvidence == "" {
		return
	}
	st := NewStats()
	plans := map[uint64]bool{}
	scheds := map[uint64]bool{}
	funcs := map[string]uint64{}
	runs, reruns := 0, 0
	cut := false
	var samples []json.RawMessage
	var wall int64
	for _, s := range all {
		runs += s.Runs
		reruns += s.Reruns
		cut = cut || s.CutShort
		wall += s.WallMS
		for _, h := range s.Plans {
			plans[h] = true
		}
		for _, h := range s.Scheds {
			scheds[h] = true
		}
		for k, v := range s.Funcs {
			funcs[k] += v
		}
		if len(samples) < 2 {
			samples = append(samples, s.Samples...)
		}
		for k, v := range s.St.Faults {
			st.Faults[k] += v
		}
		for k, v := range s.St.Probes {
			st.Probes[k] += v
		}
		for k, v := range s.St.Ops {
			st.Ops[k] += v
		}
		st.Steps += s.St.Steps
		st.Switches += s.St.Switches
		st.Preempts += s.St.Preempts
		st.SimTime += s.St.SimTime
	}
	el := time.Since(start).Seconds()
	var zero []string
	for _, k := range p.Probes {
		if st.Probes[k] == 0 && st.Faults[k] == 0 && st.Ops[k] == 0 {
			zero = append(zero, k)
		}
	}
	level := "exploration"
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": level, "wall_s": el, "violations": nv,
		"coverage": map[string]interface{}{
			"evaluations":                    runs,
			"distinct_nontrivial":            len(plans),
			"rule":                           "one evaluation is one simulated run of a plan generated from VERIF_SEED and the run index; " + p.Rule + "; distinct means distinct plans (hash of the plan without its seed) that performed at least one logged operation",
			"samples":                        samples,
			"runs_per_hour":                  float64(runs) / el * 3600, // every run has its own seed
			"simulated_time_units":           st.SimTime,
			"faults_injected":                st.Faults,
			"operations":                     st.Ops,
			"probes":                         st.Probes,
			"probes_never_hit":               zero,
			"library_statements_scheduled":   st.Steps,
			"context_switches":               st.Switches,
			"planned_preemptions_taken":      st.Preempts,
			"distinct_interleavings":         len(scheds),
			"interleaving_measure":           "hash of the sequence of context switches (task, library statements executed so far) of a run",
			"library_functions_entered":      len(funcs),
			"library_functions_instrumented": len(verifrt.Names),
			"determinism_reruns":             reruns,
			"determinism_mismatches":         mism,
			"portable_build_pairs":           pairRuns,
			"stopped_by_wall_clock":          cut,
			"components_real":                p.Real,
			"components_simulated":           p.Stub,
		},
		"assumptions": []string{
			"between two yield points of instrumented code no other task runs; assembly routines and standard library calls are atomic",
			"sampling, not enumeration: absence of a violation is evidence over the runs counted here",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	if err := os.WriteFile(*fEvidence, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
