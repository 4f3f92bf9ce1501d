package engine

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/henrydcase/nobs/verifrt"
)

// abort unwinds a task whose node crashed or which was abandoned.
type abort struct{}

// stop unwinds a task because the run is over (violation found, step limit).
type stopRun struct{}

type event struct {
	at  int64
	seq uint64
	fn  func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x interface{}) { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() interface{}   { o := *h; n := len(o); x := o[n-1]; *h = o[:n-1]; return x }

const (
	tReady = iota
	tBlocked
	tDone
)

// Task is one simulated goroutine.
type Task struct {
	S      *Sim
	ID     int
	Name   string
	Node   *Node
	Plan   *TaskPlan
	state  int
	wake   chan struct{}
	kill   bool
	cond   func() bool
	locks  []func()
	fn     func(*Task)
	parent *Task
	Err    interface{} // unexpected panic
	Lib    bool        // inside a library operation
	Gone   bool        // abandoned or crashed
	ops    int
	// Ring holds objects the program under test keeps using; it is volatile.
	Ring map[interface{}]interface{}
}

// Node is one simulated machine.
type Node struct {
	ID    int
	Up    bool
	Epoch int
	Off   []int
	Disk  map[string][]byte
	inbox map[string][]Msg
	boot  func(*Node)
	ops   int
	S     *Sim
}

// Stats counts what happened.
type Stats struct {
	Faults   map[string]int64
	Probes   map[string]int64
	Ops      map[string]int64
	Steps    int64
	Switches int64
	SimTime  int64
	Preempts int64
	Runs     int64
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Ops: map[string]int64{}}
}

// Sim is one run.
type Sim struct {
	Plan  *Plan
	St    *Stats
	Nodes []*Node
	tasks []*Task
	cur   *Task
	back  chan struct{}
	next  *Task
	now   int64
	seq   uint64
	q     evHeap

	pre       int // next entry of Plan.Pre
	picks     int
	netK      int
	diskK     int
	budget    int64 // statements until the next planned preemption (or big)
	limit     int64 // statements left in this run
	armed     int64 // value C was last set to
	pend      []*TrapPlan
	pendIn    int64
	trapsByID map[int][]*TrapPlan
	quant     int64
	Log       *EventLog
	V         *Violation
	over      bool
	schedHash uint64
	noPreempt int
	aborting  bool
	Known     map[string]int
	features  []bool
	trans     int
	steps     int64
	cntSave   []uint32
	trapSave  []uint32
}

// EventLog is the run's history: a running hash and, when wanted, its text.
type EventLog struct {
	h     uint64
	n     int
	Keep  bool
	Lines []string
	Max   int
}

func (l *EventLog) Add(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	l.h = Mix(l.h, h.Sum64())
	l.n++
	if l.Keep {
		l.Lines = append(l.Lines, s)
		if l.Max > 0 && len(l.Lines) > 2*l.Max {
			l.Lines = append([]string(nil), l.Lines[len(l.Lines)-l.Max:]...)
		}
	}
}
func (l *EventLog) Hash() uint64 { return l.h }
func (l *EventLog) Len() int     { return l.n }

// StepLimit bounds the statements of one run; reaching it means an operation
// does not terminate.
const DefaultStepLimit = int64(4e9)

// fair quantum: a task spinning on another one's progress is preempted.
const fairQuantum = int64(50e6)

func NewSim(p *Plan, st *Stats) *Sim {
	s := &Sim{Plan: p, St: st, back: make(chan struct{}), Log: &EventLog{}, limit: DefaultStepLimit, Known: map[string]int{}}
	n := len(p.Nodes)
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		nd := &Node{ID: i, Up: true, Disk: map[string][]byte{}, inbox: map[string][]Msg{}, S: s}
		if i < len(p.Nodes) {
			nd.Off = p.Nodes[i].Off
		}
		s.Nodes = append(s.Nodes, nd)
	}
	return s
}

// SetLimit changes the statement limit of the run.
func (s *Sim) SetLimit(n int64) { s.limit = n }

func (s *Sim) Now() int64 { return s.now }

// After schedules an event.
func (s *Sim) After(d int64, fn func()) {
	if d < 0 {
		d = 0
	}
	s.seq++
	heap.Push(&s.q, event{s.now + d, s.seq, fn})
}

// Spawn creates a task.
func (s *Sim) Spawn(name string, nd *Node, tp *TaskPlan, fn func(*Task)) *Task {
	t := &Task{S: s, ID: len(s.tasks), Name: name, Node: nd, Plan: tp, wake: make(chan struct{}), fn: fn}
	s.tasks = append(s.tasks, t)
	go t.main()
	return t
}

func (t *Task) main() {
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abort, stopRun:
			default:
				t.Err = r
				if t.S.V == nil {
					st := string(debug.Stack())
					t.S.Violate("panic", fmt.Sprintf("unexpected panic in task %s: %v", t.Name, r)+" at "+frames(st))
				}
			}
		}
		if t.kill {
			for _, r := range t.locks {
				if r != nil {
					r()
				}
			}
		}
		t.locks = nil
		t.S.aborting = false
		t.state = tDone
		t.S.back <- struct{}{}
	}()
	if t.kill || t.S.over {
		return
	}
	t.fn(t)
}

func frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "henrydcase/nobs") && !strings.Contains(l, "verifrt") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.SplitN(l, "(", 2)[0])
			if len(out) >= 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Violate records the first violation; the run then stops.
func (s *Sim) Violate(class, msg string) {
	if s.V == nil {
		s.V = &Violation{class, msg}
		s.Log.Add("VIOLATION " + class + " " + msg)
	}
	s.over = true
}

// Fail records a violation from inside a task and unwinds it.
func (t *Task) Fail(class, f string, a ...interface{}) {
	t.S.Violate(class, fmt.Sprintf(f, a...))
	panic(stopRun{})
}

func (s *Sim) arm() {
	n := s.limit
	if s.pre < len(s.Plan.Pre) && s.budget < n {
		n = s.budget
	}
	if s.pendIn >= 0 && len(s.pend) > 0 && s.pendIn < n {
		n = s.pendIn
	}
	if s.quant < n {
		n = s.quant
	}
	if n < 0 {
		n = 0
	}
	s.armed = n
	verifrt.C = n
}

// account books the statements executed since arm.
func (s *Sim) account() {
	used := s.armed - verifrt.C
	if used < 0 {
		used = 0
	}
	s.armed = verifrt.C
	s.limit -= used
	s.budget -= used
	if len(s.pend) > 0 {
		s.pendIn -= used
	}
	s.quant -= used
	s.St.Steps += used
	s.steps += used
}

func (s *Sim) slow() {
	if s.cur == nil || s.noPreempt > 0 || s.aborting {
		verifrt.C = 1 << 40
		s.armed = 1 << 40
		return
	}
	s.account()
	t := s.cur
	if s.limit <= 0 {
		s.Violate("no-progress", "an operation did not finish within the statement limit; task "+t.Name)
		panic(stopRun{})
	}
	if len(s.pend) > 0 && s.pendIn <= 0 {
		tp := s.pend[0]
		s.pend = s.pend[1:]
		if len(s.pend) > 0 {
			s.pendIn = int64(s.pend[0].After)
		}
		switch tp.Act {
		case "crash":
			s.St.Faults["crash-inside-operation"]++
			s.arm()
			s.crash(t.Node, int64(tp.Down))
		case "abandon":
			if t.parent != nil { // nobody can stop a goroutine the library started
				break
			}
			s.St.Faults["task-abandoned-inside-operation"]++
			t.Gone = true
			t.kill = true
			s.Log.Add(fmt.Sprintf("abandon task %d in %s", t.ID, tp.Fn))
			s.aborting = true
			s.arm()
			panic(abort{})
		default:
			s.preempt(t, tp.Pick)
		}
		s.arm()
		return
	}
	if s.pre < len(s.Plan.Pre) && s.budget <= 0 {
		pick := s.Plan.Pre[s.pre].Pick
		s.pre++
		if s.pre < len(s.Plan.Pre) {
			s.budget = int64(s.Plan.Pre[s.pre].Gap)
		}
		s.preempt(t, pick)
		s.arm()
		return
	}
	if s.quant <= 0 {
		s.quant = fairQuantum
		s.preempt(t, 0)
	}
	s.arm()
}

func (s *Sim) trap(id int) {
	l := s.trapsByID[id]
	if len(l) == 0 || s.cur == nil {
		return
	}
	tp := l[0]
	s.trapsByID[id] = l[1:]
	if len(l) > 1 {
		verifrt.TrapAt[id] = uint32(l[1].N)
	} else {
		verifrt.TrapAt[id] = 0
	}
	if s.noPreempt > 0 {
		return
	}
	s.account()
	s.pend = append(s.pend, tp)
	if len(s.pend) == 1 {
		s.pendIn = int64(tp.After)
	}
	s.arm()
}

// preempt parks t in favour of another runnable task.
func (s *Sim) preempt(t *Task, pick int) {
	o := s.others(t)
	if len(o) == 0 {
		return
	}
	if pick < 0 {
		pick = -pick
	}
	s.next = o[pick%len(o)]
	s.St.Preempts++
	if t.Lib {
		s.St.Probes["preempted-inside-library-operation"]++
	}
	t.park()
}

func (s *Sim) others(t *Task) []*Task {
	var o []*Task
	for _, x := range s.tasks {
		if x != t && x.state == tReady {
			o = append(o, x)
		}
	}
	return o
}

func (t *Task) park() {
	s := t.S
	s.cur = nil
	s.back <- struct{}{}
	<-t.wake
	if t.kill {
		s.aborting = true
		panic(abort{})
	}
	if s.over {
		panic(stopRun{})
	}
}

// Wait blocks the task until cond holds.
func (t *Task) Wait(cond func() bool) {
	if cond() {
		return
	}
	t.cond = cond
	t.state = tBlocked
	t.S.account()
	t.park()
	t.cond = nil
	t.S.arm()
}

// Sleep blocks for d units of simulated time.
func (t *Task) Sleep(d int64) {
	s := t.S
	at := s.now + d
	s.After(d, func() {})
	t.Wait(func() bool { return s.now >= at })
}

// Boundary is called between operations: time passes, a planned switch or a
// crash may happen here.
func (t *Task) Boundary() {
	s := t.S
	if s.over {
		panic(stopRun{})
	}
	if t.kill {
		s.aborting = true
		panic(abort{})
	}
	t.ops++
	s.now++
	s.account()
	if t.Node != nil {
		t.Node.ops++
		for i := range s.Plan.Crash {
			c := &s.Plan.Crash[i]
			if c.Node == t.Node.ID && c.Op == t.Node.ops {
				s.St.Faults["crash-between-operations"]++
				s.crash(t.Node, int64(c.Down))
			}
		}
	}
	// due events
	s.fire()
	if s.picks < len(s.Plan.Picks) {
		p := s.Plan.Picks[s.picks]
		s.picks++
		if p > 0 {
			o := s.others(t)
			if len(o) > 0 {
				s.next = o[(p-1)%len(o)]
				t.park()
			}
		}
	}
	s.arm()
}

func (s *Sim) fire() {
	for len(s.q) > 0 && s.q[0].at <= s.now {
		e := heap.Pop(&s.q).(event)
		e.fn()
	}
	s.unblock()
}

func (s *Sim) unblock() {
	for _, t := range s.tasks {
		if t.state == tBlocked && (t.kill || s.over || t.cond != nil && t.cond()) {
			t.state = tReady
		}
	}
}

// crash kills every task of the node; it restarts after down.
func (s *Sim) crash(nd *Node, down int64) {
	if nd == nil || !nd.Up {
		return
	}
	nd.Up = false
	s.Log.Add(fmt.Sprintf("crash node %d", nd.ID))
	nd.inbox = map[string][]Msg{}
	if down < 1 {
		down = 1
	}
	s.After(down, func() {
		nd.Up = true
		nd.Epoch++
		s.Log.Add(fmt.Sprintf("restart node %d", nd.ID))
		if nd.boot != nil {
			nd.boot(nd)
		}
	})
	self := false
	for _, t := range s.tasks {
		if t.Node == nd && t.state != tDone {
			t.kill = true
			t.Gone = true
			if t.state == tBlocked {
				t.state = tReady
			}
			if t == s.cur {
				self = true
			}
		}
	}
	if self {
		s.aborting = true
		panic(abort{})
	}
}

// OnBoot registers what a node runs when it (re)starts, and runs it now.
func (nd *Node) OnBoot(fn func(*Node)) {
	nd.boot = fn
	fn(nd)
}

// SetTraps arms the plan's traps from the current entry counts.
func (s *Sim) setTraps() {
	for i := range verifrt.Cnt {
		verifrt.Cnt[i] = 0
		verifrt.TrapAt[i] = 0
	}
	s.trapsByID = map[int][]*TrapPlan{}
	for i := range s.Plan.Traps {
		tp := &s.Plan.Traps[i]
		id := FnID(tp.Fn)
		if id < 0 || tp.N < 1 {
			continue
		}
		s.trapsByID[id] = append(s.trapsByID[id], tp)
	}
	for id, l := range s.trapsByID {
		sort.SliceStable(l, func(i, j int) bool { return l[i].N < l[j].N })
		// one trap per entry
		k := l[:1]
		for _, x := range l[1:] {
			if x.N != k[len(k)-1].N {
				k = append(k, x)
			}
		}
		s.trapsByID[id] = k
		verifrt.TrapAt[id] = uint32(k[0].N)
	}
}

var fnIDs map[string]int

// FnID maps a library function name to its instrumentation id.
func FnID(name string) int {
	if fnIDs == nil {
		fnIDs = map[string]int{}
		for i, n := range verifrt.Names {
			if _, ok := fnIDs[n]; !ok {
				fnIDs[n] = i
			}
		}
	}
	if id, ok := fnIDs[name]; ok {
		return id
	}
	return -1
}

// ResetSchedule restarts preemption plan and entry counts (used when one run
// has a solo phase and an interleaved phase).
func (s *Sim) ResetSchedule() {
	s.pre, s.picks = 0, 0
	if len(s.Plan.Pre) > 0 {
		s.budget = int64(s.Plan.Pre[0].Gap)
	}
	s.pend = nil
	s.setTraps()
}

// Quiet runs fn without any preemption, trap or accounting (oracle work on
// library objects).
func (s *Sim) Quiet(fn func()) {
	s.account()
	s.noPreempt++
	c := verifrt.C
	verifrt.C = 1 << 60
	s.cntSave = append(s.cntSave[:0], verifrt.Cnt[:]...)
	s.trapSave = append(s.trapSave[:0], verifrt.TrapAt[:]...)
	for i := range verifrt.TrapAt {
		verifrt.TrapAt[i] = 0
	}
	ran := saveRan()
	defer func() {
		loadRan(ran)
		verifrt.Drop()
		copy(verifrt.Cnt[:], s.cntSave)
		copy(verifrt.TrapAt[:], s.trapSave)
		s.noPreempt--
		verifrt.C = c
		s.armed = c
	}()
	fn()
	verifrt.Drain()
}

// Timing is what an observer with a clock sees of an operation: the simulated
// time it takes, one tick for each statement, and the way it went.
type Timing struct {
	N    int64
	H    uint64
	Path []int32
}

// Timed runs fn outside the schedule on the simulated clock.
func (s *Sim) Timed(fn func()) (tm Timing) {
	s.Quiet(func() {
		verifrt.Trace = func(id int) {
			tm.N++
			tm.H = (tm.H ^ uint64(int64(id))) * 0x9e3779b97f4a7c15
			tm.H ^= tm.H >> 29
			if id < 0 {
				tm.Path = append(tm.Path, int32(^id))
			}
		}
		c := verifrt.C
		verifrt.C = 0
		verifrt.Tracing = true
		defer func() {
			verifrt.Tracing = false
			verifrt.C = c
		}()
		fn()
		verifrt.Drain()
	})
	for _, id := range tm.Path { // for the record of functions entered
		if verifrt.Cnt[id]++; verifrt.Cnt[id] == verifrt.TrapAt[id] {
			verifrt.Cnt[id]--
		}
	}
	s.St.Steps += tm.N
	return
}

// Differs says where two timings part, or nothing.
func (a Timing) Differs(b Timing) string {
	if a.N == b.N && a.H == b.H {
		return ""
	}
	last := "the start"
	for i := range a.Path {
		if i >= len(b.Path) || a.Path[i] != b.Path[i] {
			break
		}
		last = verifrt.Names[a.Path[i]]
	}
	return fmt.Sprintf("%d ticks against %d, the ways part after the entry of %s", a.N, b.N, last)
}

// Run executes until every task is done or a violation is found.
func (s *Sim) Run() {
	verifrt.Slow = s.slow
	verifrt.Trap = s.trap
	verifrt.Wait = func(c func() bool) {
		if s.cur == nil {
			panic("verif: library blocked outside a task")
		}
		s.cur.Wait(c)
	}
	verifrt.Aborting = func() bool { return s.aborting }
	verifrt.Inline = func() bool { return s.noPreempt > 0 || s.cur == nil }
	verifrt.Held = func(rel func(), d int) {
		t := s.cur
		if t == nil {
			return
		}
		if d > 0 {
			t.locks = append(t.locks, rel)
		} else if n := len(t.locks); n > 0 {
			t.locks = t.locks[:n-1]
		}
	}
	verifrt.Spawn = func(fn func()) {
		p := s.cur
		var nd *Node
		name := "lib-go"
		if p != nil {
			nd = p.Node
			name = p.Name + "-go"
		}
		c := s.Spawn(name, nd, nil, func(*Task) { fn() })
		c.parent = p
	}
	s.ResetSchedule()
	s.quant = fairQuantum
	var last *Task
	for {
		s.fire()
		var t *Task
		if s.next != nil && s.next.state == tReady {
			t = s.next
		}
		s.next = nil
		if t == nil {
			// prefer to continue the last task, else the lowest id: no choice is random
			var first *Task
			for _, x := range s.tasks {
				if x.state == tReady {
					if first == nil {
						first = x
					}
					if x == last {
						first = x
						break
					}
				}
			}
			t = first
		}
		if t == nil {
			if s.over && !s.anyLive() {
				break
			}
			if s.over {
				s.unblock()
				if !s.anyReady() {
					break
				}
				continue
			}
			if len(s.q) > 0 {
				if s.q[0].at > s.now {
					s.now = s.q[0].at
				}
				continue
			}
			if s.anyLive() {
				var w []string
				for _, x := range s.tasks {
					if x.state == tBlocked {
						w = append(w, x.Name)
					}
				}
				s.Violate("deadlock", "tasks blocked for ever: "+strings.Join(w, ","))
				s.unblock()
				continue
			}
			break
		}
		if t != last {
			s.St.Switches++
			s.trans++
			s.schedHash = Mix(s.schedHash, uint64(t.ID)<<48^uint64(s.steps))
			if t.Node != nil {
				s.applyCPU(t.Node)
			}
		}
		last = t
		s.cur = t
		s.quant = fairQuantum
		s.arm()
		t.wake <- struct{}{}
		<-s.back
		s.account()
		s.illegal(t)
		s.cur = nil
	}
	for i := range verifrt.TrapAt {
		verifrt.TrapAt[i] = 0
	}
	verifrt.C = 1 << 60
	verifrt.Slow, verifrt.Trap, verifrt.Wait, verifrt.Spawn, verifrt.Held, verifrt.Aborting, verifrt.Inline = nil, nil, nil, nil, nil, nil, nil
	s.restoreCPU()
	s.St.SimTime += s.now
}

func (s *Sim) anyLive() bool {
	for _, t := range s.tasks {
		if t.state != tDone {
			return true
		}
	}
	return false
}
func (s *Sim) anyReady() bool {
	for _, t := range s.tasks {
		if t.state == tReady {
			return true
		}
	}
	return false
}

// SchedHash identifies the interleaving of the run.
func (s *Sim) SchedHash() uint64 { return s.schedHash }

// Switched is the number of context switches in this run.
func (s *Sim) Switched() int { return s.trans }

// Lib runs a library operation in the current task. A panic of the library
// (or of a simulated reader under it) is returned; crashes pass through.
func (t *Task) Op(fn func()) (pv interface{}) {
	was := t.Lib // a random source may itself call the library
	t.Lib = true
	n := len(t.locks)
	defer func() {
		t.Lib = was
		if r := recover(); r != nil {
			switch r.(type) {
			case abort, stopRun:
				panic(r)
			}
			pv = r
			// like a real goroutine, it keeps locks it did not unlock by defer
			_ = n
			if pv == nil {
				pv = "nil panic"
			}
		}
	}()
	fn()
	return nil
}

// Must runs a library operation that may not panic.
func (t *Task) Must(class string, fn func()) {
	was := t.Lib
	t.Lib = true
	defer func() {
		t.Lib = was
		if r := recover(); r != nil {
			switch r.(type) {
			case abort, stopRun:
				panic(r)
			}
			t.S.Violate(class+"/panic", fmt.Sprintf("unexpected panic: %v at %s", r, frames(string(debug.Stack()))))
			panic(stopRun{})
		}
	}()
	fn()
}

// Stop reports whether the run is over.
func (s *Sim) Over() bool { return s.over }

// Logf adds to the history.
func (s *Sim) Logf(f string, a ...interface{}) { s.Log.Add(fmt.Sprintf(f, a...)) }

// Tasks lists the tasks.
func (s *Sim) Tasks() []*Task { return s.tasks }

// PlanIndex is the index of the task's plan in Plan.Tasks, -1 if it has none.
func (t *Task) PlanIndex() int {
	for i := range t.S.Plan.Tasks {
		if t.Plan == &t.S.Plan.Tasks[i] {
			return i
		}
	}
	return -1
}
