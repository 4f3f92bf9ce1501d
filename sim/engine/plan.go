package engine

import (
	"encoding/json"
)

// Op is one operation of a task. Its meaning is the scenario's business.
type Op struct {
	K string   `json:"k"`
	I []int    `json:"i,omitempty"`
	E *EntPlan `json:"e,omitempty"`
}

// Arg returns the i-th integer argument, 0 if absent.
func (o *Op) Arg(i int) int {
	if i < len(o.I) {
		return o.I[i]
	}
	return 0
}

// EntFault is a fault of an entropy device at a byte offset of its stream.
type EntFault struct {
	At   int    `json:"at"`
	Kind string `json:"k"` // err, eof, eofdata, errdata, panic, zero, stall
}

// EntPlan describes an entropy device.
type EntPlan struct {
	Seed  int        `json:"s"`
	Mode  int        `json:"m,omitempty"` // 0 uniform 1 zeros 2 ones 3 biased small 4 boundary ...
	Len   int        `json:"l,omitempty"` // bytes in Mode before turning uniform (0: 64)
	Chunk []int      `json:"c,omitempty"` // sizes of successive deliveries, cyclic
	Fault []EntFault `json:"f,omitempty"`
}

// Fate is what happens to the k-th message sent.
type Fate struct {
	Drop  bool  `json:"drop,omitempty"`
	Dup   int   `json:"dup,omitempty"`
	Delay int   `json:"delay,omitempty"`
	Flip  []int `json:"flip,omitempty"`
	Cut   int   `json:"cut,omitempty"`
	Grow  int   `json:"grow,omitempty"`
	Mode  int   `json:"mode,omitempty"` // scenario specific damage
}

// DiskFate is what happens to the k-th disk write.
type DiskFate struct {
	Lost bool `json:"lost,omitempty"`
	Torn int  `json:"torn,omitempty"` // keep only this many bytes (+1)
	Fail bool `json:"fail,omitempty"`
	Rot  int  `json:"rot,omitempty"` // flip this bit (+1)
}

// Partition isolates Mask from the rest during [From,To).
type Partition struct {
	Mask int `json:"mask"`
	From int `json:"from"`
	To   int `json:"to"`
}

// Crash stops a node.
type Crash struct {
	Node  int `json:"n"`
	Op    int `json:"op"`    // at the node's Op-th operation boundary
	Down  int `json:"down"`  // time until restart
	Steps int `json:"steps"` // statements into that operation (0: at the boundary)
}

// Pre is a preemption after Gap more statements.
type Pre struct {
	Gap  int `json:"g"`
	Pick int `json:"p"`
}

// TrapPlan preempts (or stops) at the Nth entry of a library function, After statements in.
type TrapPlan struct {
	Fn    string `json:"fn"`
	N     int    `json:"n"`
	After int    `json:"a,omitempty"`
	Pick  int    `json:"p,omitempty"`
	Act   string `json:"act,omitempty"` // "" preempt, "crash", "abandon"
	Down  int    `json:"down,omitempty"`
}

type NodePlan struct {
	Off []int `json:"off,omitempty"` // features switched off, see cpu.go
}

type TaskPlan struct {
	Node int            `json:"node,omitempty"`
	P    map[string]int `json:"p,omitempty"`
	Ops  []Op           `json:"ops,omitempty"`
}

// Plan is one complete, randomness-free description of a run.
type Plan struct {
	Prop  string         `json:"prop"`
	Seed  uint64         `json:"seed"`
	Scn   string         `json:"scn"`
	P     map[string]int `json:"p,omitempty"`
	Nodes []NodePlan     `json:"nodes,omitempty"`
	Tasks []TaskPlan     `json:"tasks,omitempty"`
	Net   []Fate         `json:"net,omitempty"`
	Parts []Partition    `json:"parts,omitempty"`
	Disk  []DiskFate     `json:"disk,omitempty"`
	Crash []Crash        `json:"crash,omitempty"`
	Pre   []Pre          `json:"pre,omitempty"`
	Traps []TrapPlan     `json:"traps,omitempty"`
	Picks []int          `json:"picks,omitempty"`
}

func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// Replay is a sequence of plans executed in one process; normally one.
type Replay struct {
	Class   string  `json:"class"`
	Message string  `json:"message"`
	Plans   []*Plan `json:"plans"`
	Note    string  `json:"note,omitempty"`
}

// Violation describes a broken property.
type Violation struct {
	Class string // stable identifier of what is broken
	Msg   string
}
