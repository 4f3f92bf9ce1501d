package scn

import (
	"fmt"

	"github.com/henrydcase/nobs/utils"
	"github.com/henrydcase/nobs/verifrt"
	. "verifsim/engine"
)

// X04: the detection code runs against a simulated CPUID instruction. The
// simulated machine has several cores; the process may be moved to another
// core between any two CPUID instructions, and every core reports its own APIC
// id, and whatever else the leaves contain is arbitrary.

func hwCPUID(leaf, sub uint32) (a, b, c, d uint32)

type simCPU struct {
	s     *Sim
	p     map[string]int
	r     *Rng
	core  uint32
	calls int
	seed  uint64
}

func (c *simCPU) word(leaf, sub, reg uint32) uint32 {
	u := uint32(Mix(c.seed, uint64(leaf)<<32|uint64(sub)<<8|uint64(reg)))
	switch c.p["fill"] {
	case 1:
		return 0
	case 2:
		return ^uint32(0)
	}
	return u
}

func put(w uint32, n uint, v int) uint32 {
	w &^= 1 << n
	if v != 0 {
		w |= 1 << n
	}
	return w
}

func (c *simCPU) cpuid(eax, ecx uint32) (a, b, cc, d uint32) {
	c.calls++
	if c.p["mig"] > 0 && c.r.N(100) < c.p["mig"] {
		n := uint32(c.r.N(c.p["cores"]))
		if n != c.core {
			c.core = n
			c.s.St.Faults["migrated-between-cpuid"]++
		}
	}
	max := uint32(c.p["max"])
	leaf := eax
	switch {
	case eax >= 0x80000000:
		if eax > 0x80000008 {
			leaf = max
		}
	case eax > max:
		// beyond the highest basic leaf: Intel repeats it, AMD returns zero
		if c.p["amd"] == 1 {
			return 0, 0, 0, 0
		}
		leaf = max
	}
	sub := ecx
	if leaf != 4 && leaf != 7 && leaf != 0xb && leaf != 0xd {
		sub = 0
	}
	a, b, cc, d = c.word(leaf, sub, 0), c.word(leaf, sub, 1), c.word(leaf, sub, 2), c.word(leaf, sub, 3)
	switch leaf {
	case 0:
		a = max
		b, d, cc = 0x756e6547, 0x49656e69, 0x6c65746e
		if c.p["amd"] == 1 {
			b, d, cc = 0x68747541, 0x69746e65, 0x444d4163
		}
	case 1:
		// EBX: brand, cache line size, number of ids, initial APIC id
		b = uint32(c.p["ebx"]) & 0xffffff
		b |= (uint32(c.p["apic"]) + c.core) << 24
		cc = put(cc, 25, c.p["aes"])
	case 7:
		if sub == 0 {
			a = uint32(c.p["sub7"])
			b = put(b, 8, c.p["bmi2"])
			b = put(b, 19, c.p["adx"])
			b = put(b, 18, c.p["rdseed"])
		}
	case 0xb:
		d = uint32(c.p["apic"]) + c.core
	}
	return
}

func bit(w uint32, n uint) bool { return w>>n&1 == 1 }

func execX04(s *Sim) {
	x0 := utils.X86
	defer func() {
		verifrt.CPUID = nil
		utils.X86 = x0
	}()
	s.Spawn("boot", s.Nodes[0], &s.Plan.Tasks[0], func(t *Task) {
		p := s.Plan.P
		if p["real"] == 1 || verifrt.DetectMode != "simulated" {
			// this machine's own instruction
			utils.X86 = x0
			if verifrt.Detect != nil {
				verifrt.CPUID = nil
				utils.X86.HasAES, utils.X86.HasBMI2, utils.X86.HasADX, utils.X86.HasRDSEED = false, false, false, false
				t.Must("detect", verifrt.Detect)
			}
			max, _, _, _ := hwCPUID(0, 0)
			var w [4]bool
			if max >= 7 {
				_, _, c, _ := hwCPUID(1, 0)
				_, b, _, _ := hwCPUID(7, 0)
				w = [4]bool{bit(c, 25), bit(b, 8), bit(b, 19), bit(b, 18)}
			}
			s.St.Probes["host-detections"]++
			judgeX04(t, w, "this machine")
			return
		}
		for i := range t.Plan.Ops {
			t.Boundary()
			// each operation is a process start on some core of the machine
			c := &simCPU{s: s, p: p, r: NewRng(uint64(t.Plan.Ops[i].Arg(0))), core: uint32(t.Plan.Ops[i].Arg(1)), seed: uint64(p["seed"])}
			verifrt.CPUID = c.cpuid
			utils.X86.HasAES, utils.X86.HasBMI2, utils.X86.HasADX, utils.X86.HasRDSEED = false, false, false, false
			t.Must("detect", verifrt.Detect)
			verifrt.CPUID = nil
			if c.calls == 0 {
				s.St.Probes["detection-without-cpuid"]++
				return
			}
			w := [4]bool{p["aes"] == 1, p["bmi2"] == 1, p["adx"] == 1, p["rdseed"] == 1}
			if p["max"] < 7 {
				w = [4]bool{}
			}
			s.St.Probes["detections"]++
			judgeX04(t, w, fmt.Sprintf("a CPU with highest leaf %d, starting on core %d", p["max"], t.Plan.Ops[i].Arg(1)))
			s.Logf("%d %v", i, w)
		}
	})
	s.Run()
}

func judgeX04(t *Task, w [4]bool, where string) {
	g := [4]bool{utils.X86.HasAES, utils.X86.HasBMI2, utils.X86.HasADX, utils.X86.HasRDSEED}
	for i, n := range []string{"AES", "BMI2", "ADX", "RDSEED"} {
		if g[i] != w[i] {
			t.Fail("flag-"+n, "on %s: %s is reported as %v, CPUID says %v", where, n, g[i], w[i])
		}
	}
}

func genX04(r *Rng, i int, th bool) *Plan {
	p := map[string]int{
		"seed": r.N(1 << 30), "fill": r.Pick(6, 1, 1), "amd": r.N(2),
		"max": []int{0, 1, 2, 4, 6, 7, 8, 11, 13, 22, 32, 36, 0x100, 0x203, 0x10001, 0x40000006}[r.N(16)], "cores": 1 + r.Log(64), "mig": r.Pick(1, 1) * r.N(100),
		"apic": r.N(256), "ebx": r.N(1 << 24), "sub7": r.N(3),
		"aes": r.N(2), "bmi2": r.N(2), "adx": r.N(2), "rdseed": r.N(2),
	}
	if r.Chance(2) {
		p["real"] = 1
	}
	pl := &Plan{Scn: "cpuid", P: p}
	var ops []Op
	n := 1 + r.N(6)
	for j := 0; j < n; j++ {
		ops = append(ops, Op{K: "boot", I: []int{r.N(1 << 20), r.N(p["cores"])}})
	}
	pl.Tasks = []TaskPlan{{Ops: ops}}
	return pl
}

func init() {
	Register(&Prop{ID: "X04", Title: "CPU feature detection", Quick: 400000, Thorough: 20000000, Gen: genX04, Exec: execX04,
		Rule: "the detection code ran against a simulated CPUID", Real: []string{"utils (detection)"},
		Stub: []string{"CPUID instruction", "cores and migration between them"}, Probes: []string{"host-detections"}})
}
