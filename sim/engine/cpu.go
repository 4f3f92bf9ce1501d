package engine

import (
	"os"
	"strings"

	"github.com/henrydcase/nobs/utils"
	"github.com/henrydcase/nobs/verifrt"
	"golang.org/x/sys/cpu"
)

// CPU features a node may lack. Features are only ever switched off relative
// to the host, never on.
const (
	FeatAES = iota
	FeatBMI2
	FeatADX
	NFeat
)

var FeatName = []string{"aes", "bmi2", "adx"}

type cpuState struct{ has [NFeat]bool }

var (
	hostCPU *cpuState
	lacks   [NFeat]bool
)

func host() *cpuState {
	if hostCPU == nil {
		h := &cpuState{}
		// not the flags the library detected: those are property X04's subject
		b, _ := os.ReadFile("/proc/cpuinfo")
		fl := map[string]bool{}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "flags") {
				for _, f := range strings.Fields(l) {
					fl[f] = true
				}
				break
			}
		}
		for i, n := range FeatName {
			h.has[i] = fl[n]
		}
		hostCPU = h
	}
	return hostCPU
}

// SetFeatures makes the process run on a CPU that lacks some features: what the
// library detects changes, and its initialisation that depends on it is repeated.
func SetFeatures(off []int) {
	h := host()
	lacks = [NFeat]bool{}
	for _, f := range off {
		if f >= 0 && f < NFeat {
			lacks[f] = true
		}
	}
	aes, bmi2, adx := h.has[FeatAES] && !lacks[FeatAES], h.has[FeatBMI2] && !lacks[FeatBMI2], h.has[FeatADX] && !lacks[FeatADX]
	utils.X86.HasAES, utils.X86.HasBMI2, utils.X86.HasADX = aes, bmi2, adx
	cpu.X86.HasAES, cpu.X86.HasBMI2, cpu.X86.HasADX = aes, bmi2, adx
	c, tr := verifrt.C, verifrt.Trap
	verifrt.C, verifrt.Trap = 1<<60, nil
	for _, f := range verifrt.Features {
		f.Fn()
	}
	verifrt.C, verifrt.Trap = c, tr
	clearRan()
}

func clearRan() {
	for _, a := range verifrt.Asms {
		*a.Ran = [4]byte{}
	}
}

func saveRan() []([4]byte) {
	r := make([][4]byte, len(verifrt.Asms))
	for i, a := range verifrt.Asms {
		r[i] = *a.Ran
	}
	return r
}

func loadRan(r [][4]byte) {
	for i, a := range verifrt.Asms {
		*a.Ran = r[i]
	}
}

// illegal reports instructions the current CPU does not have.
func (s *Sim) illegal(t *Task) {
	for _, a := range verifrt.Asms {
		for f := range lacks {
			if lacks[f] && a.Ran[f] != 0 {
				s.Violate("illegal-instruction", "task "+t.Name+": package "+a.Pkg+" executed "+FeatName[f]+" instructions on a CPU without them: the process would be killed")
			}
		}
	}
	clearRan()
}

func (s *Sim) applyCPU(nd *Node) { SetFeatures(nd.Off) }

func (s *Sim) restoreCPU() { SetFeatures(nil) }

// GenOff draws the features a node lacks.
func GenOff(r *Rng) []int {
	switch r.N(7) {
	case 0:
		return []int{FeatAES}
	case 4: // a hypervisor may hide one alone
		return []int{FeatBMI2}
	case 1:
		return []int{FeatADX}
	case 2:
		return []int{FeatBMI2, FeatADX}
	case 3:
		return []int{FeatAES, FeatBMI2, FeatADX}
	}
	return nil
}
