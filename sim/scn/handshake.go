package scn

import (
	"fmt"
	"io"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	. "verifsim/engine"
)

// A party is one end of a Diffie-Hellman handshake; SIDH and CSIDH differ only
// in these operations.
type party interface {
	// generate makes a new private key; load restores an exported one.
	generate(rng io.Reader) error
	load(b []byte) bool
	private() []byte
	public(rng io.Reader) []byte
	derive(peer []byte, rng io.Reader) ([]byte, bool)
}

// ---- SIDH ----

type sidhParty struct {
	f, v  int
	flags int
	prv   *sidh.PrivateKey
	pub   *sidh.PublicKey
	peer  *sidh.PublicKey
	ss    []byte
	n     int
}

const (
	flDirty   = 1  // objects held other keys before
	flReuse   = 2  // objects are reused for every message
	flPkgFn   = 4  // package functions instead of methods
	flReload  = 8  // every key goes through an export and import
	flOwnPub  = 16 // the public key object is re-imported from its export
	flRederiv = 32 // duplicates are derived again
)

func newSidhParty(f, v, flags, seed int) *sidhParty {
	p := &sidhParty{f: f, v: v, flags: flags}
	if flags&flPkgFn != 0 {
		p.prv = new(sidh.PrivateKey)
		p.prv.Init(fields[f], variants[v])
	} else {
		p.prv = sidh.NewPrivateKey(fields[f], variants[v])
	}
	p.pub = sidh.NewPublicKey(fields[f], variants[v])
	p.fresh()
	if flags&flDirty != 0 {
		k := known(f, v, flags>>6)
		p.prv.Import([]byte(k.Prv))
		p.pub.Import([]byte(k.Pub))
		p.peer.Import([]byte(known(f, 1-v, flags>>7).Pub))
		soilSidh(p.prv, p.pub, f, v, uint64(seed))
		soilSidh(nil, p.peer, f, 1-v, uint64(seed)+1)
	}
	return p
}

func (p *sidhParty) fresh() {
	p.peer = sidh.NewPublicKey(fields[p.f], variants[1-p.v])
	p.ss = make([]byte, p.prv.SharedSecretSize())
}

func (p *sidhParty) generate(rng io.Reader) error {
	if p.flags&flPkgFn != 0 {
		err, _ := generatePrivateKey(p.prv, rng)
		return err
	}
	return p.prv.Generate(rng)
}
func (p *sidhParty) load(b []byte) bool { return p.prv.Import(b) == nil }
func (p *sidhParty) private() []byte    { return expPrv(p.prv) }
func (p *sidhParty) public(rng io.Reader) []byte {
	if p.flags&flReload != 0 {
		q := sidh.NewPrivateKey(fields[p.f], variants[p.v])
		q.Import(expPrv(p.prv))
		p.prv = q
	}
	if p.flags&flPkgFn != 0 {
		sidh.GeneratePublicKey(p.pub, p.prv)
	} else {
		p.prv.GeneratePublicKey(p.pub)
	}
	b := expPub(p.pub)
	if p.flags&flOwnPub != 0 {
		p.pub.Import(b)
		b = expPub(p.pub)
	}
	return b
}
func (p *sidhParty) derive(peer []byte, rng io.Reader) ([]byte, bool) {
	if p.flags&flReuse == 0 {
		p.fresh()
	}
	if p.peer.Import(peer) != nil {
		return nil, false
	}
	if p.flags&flPkgFn != 0 {
		sidh.DeriveSecret(p.ss, p.peer, p.prv)
	} else {
		p.prv.DeriveSecret(p.ss, p.peer)
	}
	return clone(p.ss), true
}

// ---- CSIDH ----

type csidhParty struct {
	flags int
	prv   *csidh.PrivateKey
	pub   *csidh.PublicKey
	peer  *csidh.PublicKey
	ss    *[64]byte
	seed  int
	edge  int
	eseed int
}

// edgeKey is an exported private key of a special form.
func edgeKey(edge, seed int) []byte {
	b := make([]byte, 37)
	set := func(k, v int) {
		b[k>>1] = b[k>>1]&(0xf0>>(4*uint(k%2))) | byte(v)&15<<(4*uint(k%2))
	}
	r := NewRng(uint64(seed))
	switch edge {
	case 1: // does nothing
	case 2, 3: // mirror images of one another
		b = sparseKey(r, 1+r.N(4))
		if edge == 3 {
			b = negKey(b)
		}
	case 4: // both sides hold the same key
		b = sparseKey(r, 1+r.N(4))
	case 5: // the first and the last primes
		set(r.N(3), []int{-5, 5, 1}[r.N(3)])
		set(73-r.N(3), []int{-5, 5, -1}[r.N(3)])
	case 6: // one sign only, the same number of times each
		v := []int{-1, 1, 5, -5}[r.Pick(3, 3, 1, 1)]
		for k := r.In(1, 6); k > 0; k-- {
			set(r.N(74), v)
		}
	}
	return b
}

// negKey negates each exponent.
func negKey(b []byte) []byte {
	o := make([]byte, len(b))
	for j, x := range b {
		o[j] = -(x&15)&15 | (-(x>>4)&15)<<4
	}
	return o
}

func newCsidhParty(flags, seed int) *csidhParty {
	p := &csidhParty{flags: flags, seed: seed, prv: new(csidh.PrivateKey), pub: new(csidh.PublicKey), peer: new(csidh.PublicKey), ss: new([64]byte)}
	if flags&flDirty != 0 {
		k := knownCsidh[(flags>>6)%len(knownCsidh)]
		p.prv.Import([]byte(k[0]))
		p.pub.Import([]byte(k[1]))
		p.peer.Import([]byte(k[1]))
		soilCsidh(p.prv, p.pub, uint64(seed))
		soilCsidh(nil, p.peer, uint64(seed)+1)
	}
	return p
}

// sparseKey is an exported private key with few non-zero exponents (cheap).
func sparseKey(r *Rng, n int) []byte {
	b := make([]byte, 37)
	for j := 0; j < n; j++ {
		k := r.N(74)
		v := byte(r.In(-5, 5)) & 15
		b[k>>1] = b[k>>1]&(0xf0>>(4*uint(k%2))) | v<<(4*uint(k%2))
	}
	return b
}

func (p *csidhParty) generate(rng io.Reader) error {
	if p.seed%8 == 0 && p.edge == 0 {
		return csidh.GeneratePrivateKey(p.prv, rng)
	}
	// a sparse key drawn from the same device
	var s [8]byte
	if _, err := io.ReadFull(rng, s[:]); err != nil {
		return err
	}
	x := uint64(0)
	for _, c := range s {
		x = x<<8 | uint64(c)
	}
	if p.edge > 0 {
		p.prv.Import(edgeKey(p.edge, p.eseed))
		return nil
	}
	p.prv.Import(sparseKey(NewRng(x), 1+p.seed%6))
	return nil
}
func (p *csidhParty) load(b []byte) bool { return p.prv.Import(b) }
func (p *csidhParty) private() []byte {
	b := make([]byte, 37)
	p.prv.Export(b)
	return b
}
func (p *csidhParty) public(rng io.Reader) []byte {
	if p.flags&flReload != 0 {
		q := new(csidh.PrivateKey)
		q.Import(p.private())
		p.prv = q
	}
	csidh.GeneratePublicKey(p.pub, p.prv, rng)
	b := make([]byte, 64)
	p.pub.Export(b)
	if p.flags&flOwnPub != 0 {
		p.pub.Import(b)
		p.pub.Export(b)
	}
	return b
}
func (p *csidhParty) derive(peer []byte, rng io.Reader) ([]byte, bool) {
	if p.flags&flReuse == 0 {
		p.peer, p.ss = new(csidh.PublicKey), new([64]byte)
	}
	if !p.peer.Import(peer) {
		return nil, false
	}
	if !csidh.DeriveSecret(p.ss, p.peer, p.prv, rng) {
		return nil, false
	}
	return append([]byte(nil), p.ss[:]...), true
}

// ---- the protocol ----

type hshake struct {
	id      int
	node    [2]int
	secrets map[string][]byte
	by      map[string]int
	done    bool
	first   string
}

func (h *hshake) record(t *Task, role int, mine, peer, ss []byte) {
	k := string(mine) + string(peer)
	if role == 1 {
		k = string(peer) + string(mine)
	}
	if old, ok := h.secrets[k]; ok {
		if !eq(old, ss) {
			t.Fail("disagree", "handshake %d: for the same pair of public keys role %d derived %s, earlier derivation(s) by role mask %d gave %s", h.id, role, hexs(ss), h.by[k], hexs(old))
		}
		t.S.St.Probes["secrets-compared"]++
	}
	h.secrets[k] = ss
	h.by[k] |= 1 << uint(role)
	if h.by[k] == 3 && !h.done {
		h.done = true
		t.S.St.Probes["handshakes-completed"]++
	}
}

// execHandshakes: P["n"] handshakes; Tasks[2*i], Tasks[2*i+1] describe the two
// ends (P: f field, v variant, flags); with P["longterm"] a node keeps one key
// pair for all its handshakes.
func execHandshakes(kind string) func(s *Sim) {
	return func(s *Sim) {
		n := len(s.Plan.Tasks) / 2
		hs := make([]*hshake, n)
		for i := range hs {
			hs[i] = &hshake{id: i, secrets: map[string][]byte{}, by: map[string]int{}}
			for r := 0; r < 2; r++ {
				hs[i].node[r] = s.Plan.Tasks[2*i+r].Node % len(s.Nodes)
			}
		}
		all := func() bool {
			for _, h := range hs {
				if !h.done {
					return false
				}
			}
			return true
		}
		for ni, nd := range s.Nodes {
			ni := ni
			nd.OnBoot(func(nd *Node) {
				for i, h := range hs {
					for r := 0; r < 2; r++ {
						if h.node[r] == ni {
							h, r := h, r
							tp := &s.Plan.Tasks[2*i+r]
							s.Spawn(fmt.Sprintf("h%d.%d", i, r), nd, tp, func(t *Task) { hsSide(t, kind, h, r, all) })
						}
					}
				}
			})
		}
		s.Run()
		if s.V == nil && !all() {
			s.Violate("liveness", "a handshake did not complete although faults had stopped")
		}
	}
}

func hsSide(t *Task, kind string, h *hshake, role int, all func() bool) {
	s := t.S
	tp := t.Plan
	id := s.Plan.Prop
	e := s.NewEntropy(&EntPlan{Seed: tp.P["ent"] + t.Node.Epoch*7919, Chunk: chunkOf(tp), Mode: tp.P["mode"], Len: tp.P["len"]})
	var p party
	t.Must(id, func() {
		if kind == "sidh" {
			p = newSidhParty(tp.P["f"]%3, tp.P["v"]&1, tp.P["flags"], tp.P["ent"])
		} else {
			c := newCsidhParty(tp.P["flags"], tp.P["ent"])
			c.edge, c.eseed = tp.P["edge"], tp.P["eseed"]
			p = c
		}
	})
	name := fmt.Sprintf("key-%d-%d", h.id, role)
	if s.Plan.P["longterm"] == 1 {
		name = "key"
	}
	t.Boundary()
	have := false
	if rec, ok := t.ReadDisk(name); ok {
		t.Must(id, func() { have = p.load(rec) })
		s.St.Probes["key-reloaded-from-disk"]++
	}
	if !have {
		var err error
		t.Must(id, func() { err = p.generate(e) })
		if err != nil {
			t.Fail("generate", "key generation failed with a healthy source: %v", err)
		}
		if t.WriteDisk(name, p.private()) != nil {
			s.St.Probes["key-not-persisted"]++
		}
	}
	var mine []byte
	t.Must(id, func() { mine = p.public(e) })
	s.Logf("h%d.%d public %x", h.id, role, Digest(mine))
	port := fmt.Sprintf("h%d", h.id*2+role)
	peerPort := fmt.Sprintf("h%d", h.id*2+1-role)
	seen := map[string]int{}
	idle := 0
	for !h.done || idle < 3 {
		if all() && idle > 0 {
			return
		}
		t.Boundary()
		if s.Now() > 60000 {
			s.Violate("liveness", fmt.Sprintf("handshake %d role %d still incomplete at simulated time %d", h.id, role, s.Now()))
			return
		}
		t.Send(h.node[1-role], peerPort, "pub", Seal(mine))
		for k := 0; k < 4; k++ {
			m, ok := t.Recv(port, 25)
			if !ok {
				if h.done {
					idle++
				}
				break
			}
			b, good := Open(m.Data)
			if !good {
				s.St.Probes["damaged-message-discarded"]++
				continue
			}
			c := seen[string(b)]
			if c > 0 && (tp.P["flags"]&flRederiv == 0 || c > 1) {
				continue
			}
			seen[string(b)]++
			t.Boundary()
			var ss []byte
			var okd bool
			t.Must(id, func() { ss, okd = p.derive(clone(b), e) })
			if !okd {
				t.Fail("refused", "handshake %d role %d refused an intact public key", h.id, role)
			}
			s.Logf("h%d.%d secret %x", h.id, role, Digest(ss))
			h.record(t, role, mine, b, ss)
		}
	}
}

func chunkOf(tp *TaskPlan) []int {
	if c := tp.P["chunk"]; c > 0 {
		return []int{c, 1 + c/2, 64}
	}
	return nil
}

// genNet draws message fates, partitions, disk fates and crashes.
func genNet(r *Rng, pl *Plan, nn int, pool []string) {
	lossy := r.Pick(1, 2, 1) * 25
	n := r.In(0, 24)
	for i := 0; i < n; i++ {
		f := Fate{}
		if r.Chance(lossy) {
			switch r.N(6) {
			case 0, 1:
				f.Drop = true
			case 2:
				f.Dup = r.In(1, 3)
			case 3:
				f.Delay = r.Log(200)
			case 4:
				f.Flip = []int{r.N(1 << 16)}
			case 5:
				f.Cut = r.Log(40)
			}
			if r.Chance(20) {
				f.Delay = r.Log(120)
				f.Dup = r.N(2)
			}
		}
		pl.Net = append(pl.Net, f)
	}
	if r.Chance(30) {
		from := r.N(80)
		pl.Parts = append(pl.Parts, Partition{Mask: r.In(1, 1<<uint(nn)-1), From: from, To: from + r.Log(200)})
	}
	if r.Chance(50) {
		for i := r.In(1, 3); i > 0; i-- {
			pl.Crash = append(pl.Crash, Crash{Node: r.N(nn), Op: r.In(1, 12), Down: r.Log(60)})
		}
	}
	if r.Chance(40) {
		for i := r.In(1, 3); i > 0; i-- {
			pl.Traps = append(pl.Traps, TrapPlan{Fn: pool[r.N(len(pool))], N: r.Log(60), After: r.Pick(1, 1) * r.Log(40), Act: "crash", Down: r.Log(60)})
		}
	}
	if r.Chance(40) {
		for i := r.In(1, 4); i > 0; i-- {
			d := DiskFate{}
			switch r.N(5) {
			case 0:
				d.Lost = true
			case 1:
				d.Torn = r.Log(60)
			case 2:
				d.Fail = true
			case 3:
				d.Rot = r.In(1, 800)
			}
			pl.Disk = append(pl.Disk, d)
		}
	}
}

func genHandshakes(kind string) func(r *Rng, i int, th bool) *Plan {
	return func(r *Rng, i int, th bool) *Plan {
		pl := &Plan{Scn: "handshake", P: map[string]int{}}
		nn := r.In(2, 3)
		for k := 0; k < nn; k++ {
			pl.Nodes = append(pl.Nodes, NodePlan{Off: GenOff(r)})
		}
		n := r.Pick(5, 3, 1) + 1
		if kind == "csidh" {
			n = r.Pick(5, 2) + 1
			if r.Chance(50) {
				pl.P["longterm"] = 1
			}
		}
		for k := 0; k < n; k++ {
			f := r.Pick(6, 3, 1)
			a := r.N(nn)
			b := (a + 1 + r.N(nn-1)) % nn
			v := r.N(2)
			edge, eseed := 0, 0
			if r.Chance(25) {
				edge, eseed = r.In(1, 6), r.N(1<<20)
			}
			for side := 0; side < 2; side++ {
				nd := a
				if side == 1 {
					nd = b
				}
				tp := TaskPlan{Node: nd, P: map[string]int{"f": f, "v": v ^ side, "flags": r.N(1 << 9), "ent": r.N(1 << 28)}}
				if kind == "csidh" {
					if r.Chance(90) {
						tp.P["ent"] |= 1 // sparse
					}
					if edge > 0 && !(edge != 2 && edge != 4 && side == eseed&1) {
						tp.P["edge"], tp.P["eseed"] = edge, eseed
						if edge == 2 && side == 1 {
							tp.P["edge"] = 3
						}
					}
					if pl.P["longterm"] == 1 {
						tp.P["ent"] = tp.P["ent"]&^0xff | 3
					}
				}
				if r.Chance(30) {
					tp.P["chunk"] = r.Log(40)
				}
				if kind == "sidh" && r.Chance(25) {
					// keys at the edges of the key space: few bits set or cleared
					tp.P["mode"], tp.P["len"] = []int{1, 2, 7, 8}[r.N(4)], r.In(1, 64)
				}
				pl.Tasks = append(pl.Tasks, tp)
			}
		}
		pre := "dh/sidh"
		if kind == "csidh" {
			pre = "dh/csidh"
		}
		pool := fnPool(pre)
		genNet(r, pl, nn, pool)
		genSched(r, pl, 60000, 12, pool, false)
		return pl
	}
}

var netStub = []string{"scheduler and simulated time", "network (loss, duplication, delay, corruption, truncation, partition)", "disk (torn, lost, failing, rotten writes)", "entropy devices", "CPU features per node", "crash and restart of nodes"}

func init() {
	Register(&Prop{ID: "K01", Title: "SIDH agreement", Quick: 8400, Thorough: 120000, Gen: genHandshakes("sidh"), Exec: execHandshakes("sidh"),
		Rule: "it is non-trivial when keys were generated and messages exchanged", Real: []string{"dh/sidh", "dh/sidh/common", "dh/sidh/internal/p434,p503,p751"}, Stub: netStub,
		Probes: []string{"handshakes-completed", "secrets-compared", "crash-between-operations", "crash-inside-operation", "key-reloaded-from-disk", "message-dropped", "message-duplicated", "damaged-message-discarded"}})
	Register(&Prop{ID: "C01", Title: "CSIDH agreement", Quick: 3000, Thorough: 40000, Gen: genHandshakes("csidh"), Exec: execHandshakes("csidh"),
		Rule: "it is non-trivial when keys were generated and messages exchanged", Real: []string{"dh/csidh"}, Stub: netStub,
		Probes: []string{"handshakes-completed", "secrets-compared", "crash-between-operations", "crash-inside-operation", "key-reloaded-from-disk", "message-dropped", "message-duplicated", "damaged-message-discarded"}})
}
