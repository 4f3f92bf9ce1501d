package engine

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
)

// Msg is a delivered message.
type Msg struct {
	From    int
	Kind    string
	Data    []byte
	Damaged bool // the simulator altered it (ground truth for oracles only)
	ID      int  // sender's message number (ground truth only)
	Route   int  // scenario specific
}

// Send gives a message to the simulated network. The payload is copied.
func (t *Task) Send(to int, port, kind string, payload []byte) int {
	s := t.S
	id := s.netK
	var f Fate
	if id < len(s.Plan.Net) {
		f = s.Plan.Net[id]
	}
	s.netK++
	from := -1
	if t.Node != nil {
		from = t.Node.ID
	}
	data := append([]byte(nil), payload...)
	s.St.Ops["messages-sent"]++
	if f.Drop {
		s.St.Faults["message-dropped"]++
		s.Logf("net %d %d->%d %s drop", id, from, to, kind)
		return id
	}
	damaged := false
	if len(f.Flip) > 0 && len(data) > 0 {
		for _, b := range f.Flip {
			b %= len(data) * 8
			if b < 0 {
				b = -b
			}
			data[b/8] ^= 1 << uint(b%8)
		}
		damaged = string(data) != string(payload)
		if damaged {
			s.St.Faults["message-corrupted"]++
		}
	}
	if f.Cut > 0 && len(data) > 0 {
		n := f.Cut
		if n > len(data) {
			n = len(data)
		}
		data = data[:len(data)-n]
		damaged = true
		s.St.Faults["message-truncated"]++
	}
	if f.Grow > 0 {
		data = append(data, Fill(uint64(f.Grow), 0, f.Grow)...)
		damaged = true
		s.St.Faults["message-extended"]++
	}
	d := int64(1 + f.Delay)
	if f.Delay > 0 {
		s.St.Faults["message-delayed"]++
	}
	deliver := func() {
		if to < 0 || to >= len(s.Nodes) {
			return
		}
		for _, p := range s.Plan.Parts {
			if s.now >= int64(p.From) && s.now < int64(p.To) && from >= 0 && (p.Mask>>uint(from))&1 != (p.Mask>>uint(to))&1 {
				s.St.Faults["message-lost-in-partition"]++
				return
			}
		}
		nd := s.Nodes[to]
		if !nd.Up {
			s.St.Faults["message-lost-node-down"]++
			return
		}
		s.Logf("net %d %d->%d %s deliver %x", id, from, to, kind, Digest(data))
		nd.inbox[port] = append(nd.inbox[port], Msg{From: from, Kind: kind, Data: append([]byte(nil), data...), Damaged: damaged, ID: id, Route: f.Mode})
	}
	s.After(d, deliver)
	for i := 0; i < f.Dup; i++ {
		s.St.Faults["message-duplicated"]++
		s.After(d+int64(1+i*7+f.Delay), deliver)
	}
	return id
}

// Recv waits for a message on a port, at most d units; ok is false on timeout.
func (t *Task) Recv(port string, d int64) (Msg, bool) {
	s := t.S
	nd := t.Node
	if len(nd.inbox[port]) == 0 {
		at := s.now + d
		s.After(d, func() {})
		t.Wait(func() bool { return len(nd.inbox[port]) > 0 || s.now >= at })
	}
	q := nd.inbox[port]
	if len(q) == 0 {
		return Msg{}, false
	}
	m := q[0]
	nd.inbox[port] = q[1:]
	return m, true
}

// WriteDisk stores a checksummed record; fates decide what survives.
func (t *Task) WriteDisk(name string, data []byte) error {
	s := t.S
	var f DiskFate
	if s.diskK < len(s.Plan.Disk) {
		f = s.Plan.Disk[s.diskK]
	}
	s.diskK++
	s.St.Ops["disk-writes"]++
	h := sha256.Sum256(data)
	rec := append(append([]byte(nil), h[:8]...), data...)
	switch {
	case f.Fail:
		s.St.Faults["disk-write-error"]++
		return errors.New("disk: I/O error")
	case f.Lost:
		s.St.Faults["disk-write-lost"]++
		return nil
	case f.Torn > 0:
		s.St.Faults["disk-write-torn"]++
		n := f.Torn - 1
		if n > len(rec) {
			n = len(rec)
		}
		rec = rec[:n]
	case f.Rot > 0:
		s.St.Faults["disk-bit-rot"]++
		b := (f.Rot - 1) % (len(rec) * 8)
		rec[b/8] ^= 1 << uint(b%8)
	}
	t.Node.Disk[name] = rec
	return nil
}

// ReadDisk returns a record if it is intact.
func (t *Task) ReadDisk(name string) ([]byte, bool) {
	rec, ok := t.Node.Disk[name]
	if !ok || len(rec) < 8 {
		return nil, false
	}
	h := sha256.Sum256(rec[8:])
	if string(h[:8]) != string(rec[:8]) {
		t.S.St.Probes["damaged-disk-record-detected"]++
		return nil, false
	}
	return append([]byte(nil), rec[8:]...), true
}

// Seal and Open are the transport's integrity check.
func Seal(b []byte) []byte {
	h := sha256.Sum256(b)
	return append(append([]byte(nil), b...), h[:8]...)
}
func Open(b []byte) ([]byte, bool) {
	if len(b) < 8 {
		return nil, false
	}
	n := len(b) - 8
	h := sha256.Sum256(b[:n])
	return b[:n], string(h[:8]) == string(b[n:])
}

// Digest shortens data for logs.
func Digest(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:6]
}

// ErrEntropy is the error of a failing entropy device.
var ErrEntropy = errors.New("entropy device failed")

// Entropy is a simulated random device. It logs every byte it delivered.
type Entropy struct {
	S     *Sim
	P     EntPlan
	Log   []byte
	pos   int
	k     int
	done  map[int]bool
	src   *Rng
	buf   uint64
	nb    int
	Fired int
	Short int // calls that ended in an error before the buffer was full
	Calls int
	Fast  bool // deliver everything asked for
	Seen  []byte
}

func (s *Sim) NewEntropy(p *EntPlan) *Entropy {
	e := &Entropy{S: s, done: map[int]bool{}}
	if p != nil {
		e.P = *p
	}
	e.src = NewRng(Mix(uint64(e.P.Seed)+1, 0xe27))
	return e
}

func (e *Entropy) byteAt() byte {
	if e.nb == 0 {
		e.buf = e.src.U64()
		e.nb = 8
	}
	u := byte(e.buf)
	e.buf >>= 8
	e.nb--
	n := e.P.Len
	if n == 0 {
		n = 64
	}
	if e.P.Mode != 0 && e.pos < n {
		switch e.P.Mode {
		case 1:
			return 0
		case 2:
			return 0xff
		case 3: // small values, accepted by CSIDH sampling
			return byte(int8(u%11) - 5)
		case 4: // boundary bytes of the [-5,5] range
			return []byte{5, 6, 0xfb, 0xfa, 4, 0xfc, 0, 0x7f, 0x80, 0x85, 0x15}[u%11]
		case 5: // mostly rejected
			if u < 16 {
				return u % 6
			}
			return 0x40 | u&0x3f
		case 6: // the CSIDH-512 prime and its neighbours, little endian
			return nearP(e.pos, e.P.Seed)
		case 7: // low entropy: two values
			return u & 1
		case 8: // one block over and over: a stuck device
			return stuck(e.pos, e.P.Seed)
		case 9: // now and then something else
			if Mix(uint64(e.P.Seed), uint64(e.pos/64))%50 == 0 {
				return u
			}
			return stuck(e.pos, e.P.Seed)
		}
	}
	return u
}

var csidhP = []uint64{
	0x1B81B90533C6C87B, 0xC2721BF457ACA835,
	0x516730CC1F0B4F25, 0xA7AAC6C567F35507,
	0x5AFBFCC69322C9CD, 0xB42D083AEDC88C42,
	0xFC8AB0D15E3E4C4A, 0x65B48E8F740F89BF,
}

// stuck is a byte of a 64-byte block repeated for ever; its value is below the CSIDH-512 prime.
func stuck(pos, seed int) byte {
	off := pos % 64
	b := byte(Mix(uint64(seed)+77, uint64(off)))
	if off == 63 {
		b &= 0x3f
	}
	return b
}

func nearP(pos, seed int) byte {
	blk := pos / 64
	off := pos % 64
	v := append([]uint64(nil), csidhP...)
	switch (blk + seed) % 5 {
	case 0: // p
	case 1: // p-1
		v[0]--
	case 2: // p+1
		v[0]++
	case 3: // p with the ignored top bit set
		v[7] |= 1 << 63
	case 4: // 2^511-1
		for i := range v {
			v[i] = ^uint64(0)
		}
	}
	return byte(v[off/8] >> uint(8*(off%8)))
}

// Read implements io.Reader, within the reader contract.
func (e *Entropy) Read(b []byte) (int, error) {
	n, err := e.read(b)
	if err != nil && n < len(b) {
		e.Short++
	}
	return n, err
}

func (e *Entropy) read(b []byte) (int, error) {
	e.Calls++
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if len(e.P.Chunk) > 0 {
		c := e.P.Chunk[e.k%len(e.P.Chunk)]
		e.k++
		if c < 0 {
			c = 0
		}
		if c < n {
			n = c
			if n == 0 {
				if e.S != nil {
					e.S.St.Faults["entropy-zero-read"]++
				}
				// a reader may return 0, nil now and then, not for ever
				if e.k > 1 && allZero(e.P.Chunk) {
					n = 1
				} else {
					return 0, nil
				}
			} else if e.S != nil {
				e.S.St.Faults["entropy-short-read"]++
			}
		}
	}
	var ferr error
	for i := range e.P.Fault {
		f := &e.P.Fault[i]
		if e.done[i] {
			continue
		}
		if f.At >= e.pos && f.At < e.pos+n || f.At == e.pos {
			switch f.Kind {
			case "errdata", "eofdata":
				// data together with the error
				n = f.At - e.pos
				e.done[i] = true
				e.fire(f.Kind)
				ferr = ErrEntropy
				if f.Kind == "eofdata" {
					ferr = io.EOF
				}
			case "fullerr":
				// everything asked for, and an error
				e.done[i] = true
				e.fire(f.Kind)
				ferr = ErrEntropy
			case "scribble":
				// a reader may use all of its buffer as scratch space
				n = f.At - e.pos
				e.done[i] = true
				for j := n; j < len(b); j++ {
					b[j] = 0xa5
				}
				e.fire(f.Kind)
				ferr = ErrEntropy
			default:
				n = f.At - e.pos
				if n == 0 {
					e.done[i] = true
					e.fire(f.Kind)
					switch f.Kind {
					case "eof":
						return 0, io.EOF
					case "panic":
						panic(EntropyPanic{})
					case "zero":
						return 0, nil
					default:
						return 0, ErrEntropy
					}
				}
			}
			break
		}
	}
	for i := 0; i < n; i++ {
		b[i] = e.byteAt()
		e.Log = append(e.Log, b[i])
		e.pos++
	}
	return n, ferr
}

func allZero(c []int) bool {
	for _, x := range c {
		if x != 0 {
			return false
		}
	}
	return true
}

// EntropyPanic is what a panicking device throws.
type EntropyPanic struct{}

func (EntropyPanic) String() string { return "entropy device panicked" }

func (e *Entropy) fire(k string) {
	e.Fired++
	if e.S != nil {
		e.S.St.Faults["entropy-"+k]++
	}
}

// Mark starts a new log section and returns the old one.
func (e *Entropy) Mark() []byte {
	l := e.Log
	e.Log = nil
	return l
}

// GenEnt draws an entropy plan without failures.
func GenEnt(r *Rng) *EntPlan {
	p := &EntPlan{Seed: r.N(1 << 30)}
	if r.Chance(40) {
		n := r.In(1, 5)
		for i := 0; i < n; i++ {
			p.Chunk = append(p.Chunk, r.Pick(1, 6, 3)*r.Log(40))
		}
	}
	return p
}

func (e *Entropy) String() string { return fmt.Sprintf("%+v", e.P) }

// Inject plans a fault of the given kind after more bytes.
func (e *Entropy) Inject(kind string, after int) {
	e.P.Fault = append(append([]EntFault(nil), e.P.Fault...), EntFault{At: e.pos + after, Kind: kind})
}

// Pos is the number of bytes delivered so far.
func (e *Entropy) Pos() int { return e.pos }

// Clear drops planned faults that have not fired.
func (e *Entropy) Clear() {
	for i := range e.P.Fault {
		e.done[i] = true
	}
}
