// Package engine is the deterministic simulator: scheduler, simulated time,
// network, disk, entropy devices, crashes, plans, replay and minimisation.
package engine

// Rng is splitmix64. Plans are generated from it; executing a plan never draws.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Chance is true pct percent of the time.
func (r *Rng) Chance(pct int) bool { return r.N(100) < pct }

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// Log returns a number in [1,max], log-uniformly.
func (r *Rng) Log(max int) int {
	if max <= 1 {
		return 1
	}
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	b := r.N(bits) + 1
	v := 1 + r.N(1<<uint(b))
	if v > max {
		v = 1 + v%max
	}
	return v
}

// Pick chooses one of the weights' indexes.
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b*0x9e3779b97f4a7c15 + 0x7f4a7c15)}
	r.U64()
	return r.U64() ^ b
}

func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Fill writes deterministic data of a kind:
// 0 pseudo-random, 1 zeros, 2 0xff, 3 counter, 4 one set bit, 5 sparse.
func Fill(seed uint64, kind int, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case 1:
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = byte(i + int(seed))
		}
	case 4:
		if n > 0 {
			r := NewRng(seed)
			b[r.N(n)] = 1 << uint(r.N(8))
		}
	case 5:
		r := NewRng(seed)
		for i := 0; i < n/16+1 && n > 0; i++ {
			b[r.N(n)] = byte(r.U64())
		}
	default:
		r := NewRng(seed)
		for i := 0; i < n; i += 8 {
			v := r.U64()
			for j := 0; j < 8 && i+j < n; j++ {
				b[i+j] = byte(v >> uint(8*j))
			}
		}
	}
	return b
}
