package models

import "crypto/aes"

// CTR is SP 800-90A CTR_DRBG, AES-256, no derivation function.
type CTR struct {
	Key [32]byte
	V   [16]byte
}

func (c *CTR) incr() {
	for i := 15; i >= 0; i-- {
		c.V[i]++
		if c.V[i] != 0 {
			return
		}
	}
}

func (c *CTR) blocks(n int) []byte {
	b, _ := aes.NewCipher(c.Key[:])
	out := make([]byte, 0, n+16)
	for len(out) < n {
		c.incr()
		var t [16]byte
		b.Encrypt(t[:], c.V[:])
		out = append(out, t[:]...)
	}
	return out[:n]
}

func seed(a, b []byte) []byte {
	s := make([]byte, 48)
	copy(s, a)
	for i := 0; i < len(b) && i < 48; i++ {
		s[i] ^= b[i]
	}
	return s
}

func (c *CTR) Update(d []byte) {
	t := c.blocks(48)
	for i := range t {
		t[i] ^= d[i]
	}
	copy(c.Key[:], t[:32])
	copy(c.V[:], t[32:])
}

func (c *CTR) Init(entropy, pers []byte) {
	*c = CTR{}
	c.Update(seed(entropy, pers))
}

func (c *CTR) Reseed(entropy, ad []byte) { c.Update(seed(entropy, ad)) }

func (c *CTR) Generate(n int, ad []byte) []byte {
	s := seed(ad, nil)
	if len(ad) > 0 {
		c.Update(s)
	}
	out := c.blocks(n)
	c.Update(s)
	return out
}

// SeedFor returns the seed material that brings c to the wanted key and V
// through the next Update.
func (c *CTR) SeedFor(key, v []byte) []byte {
	d := *c
	t := d.blocks(48)
	s := make([]byte, 48)
	for i := range s {
		if i < 32 {
			s[i] = t[i] ^ key[i]
		} else {
			s[i] = t[i] ^ v[i-32]
		}
	}
	return s
}
