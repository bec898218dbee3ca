package main

// Rng is the only source of choices of the simulator (splitmix64).
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix(s ^ mix(p+0x632be59bd9b4e019))
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P returns true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// Between returns a value in [a, b].
func (r *Rng) Between(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.N(b-a+1)
}

func (r *Rng) Pick(v ...int) int { return v[r.N(len(v))] }

func (r *Rng) PickS(v ...string) string { return v[r.N(len(v))] }

func fillBytes(n int, seed uint64) []byte {
	b := make([]byte, n)
	r := Rng{mix(seed + 0x1234567)}
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.U64()
		b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
		b[i+4], b[i+5], b[i+6], b[i+7] = byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56)
	}
	if i < n {
		v := r.U64()
		for ; i < n; i++ {
			b[i] = byte(v)
			v >>= 8
		}
	}
	return b
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(h)
}
