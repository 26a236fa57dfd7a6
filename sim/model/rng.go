// Package model is an independent description of what a MySQL master logs and
// sends: column values, binlog events, histories, and the transactions a
// replica must deliver for them. It is written from the MySQL formats, not from
// the repository's code, and never calls it.
package model

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng mixes the given parts into a generator.
func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x6a09e667f3bcc909}
	for _, p := range parts {
		r.s ^= p
		r.U64()
	}
	return r
}

// U64 draws 64 bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws from [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 1) % uint64(n))
}

// Range draws from [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// One picks one of the given integers.
func (r *Rng) One(v ...int) int { return v[r.N(len(v))] }

// Str picks one of the given strings.
func (r *Rng) Str(v ...string) string { return v[r.N(len(v))] }

// Bytes draws n bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}
