//go:build go1.21

package simrt

// Rand is splitmix64/xorshift: independent of the standard library's algorithms.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { r := &Rand{seed}; r.U64(); return r }

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Pct(p int) bool     { return r.Intn(100) < p }
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 11)
	}
	return b
}
