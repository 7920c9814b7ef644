package simrt

// RNG is a small, fully specified generator (xoshiro256** seeded by splitmix64), so that a seed means
// the same execution whatever the Go release does with math/rand.
type RNG struct{ s [4]uint64 }

func NewRNG(seed uint64) *RNG {
	r := &RNG{}
	x := seed
	for i := range r.s {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		r.s[i] = z ^ (z >> 31)
	}
	return r
}

func rotl(x uint64, k uint) uint64 { return (x << k) | (x >> (64 - k)) }

func (r *RNG) Uint64() uint64 {
	s := &r.s
	result := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return result
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.Uint64() >> 11) % uint64(n))
}

// Float returns a number in [0,1).
func (r *RNG) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *RNG) P(p float64) bool { return r.Float() < p }

// Range returns a number in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
