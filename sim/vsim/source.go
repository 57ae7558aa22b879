// Package vsim is the deterministic simulator: it decides which goroutine
// runs, how long, what the clock says, in which order maps are walked and
// which messages are received first. Everything is drawn from Streams.
package vsim

// Stream is a sequence of bounded choices. In record mode they come from a
// PRNG, in replay mode from a list (and are 0 beyond its end). 0 is always the
// simplest choice, so dropping choices simplifies an execution.
type Stream struct {
	Name   string
	state  uint64
	replay bool
	list   []uint64
	pos    int
	Rec    []uint64
	max    int
	Over   bool // more choices than are recorded
}

const maxRec = 4 << 20

//go:norace
func NewStream(name string, seed uint64) *Stream {
	return &Stream{Name: name, state: Mix(seed ^ HashString(name))}
}

//go:norace
func ReplayStream(name string, list []uint64) *Stream {
	return &Stream{Name: name, replay: true, list: list}
}

// Mix is splitmix64's finalizer.
//
//go:norace
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// N draws a number in [0,n).
//
//go:norace
func (s *Stream) N(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.list) {
			v = s.list[s.pos]
			if v >= n {
				v %= n
			}
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		z := s.state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		v = z % n
	}
	s.pos++
	if len(s.Rec) < maxRec {
		s.Rec = append(s.Rec, v)
	} else {
		s.Over = true
	}
	return v
}

// Int draws an int in [0,n).
//
//go:norace
func (s *Stream) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.N(uint64(n)))
}

// Range draws an int in [lo,hi].
//
//go:norace
func (s *Stream) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(s.N(uint64(hi-lo+1)))
}

// P is true with probability num/den; 0 means false.
//
//go:norace
func (s *Stream) P(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.N(uint64(den)) >= uint64(den-num)
}

// Byte draws a byte.
//
//go:norace
func (s *Stream) Byte() byte { return byte(s.N(256)) }

// Fill fills b from a single drawn seed (0 gives zeros).
func (s *Stream) Fill(b []byte) {
	seed := s.N(1 << 32)
	if seed == 0 {
		for i := range b {
			b[i] = 0
		}
		return
	}
	x := Mix(seed)
	for i := range b {
		if i&7 == 0 {
			x = Mix(x)
		}
		b[i] = byte(x >> (8 * uint(i&7)))
	}
}
