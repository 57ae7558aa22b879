package psdgen

import (
	"fmt"
	"math"
	"strings"

	"github.com/oov/psd/verifsim/vsim"
)

// Corrupt damages an encoded document the way disks, networks and hostile
// senders do. other is another document to splice with (may be nil). It returns
// the damaged copy and what was done.
func Corrupt(b []byte, m *Map, other []byte, s *vsim.Stream) ([]byte, []string) {
	b = append([]byte{}, b...)
	var log []string
	var names []string
	byName := map[string][]Field{}
	for _, f := range m.Fields {
		if byName[f.Name] == nil {
			names = append(names, f.Name)
		}
		byName[f.Name] = append(byName[f.Name], f)
	}
	pick := func() Field {
		n := names[s.Int(len(names))]
		l := byName[n]
		return l[s.Int(len(l))]
	}
	moved := false // offsets in the map are no longer right
	for n := 1 + Min(s.Int(4), s.Int(4)); n > 0; n-- {
		op := s.Int(12)
		if moved && op < 6 {
			op = 6 + op%3
		}
		if len(b) == 0 {
			return b, append(log, "empty")
		}
		switch op {
		case 0, 1, 2, 3: // a number in the document
			f := pick()
			if f.Size > 8 || f.Size == 0 || f.Off+f.Size > len(b) {
				continue
			}
			if f.Size == 4 && (strings.HasSuffix(f.Name, "Key") || strings.HasSuffix(f.Name, "Sig")) {
				keys := []string{"luni", "clbl", "lsct", "lsdk", "Layr", "Lr16", "Lr32", "8BIM", "8B64", "pass", "norm", "LMsk", "XXXX", "\x00\x00\x00\x00"}
				k := keys[s.Int(len(keys))]
				copy(b[f.Off:f.Off+4], k)
				log = append(log, fmt.Sprintf("%s@%d=%q", f.Name, f.Off, k))
				continue
			}
			old := get(b[f.Off : f.Off+f.Size])
			v := special(s, old, f)
			put(b[f.Off:f.Off+f.Size], v)
			log = append(log, fmt.Sprintf("%s@%d: %d -> %d", f.Name, f.Off, old, v))
		case 4: // two numbers swapped
			f, g := pick(), pick()
			if f.Size != g.Size || f.Off+f.Size > len(b) || g.Off+g.Size > len(b) {
				continue
			}
			x, y := get(b[f.Off:f.Off+f.Size]), get(b[g.Off:g.Off+g.Size])
			put(b[f.Off:f.Off+f.Size], y)
			put(b[g.Off:g.Off+g.Size], x)
			log = append(log, fmt.Sprintf("%s@%d <-> %s@%d", f.Name, f.Off, g.Name, g.Off))
		case 5: // bytes of compressed data
			if len(m.Spans) == 0 {
				continue
			}
			sp := m.Spans[s.Int(len(m.Spans))]
			if sp.End > len(b) || sp.End-sp.Start < 3 {
				continue
			}
			i := s.Range(sp.Start, sp.End-1)
			b[i] = s.Byte()
			log = append(log, fmt.Sprintf("channel byte @%d=%d", i, b[i]))
		case 6: // bit flip
			i := s.Int(len(b))
			b[i] ^= 1 << uint(s.Int(8))
			log = append(log, fmt.Sprintf("bit flip @%d", i))
		case 7: // byte
			i := s.Int(len(b))
			b[i] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xff, 2, '8'}[s.Int(8)]
			log = append(log, fmt.Sprintf("byte @%d=%d", i, b[i]))
		case 8: // torn sector
			sz := []int{16, 64, 512}[s.Int(3)]
			k := s.Int((len(b) + sz - 1) / sz)
			lo, hi := k*sz, Min((k+1)*sz, len(b))
			switch s.Int(3) {
			case 0:
				for i := lo; i < hi; i++ {
					b[i] = 0
				}
			case 1:
				for i := lo; i < hi; i++ {
					b[i] = 0xff
				}
			case 2:
				s.Fill(b[lo:hi])
			}
			log = append(log, fmt.Sprintf("torn sector @%d..%d", lo, hi))
		case 9: // lost or repeated range
			lo := s.Int(len(b))
			hi := Min(lo+1+s.Int(40), len(b))
			if s.P(1, 2) {
				b = append(append([]byte{}, b[:lo]...), b[hi:]...)
				log = append(log, fmt.Sprintf("lost @%d..%d", lo, hi))
			} else {
				b = append(append([]byte{}, b[:hi]...), b[lo:]...)
				log = append(log, fmt.Sprintf("repeated @%d..%d", lo, hi))
			}
			moved = true
		case 10: // splice
			if len(other) == 0 {
				continue
			}
			i, j := s.Int(len(b)), s.Int(len(other))
			b = append(append([]byte{}, b[:i]...), other[j:]...)
			log = append(log, fmt.Sprintf("spliced @%d with @%d", i, j))
			moved = true
		case 11: // cut
			i := s.Int(len(b))
			b = b[:i]
			log = append(log, fmt.Sprintf("cut @%d", i))
			moved = true
		}
	}
	return b, log
}

func get(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func put(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}

func special(s *vsim.Stream, old uint64, f Field) uint64 {
	switch f.Name {
	case "mode":
		if s.P(2, 3) {
			return []uint64{0, 1, 2, 3, 4, 7, 8, 9, 5, 10}[s.Int(10)]
		}
	case "depth":
		if s.P(2, 3) {
			return []uint64{1, 8, 16, 32}[s.Int(4)]
		}
	case "channelID":
		if s.P(2, 3) {
			return uint64(uint16(s.Range(-5, 9)))
		}
	case "channelMethod", "mergedMethod":
		if s.P(2, 3) {
			return uint64(s.Int(5))
		}
	case "divType":
		if s.P(4, 5) {
			return uint64(s.Int(5))
		}
	case "version":
		if s.P(2, 3) {
			return uint64(1 + s.Int(2))
		}
	}
	bits := uint(f.Size * 8)
	switch s.Int(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return old + 1
	case 3:
		return old - 1
	case 4:
		return old + uint64(s.Range(-9, 9))
	case 5:
		return 1<<(bits-1) - 1
	case 6:
		return 1 << (bits - 1)
	case 7:
		return math.MaxUint64
	case 8:
		return old * 2
	case 9:
		return old / 2
	case 10:
		return uint64(s.Int(64))
	}
	v := s.N(1 << 32)
	return vsim.Mix(v) >> (64 - bits) >> uint(s.Int(int(bits)))
}
