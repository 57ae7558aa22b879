// Package simio simulates the input side: readers of every kind the library
// may be given, with the delays, short counts and failures readers have.
package simio

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/oov/psd/verifsim/vsim"
)

// Fault is the error injected by a reader.
type Fault struct{ What string }

func (f *Fault) Error() string { return "injected: " + f.What }

// ErrSeek is what Seek returns on things that cannot seek.
var ErrSeek = errors.New("seek: illegal seek")

// Kinds of readers.
const (
	Plain = iota
	Seeker
	BadSeeker
	Discarder
	Bufio
	Bytes
	Wrapped // io.LimitedReader around a plain reader
	Byter   // has ReadByte, without UnreadByte
	Scanner // has ReadByte and UnreadByte
	NumKinds
)

var kindNames = []string{"plain", "seeker", "failing-seeker", "discarder", "bufio", "bytes.Reader", "limited", "byte reader", "byte scanner"}

// Hooks are told about what happens.
type Hooks interface {
	Hit(kind string)
}

// Spec says how a reader behaves.
type Spec struct {
	Kind     int
	Chunk    int // 0: as asked; n: at most n bytes
	Random   bool
	Zero     int  // x/16: empty reads
	EOFData  bool // last bytes come with io.EOF
	Scribble bool
	Yield    bool
	Sleep    int // x/16
	BufSize  int
	SeekPast bool // fail seeks beyond the end instead of allowing them

	Trunc   int // stream ends at this offset (-1: no)
	ErrAt   int // a read that reaches this offset fails (-1: no)
	ErrData bool
	ErrOnce bool
	ErrEOF  int // the error also claims to be 1: io.ErrUnexpectedEOF, 2: io.EOF
}

// Perfect is an ideal reader.
func Perfect() Spec { return Spec{Kind: Plain, Trunc: -1, ErrAt: -1} }

// RandomSpec draws how the bytes arrive.
func RandomSpec(s *vsim.Stream) Spec {
	sp := Spec{Trunc: -1, ErrAt: -1}
	sp.Kind = s.Int(NumKinds)
	switch s.Int(4) {
	case 1:
		sp.Chunk = 1
	case 2:
		sp.Chunk, sp.Random = s.Range(2, 9), true
	case 3:
		sp.Chunk, sp.Random = s.Range(10, 300), true
	}
	if s.P(1, 3) {
		sp.Zero = s.Range(1, 6)
	}
	sp.EOFData = s.P(1, 3)
	sp.Scribble = s.P(1, 3)
	sp.Yield = s.P(1, 2)
	if s.P(1, 4) {
		sp.Sleep = s.Range(1, 8)
	}
	sp.BufSize = 16
	if s.P(1, 2) {
		sp.BufSize = s.Range(16, 700)
	}
	sp.SeekPast = s.P(1, 3)
	return sp
}

func (sp Spec) String() string {
	return fmt.Sprintf("%s chunk=%d/%v zero=%d eofdata=%v scribble=%v yield=%v sleep=%d trunc=%d err=%d/%v/%v", kindNames[sp.Kind], sp.Chunk, sp.Random, sp.Zero, sp.EOFData, sp.Scribble, sp.Yield, sp.Sleep, sp.Trunc, sp.ErrAt, sp.ErrData, sp.ErrOnce)
}

// Core is the stream behind a reader.
type Core struct {
	data  []byte
	base  int
	pos   int
	sp    Spec
	s     *vsim.Stream
	h     Hooks
	zeros int
	Err   error
	Fired bool // the injected error was returned
	EOF   bool
	Calls int
	Seeks int
}

// Reader is a simulated reader.
type Reader struct {
	Core *Core
	buf  *bufio.Reader
	br   *bytes.Reader
	R    io.Reader // what the library gets
}

// New makes a reader over data from offset base on.
func New(data []byte, base int, sp Spec, s *vsim.Stream, h Hooks) *Reader {
	if sp.Trunc >= 0 && base+sp.Trunc < len(data) {
		data = data[: base+sp.Trunc : base+sp.Trunc]
	}
	c := &Core{data: data, base: base, pos: base, sp: sp, s: s, h: h}
	c.Err = &Fault{"read error"}
	switch sp.ErrEOF {
	case 1:
		c.Err = &wrapped{c.Err, io.ErrUnexpectedEOF}
	case 2:
		c.Err = &wrapped{c.Err, io.EOF}
	}
	r := &Reader{Core: c}
	p := plain{c}
	switch sp.Kind {
	case Plain:
		r.R = p
	case Wrapped:
		r.R = &io.LimitedReader{R: p, N: int64(len(data)-base) + 1<<40}
	case Byter:
		r.R = byter{p}
	case Scanner:
		r.R = &scanner{byter: byter{p}, last: -1}
	case Seeker:
		r.R = seeker{p}
	case BadSeeker:
		r.R = badSeeker{p}
	case Discarder:
		r.R = discarder{p}
	case Bufio:
		n := sp.BufSize
		if n < 16 {
			n = 16
		}
		r.buf = bufio.NewReaderSize(p, n)
		r.R = r.buf
	case Bytes:
		r.br = bytes.NewReader(data)
		r.br.Seek(int64(base), io.SeekStart)
		r.R = r.br
	}
	return r
}

// wrapped is an error that claims to be another one, too.
type wrapped struct{ e, also error }

func (w *wrapped) Error() string   { return w.e.Error() }
func (w *wrapped) Unwrap() []error { return []error{w.e, w.also} }

// Taken is the number of bytes taken from the reader.
func (r *Reader) Taken() int {
	switch {
	case r.buf != nil:
		return r.Core.pos - r.Core.base - r.buf.Buffered()
	case r.br != nil:
		p, _ := r.br.Seek(0, io.SeekCurrent)
		return int(p) - r.Core.base
	}
	return r.Core.pos - r.Core.base
}

// Injects tells whether the reader can deliver the faults of its spec.
func (r *Reader) Injects() bool { return r.br == nil }

func (c *Core) wait() {
	c.Calls++
	if c.sp.Sleep > 0 && c.s.P(c.sp.Sleep, 16) {
		c.h.Hit("slow read")
		vsim.Sleep(int64(c.s.Range(1, 1000)) * 1000000)
	} else if c.sp.Yield {
		vsim.SyncPoint()
	}
}

func (c *Core) read(b []byte) (int, error) {
	c.wait()
	if len(b) == 0 {
		return 0, nil
	}
	if c.sp.Zero > 0 && c.zeros < 3 && c.s.P(c.sp.Zero, 16) {
		c.zeros++
		c.h.Hit("empty read")
		c.scribble(b, 0)
		return 0, nil
	}
	c.zeros = 0
	end := len(c.data)
	failing := false
	if c.sp.ErrAt >= 0 && !(c.sp.ErrOnce && c.Fired) {
		if e := c.base + c.sp.ErrAt; e <= end {
			failing, end = true, e
		}
	}
	if c.pos >= end {
		if failing {
			return 0, c.fire()
		}
		c.EOF = true
		return 0, io.EOF
	}
	n := len(b)
	if c.sp.Chunk > 0 && n > c.sp.Chunk {
		n = c.sp.Chunk
		c.h.Hit("short read")
	}
	if c.sp.Random && n > 1 {
		n = c.s.Range(1, n)
	}
	if n > end-c.pos {
		n = end - c.pos
	}
	copy(b[:n], c.data[c.pos:])
	c.pos += n
	c.scribble(b, n)
	if c.pos == end && n < len(b) {
		if failing {
			if c.sp.ErrData {
				c.h.Hit("error with data")
				return n, c.fire()
			}
		} else if c.sp.EOFData {
			c.h.Hit("data with EOF")
			c.EOF = true
			return n, io.EOF
		}
	}
	return n, nil
}

func (c *Core) fire() error {
	c.Fired = true
	if c.sp.ErrOnce {
		c.h.Hit("read error once")
	} else {
		c.h.Hit("read error")
	}
	return c.Err
}

// scribble uses the rest of the buffer as scratch space, as readers may.
func (c *Core) scribble(b []byte, n int) {
	if !c.sp.Scribble {
		return
	}
	for i := n; i < len(b) && i < n+4096; i++ {
		b[i] = 0xa5 ^ byte(i)
	}
}

type plain struct{ c *Core }

func (p plain) Read(b []byte) (int, error) { return p.c.read(b) }

type byter struct{ plain }

// ReadByte reads one byte.
func (p byter) ReadByte() (byte, error) {
	var b [1]byte
	for idle := 0; idle < 100; idle++ {
		n, err := p.c.read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

type scanner struct {
	byter
	last int // where the last byte was read from, or -1
}

func (p *scanner) Read(b []byte) (int, error) {
	p.last = -1
	return p.byter.Read(b)
}

func (p *scanner) ReadByte() (byte, error) {
	at := p.c.pos
	b, err := p.byter.ReadByte()
	p.last = -1
	if err == nil {
		p.last = at
	}
	return b, err
}

// UnreadByte takes the last ReadByte back.
func (p *scanner) UnreadByte() error {
	if p.last < 0 {
		return errors.New("unread: no byte was read")
	}
	p.c.pos, p.last = p.last, -1
	return nil
}

type seeker struct{ plain }

func (p seeker) Seek(off int64, whence int) (int64, error) { return p.c.seek(off, whence) }

func (c *Core) seek(off int64, whence int) (int64, error) {
	c.wait()
	c.Seeks++
	var at int64
	switch whence {
	case io.SeekStart:
		at = off
	case io.SeekCurrent:
		at = int64(c.pos) + off
	case io.SeekEnd:
		at = int64(len(c.data)) + off
	default:
		return 0, errors.New("seek: invalid whence")
	}
	if at < 0 {
		return 0, errors.New("seek: negative position")
	}
	if c.sp.SeekPast && at > int64(len(c.data)) {
		c.h.Hit("seek past the end refused")
		return 0, errors.New("seek: beyond the end")
	}
	c.pos = int(at)
	return at, nil
}

type badSeeker struct{ plain }

func (p badSeeker) Seek(off int64, whence int) (int64, error) {
	p.c.wait()
	p.c.Seeks++
	p.c.h.Hit("seek not supported")
	return 0, ErrSeek
}

type discarder struct{ plain }

// Discard skips n bytes, like bufio.Reader.Discard.
func (p discarder) Discard(n int) (int, error) {
	if n < 0 {
		return 0, bufio.ErrNegativeCount
	}
	done := 0
	var b [64]byte
	for idle := 0; done < n; {
		m := n - done
		if m > len(b) {
			m = len(b)
		}
		k, err := p.c.read(b[:m])
		done += k
		if done == n {
			return done, nil
		}
		if err != nil {
			return done, err
		}
		idle++
		if k > 0 {
			idle = 0
		} else if idle > 50 {
			return done, io.ErrNoProgress
		}
	}
	return done, nil
}

// Data is the stream from the base offset on.
func (r *Reader) Data() []byte { return r.Core.data[r.Core.base:] }
