// Package sexp simulates the psdexporter command: the process, its input and
// the disk it writes to.
package sexp

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"path"
	"strings"
	"syscall"

	"github.com/oov/psd"
	"github.com/oov/psd/psdexporter"

	"github.com/oov/psd/verifsim/oracle"
	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/vh"
	vos "github.com/oov/psd/verifsim/vos"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C19",
		Scens: []vh.Scenario{
			{Name: "export", Weight: 2, Fn: func(c *vh.Ctx) { run(c, none) }},
			{Name: "output", Weight: 5, Fn: func(c *vh.Ctx) { run(c, output) }},
			{Name: "input", Weight: 3, Fn: func(c *vh.Ctx) { run(c, input) }},
			{Name: "crash", Weight: 3, Fn: func(c *vh.Ctx) { run(c, crash) }},
		},
		Rule: "a generated document exported by the command to a simulated disk, with failing or short operations on input or output, a full disk, stale files, or a crash followed by another run; distinct = digest of document, disk state and faults; trivial = the planned fault never fired",
		Real: []string{"psdexporter (whole command)", "psd (decoder)", "image/png (standard library)"},
		Stub: []string{"operating system: files, standard output, exit (simulated disk)", "goroutine scheduling (simulator)"},
	})
}

const (
	none = iota
	output
	input
	crash
)

// crashed is the panic that ends a process at once.
type crashed struct{}

// plan decides the faults of one run of the command.
type plan struct {
	c     *vh.Ctx
	in    string
	short int // x/16: reads fall short
	n     int // matching operations so far

	mode  int
	op    string // operation that fails ("" any)
	at    int    // its number
	again bool   // fails from then on, not once
	err   error
	space int // bytes the disk still takes (-1: no limit)
	fired bool
	dead  bool
}

//go:norace
func (p *plan) Fault(op, name string, n int) (error, int, int) {
	tr := n
	if op == "read" && n > 1 && p.c.Fault.P(p.short, 16) {
		tr = 1 + p.c.Fault.Int(n)
		if tr < n {
			p.c.Hit("short read")
		}
	}
	if p.dead {
		panic(crashed{})
	}
	mine := p.mode == crash || name != p.in
	if p.mode == input {
		mine = !mine
	}
	if p.mode == none || !mine {
		return nil, tr, 0
	}
	if p.mode == output && op == "write" && p.space >= 0 {
		if n <= p.space {
			p.space -= n
			return nil, n, 0
		}
		tr, p.space = p.space, 0
		p.fired = true
		p.c.Hit("disk full")
		return syscall.ENOSPC, tr, 0
	}
	if p.space >= 0 || p.op != "" && p.op != op {
		return nil, tr, 0
	}
	p.n++
	if p.n <= p.at || p.n > p.at+1 && !p.again {
		return nil, tr, 0
	}
	if p.mode == crash {
		p.fired = true
		p.c.Hit("crash at " + op)
		if op == "write" {
			// the kernel may have taken some of the bytes
			p.dead = true
			return crashErr, p.c.Fault.Int(n + 1), 0
		}
		panic(crashed{})
	}
	p.fired = true
	p.c.Hit(op + " error")
	lose := 0
	switch op {
	case "read":
		tr = 0
		if p.c.Fault.P(1, 2) {
			tr = p.c.Fault.Int(n + 1)
		}
	case "write":
		tr = p.c.Fault.Int(n + 1)
		if tr == n && n > 0 {
			tr--
		}
	case "sync", "close-written":
		lose = 1 + p.c.Fault.Int(40)
		if p.c.Fault.P(1, 3) {
			lose = 1 << 20
		}
	}
	return p.err, tr, lose
}

// crashErr marks a write during which the process dies.
var crashErr = fmt.Errorf("process killed")

type want struct {
	name string
	hash uint64
	got  bool
}

// stored is the image of a layer as the document has it.
type stored struct {
	d     *psdgen.Doc
	pl    [][]byte
	alpha []byte
	r     image.Rectangle
	m     color.Model
}

func (s *stored) ColorModel() color.Model { return s.m }
func (s *stored) Bounds() image.Rectangle { return s.r }
func (s *stored) At(x, y int) color.Color { return oracle.Pixel(s.d, s.pl, s.alpha, s.r, x, y) }

// imageHash identifies a PNG file by its pixels; extra are the bytes after it.
func imageHash(b []byte) (h oracle.Hash, extra int, err error) {
	r := bytes.NewReader(b)
	img, err := png.Decode(r)
	if err != nil {
		return 0, 0, err
	}
	rc := img.Bounds()
	h.U(uint64(rc.Dx()))
	h.U(uint64(rc.Dy()))
	for y := rc.Min.Y; y < rc.Max.Y; y++ {
		for x := rc.Min.X; x < rc.Max.X; x++ {
			n := color.NRGBA64Model.Convert(img.At(x, y)).(color.NRGBA64)
			h.U(uint64(n.R)<<48 | uint64(n.G)<<32 | uint64(n.B)<<16 | uint64(n.A))
		}
	}
	return h, r.Len(), nil
}

// wanted lists the files the command has to write.
func wanted(c *vh.Ctx, d *psdgen.Doc, b []byte) []*want {
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	if err != nil {
		c.Fail("decode", "well-formed document: %v", err)
	}
	byID := map[int]*psd.Layer{}
	var index func(l []psd.Layer)
	index = func(l []psd.Layer) {
		for i := range l {
			byID[l[i].SeqID] = &l[i]
			index(l[i].Layer)
		}
	}
	index(p.Layer)
	var out []*want
	for i, l := range d.Layers {
		if l.Div() != 0 || l.Rect.Empty() {
			continue
		}
		g := byID[i]
		if g == nil || g.Picker == nil {
			c.Fail("decode", "layer %d has no image", i)
		}
		s := &stored{d: d, r: l.Rect, m: g.Picker.ColorModel()}
		for k := 0; k < psdgen.ModeChannels(d.Mode); k++ {
			s.pl = append(s.pl, l.Find(k).Data)
		}
		if a := l.Find(-1); a != nil {
			s.alpha = a.Data
		}
		var buf bytes.Buffer
		if err := png.Encode(&buf, s); err != nil {
			c.Fail("harness", "reference image: %v", err)
		}
		h, _, err := imageHash(buf.Bytes())
		if err != nil {
			c.Fail("harness", "reference image: %v", err)
		}
		out = append(out, &want{name: fmt.Sprintf("layer %d %v", i, l.Rect), hash: uint64(h)})
	}
	return out
}

// start runs the command once.
func start(c *vh.Ctx, p *plan, disk *vos.Disk, args ...string) (ok, died bool, how string) {
	disk.Plan = p
	vos.SetDisk(disk)
	vos.Args = append([]string{"psdexporter"}, args...)
	vos.Stdout.Out = nil
	for _, n := range disk.Nodes {
		n.Created = false
		n.Open = 0
	}
	e, stack := c.CallRecover(func() {
		psdexporter.Main()
	})
	if e != nil && vsim.Killing() {
		panic(e)
	}
	switch x := e.(type) {
	case nil:
		ok, how = true, "returned"
	case crashed:
		died, how = true, "was killed"
	case vos.ExitCode:
		ok, how = x.Code == 0, fmt.Sprintf("exited with %d", x.Code)
	default:
		how = fmt.Sprintf("panicked: %v", x)
		_ = stack
	}
	if p.fired && p.mode == crash {
		// whatever it did after the moment it was killed did not happen; the
		// plan kills it in its next operation at the latest
		ok, died = false, true
	}
	c.Desc(func() string {
		return fmt.Sprintf("the command %s; disk operations:\n  %s", how, strings.Join(disk.Log, "\n  "))
	})
	disk.Log = nil
	return
}

func run(c *vh.Ctx, mode int) {
	vsim.SetProcs(1 + c.Sched.Int(4))
	psd.Debug = nil
	var d *psdgen.Doc
	for i := 0; i < 4; i++ {
		o := psdgen.Opt{MaxLayers: 7, MaxDim: 12, Folders: true, NoReal: c.Gen.P(1, 2)}
		if c.Gen.P(1, 5) {
			o.Deep, o.MaxLayers, o.MaxDim = true, 20, 5
		}
		d = psdgen.Generate(c.Gen, o)
		if len(d.Layers) > 0 || c.Gen.P(1, 8) {
			break
		}
	}
	if len(d.Layers) > 1 && c.Gen.P(1, 4) {
		twins(c, d)
	}
	b, m := psdgen.Encode(d, c.Gen)
	c.DigestBytes(b)
	c.Desc(func() string { return "document " + d.String() })
	ws := wanted(c, d, b)
	if len(ws) == 0 {
		c.Probe("nothing to export")
	} else if len(ws) > 1 {
		c.Probe("several files")
	}

	in := []string{"in.psd", "dir.psb", "000.psd"}[c.Gen.Int(3)]
	disk := &vos.Disk{Cwd: "/work"}
	disk.Put(in, b)
	p := &plan{c: c, in: in, mode: mode, space: -1, short: c.Fault.Int(9)}

	stale(c, disk, len(ws), mode == none)

	f := c.Fault
	cut := false
	switch mode {
	case output:
		p.op = []string{"create", "write", "close-written", "", "space", "write", "create", "close-written", "blocked"}[f.Int(9)]
		p.err = []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EACCES, syscall.EMFILE}[f.Int(5)]
		p.again = f.P(1, 3)
		switch p.op {
		case "space":
			p.space = f.Int(1 + 150*len(ws))
		case "blocked":
			// directories stand where files are to be written
			for k := f.Int(len(ws) + 1); k < len(ws)+2; k++ {
				if n := disk.Find(fmt.Sprintf("%03d.png", k)); n != nil {
					n.Gone = true
				}
				disk.Nodes = append(disk.Nodes, &vos.Inode{Name: fmt.Sprintf("%03d.png", k), Dir: true})
			}
			p.fired = len(ws) > 0
			c.Hit("directory in place of a file")
		case "write":
			p.at = f.Int(1 + 6*len(ws))
		case "":
			p.at = f.Int(1 + 8*len(ws))
		default:
			p.at = f.Int(1 + len(ws))
		}
	case input:
		p.op = []string{"open", "read", "read", "cut", "read"}[f.Int(5)]
		p.err = []error{syscall.EIO, syscall.ENOENT, syscall.EACCES, syscall.EISDIR}[f.Int(4)]
		p.again = f.P(1, 2)
		switch p.op {
		case "read":
			p.at = f.Int(8)
			if f.P(1, 2) {
				p.at = f.Int(1 + len(b)/8)
			}
		case "cut":
			n := f.Int(len(b))
			cut = n < m.SectionEnd
			disk.Find(in).Data = b[:n:n]
			if cut {
				p.fired = true
				c.Hit("truncated input")
			}
		}
	case crash:
		p.op = []string{"", "write", "write", "create", "close-written"}[f.Int(5)]
		switch p.op {
		case "write":
			p.at = f.Int(1 + 10*len(ws))
		case "":
			p.at = f.Int(40 + 20*len(ws))
		default:
			p.at = f.Int(1 + len(ws))
		}
		p.again = true
	}
	c.Digest(uint64(p.at)<<8 | uint64(mode))
	c.DigestBytes([]byte(p.op))

	ok, died, how := start(c, p, disk, in)
	if mode != none && !p.fired {
		c.Trivial()
	}
	switch {
	case died:
		// another run of the command repairs whatever the first one left
		c.Probe("rerun after crash")
		p2 := &plan{c: c, in: in, space: -1, short: p.short}
		ok, _, how = start(c, p2, disk, in)
		if !ok {
			c.Fail("rerun", "the command %s when it is run again after a crash", how)
		}
	case !ok && !p.fired:
		c.Fail("fails", "the command %s although nothing went wrong", how)
	case ok && cut:
		c.Fail("cut", "the command %s although the input ends in its layers", how)
	}
	if !ok {
		c.Probe("failure reported")
		return
	}
	if p.fired && !died {
		c.Probe("success although a fault fired")
	}
	check(c, disk, ws, in)
}

// check looks at the files of a command that reported success.
func check(c *vh.Ctx, disk *vos.Disk, ws []*want, in string) {
	extra := ""
	files := 0
	for _, name := range disk.Names() {
		n := disk.Find(name)
		if name == in || !n.Created || !strings.EqualFold(path.Ext(name), ".png") {
			continue // a file under another name is no PNG file to anyone
		}
		files++
		h, rest, err := imageHash(n.Data)
		if err != nil {
			c.Fail("incomplete", "success is reported but %s (%d bytes) is not a complete image: %v", name, len(n.Data), err)
		}
		if rest > 0 {
			c.Fail("stale", "%s has %d bytes after its image", name, rest)
		}
		found := false
		for _, w := range ws {
			if !w.got && w.hash == uint64(h) {
				w.got, found = true, true
				break
			}
		}
		if !found {
			extra = name
		}
	}
	for _, w := range ws {
		if !w.got {
			c.Fail("missing", "success is reported but no file has the image of %s (%d files, %d layers; file without layer: %q)", w.name, files, len(ws), extra)
		}
	}
	if extra != "" {
		c.Fail("extra", "%s is not the image of any layer", extra)
	}
}

// stale puts files of earlier runs where the command may write.
func stale(c *vh.Ctx, disk *vos.Disk, n int, often bool) {
	if !c.Gen.P(1, 3) && !(often && c.Gen.P(1, 2)) {
		return
	}
	for i := 0; i < n+1; i++ {
		if c.Gen.P(1, 2) {
			d := make([]byte, 1+c.Gen.Int(3000))
			c.Gen.Fill(d)
			disk.Put(fmt.Sprintf("%03d.png", i), d)
			c.Hit("stale file")
		}
	}
	if c.Gen.P(1, 2) {
		disk.Put("000_000.png", make([]byte, 5000))
	}
}

// twins makes layers that are easily mixed up: same name, same size.
func twins(c *vh.Ctx, d *psdgen.Doc) {
	var first *psdgen.Layer
	for _, l := range d.Layers {
		if l.Div() != 0 || l.NoExtra {
			continue
		}
		if first == nil {
			first = l
			continue
		}
		l.SetNames(first)
	}
	c.Probe("layers with equal names")
}
