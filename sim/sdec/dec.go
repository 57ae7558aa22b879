// Package sdec simulates the decoder: its readers, its goroutines and its
// callers.
package sdec

import (
	"bufio"
	"compress/flate"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"io"
	"reflect"
	"runtime"

	"github.com/oov/psd"

	"github.com/oov/psd/verifsim/oracle"
	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/simio"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

var realParts = []string{"psd (decoder, image resources, layers, compression, PackBits workers)", "color", "compress/zlib, bufio, io, image (standard library)"}
var stubParts = []string{"goroutine scheduling, GOMAXPROCS, sync, map order (simulator)", "the byte stream (simulated readers)", "debug logger (discards)"}

type nolog struct{}

func (nolog) Printf(format string, v ...interface{}) { _ = fmt.Sprintf(format, v...) }
func (nolog) Println(v ...interface{})               { _ = fmt.Sprintln(v...) }

// env prepares a run.
func env(c *vh.Ctx) {
	psd.Debug = nil
	if c.Gen.P(1, 6) {
		psd.Debug = nolog{}
		c.Probe("debug logging on")
	}
	procs(c)
}

func procs(c *vh.Ctx) {
	vsim.SetProcs([]int{1, 2, 3, 4, 8, 16}[c.Sched.Int(6)])
}

func genDoc(c *vh.Ctx, o psdgen.Opt) (*psdgen.Doc, []byte, *psdgen.Map) {
	if o.MaxLayers == 0 {
		o.MaxLayers = 6
	}
	o.Folders = true
	if c.Gen.P(1, 16) {
		o.Deep, o.MaxLayers, o.MaxDim = true, o.MaxLayers+12, psdgen.Min(o.MaxDim, 6)
	}
	d := psdgen.Generate(c.Gen, o)
	b, m := psdgen.Encode(d, c.Gen)
	c.DigestBytes(b)
	c.Desc(func() string { return "document " + d.String() })
	return d, b, m
}

// result of one decode.
type result struct {
	p    *psd.PSD
	n    int
	err  error
	r    *simio.Reader
	opts oracle.Options
}

func decode(c *vh.Ctx, r *simio.Reader, o *psd.DecodeOptions) *result {
	res := &result{r: r}
	if o != nil {
		res.opts = oracle.Options{NoLayers: o.SkipLayerImage, NoMerged: o.SkipMergedImage}
	}
	c.Call("Decode", func() { res.p, res.n, res.err = psd.Decode(r.R, o) })
	if res.p == nil && res.err == nil {
		c.Fail("neither", "Decode returns neither an image nor an error")
	}
	return res
}

func randOpts(c *vh.Ctx) *psd.DecodeOptions {
	if c.Gen.P(1, 4) {
		return nil
	}
	return &psd.DecodeOptions{SkipLayerImage: c.Gen.P(1, 4), SkipMergedImage: c.Gen.P(1, 4)}
}

// reader puts the document somewhere into a stream and wraps it.
func reader(c *vh.Ctx, b []byte, sp simio.Spec) *simio.Reader {
	base := 0
	if c.Gen.P(1, 3) {
		base = c.Gen.Range(1, 50)
		x := make([]byte, base)
		c.Gen.Fill(x)
		b = append(x, b...)
	}
	return simio.New(b, base, sp, c.Fault, c)
}

// zipNeed is the number of bytes of a zlib stream that are needed for n bytes
// of output.
func zipNeed(b []byte, n int) int {
	if len(b) < 2 {
		return len(b)
	}
	r := &counter{b: b, n: 2}
	io.ReadFull(flate.NewReader(r), make([]byte, n))
	return r.n
}

type counter struct {
	b []byte
	n int
}

func (c *counter) ReadByte() (byte, error) {
	if c.n >= len(c.b) {
		return 0, io.EOF
	}
	c.n++
	return c.b[c.n-1], nil
}
func (c *counter) Read(p []byte) (int, error) {
	x, err := c.ReadByte()
	if err != nil || len(p) == 0 {
		return 0, err
	}
	p[0] = x
	return 1, nil
}

// need is the offset after the last byte a decode needs; from slack on the
// bytes up to it carry no data (checksums of compressed streams).
func need(d *psdgen.Doc, b []byte, m *psdgen.Map, o *psd.DecodeOptions) (slack, end int) {
	if o != nil && o.SkipMergedImage {
		return m.SectionEnd, m.SectionEnd
	}
	end = m.MergedEnd
	slack = end
	if d.Method >= psdgen.ZIP {
		n := 0
		for _, p := range d.Planes {
			n += len(p)
		}
		slack = m.MergedStart + 2 + zipNeed(b[m.MergedStart+2:m.MergedEnd], n)
	}
	return slack, end
}

func init() {
	vh.Register(&vh.Property{
		ID: "C01",
		Scens: []vh.Scenario{
			{Name: "decode", Weight: 8, Fn: c01Decode},
			{Name: "config", Weight: 2, Fn: c01Config},
			{Name: "image", Weight: 2, Fn: c01Image},
		},
		Rule: "a generated PSD/PSB document (all supported modes, depths, compression methods, layer trees, masks, resources) delivered by a simulated reader; distinct = digest of document bytes, schedule and faults; trivial = never",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C02",
		Scens: []vh.Scenario{
			{Name: "count", Weight: 4, Fn: c02Count},
			{Name: "backtoback", Weight: 4, Fn: c02BackToBack},
		},
		Rule: "generated documents, alone or several back to back in one stream, decoded one after the other by Decode and DecodeConfig; distinct = digest of bytes, schedule and faults; trivial = never",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C03",
		Scens: []vh.Scenario{
			{Name: "cut", Weight: 6, Fn: c03Cut},
			{Name: "allcuts", Weight: 2, Fn: c03All},
			{Name: "image", Weight: 1, Fn: c03Image},
			{Name: "config", Weight: 1, Fn: c03Config},
		},
		Rule: "a generated document cut at a random point, at a structure boundary, or at a run of neighbouring points; distinct = digest of bytes, cut, schedule and faults; trivial = the cut removes nothing that is needed",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C04",
		Scens: []vh.Scenario{
			{Name: "error", Weight: 8, Fn: c04Error},
			{Name: "allerrors", Weight: 2, Fn: c04All},
			{Name: "image", Weight: 1, Fn: c04Image},
			{Name: "config", Weight: 1, Fn: c04Config},
		},
		Rule: "a generated document whose reader fails at a chosen offset (permanently or once, with or without data); distinct = digest of bytes, fault position and kind, schedule; trivial = the fault never fired",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C05",
		Scens: []vh.Scenario{
			{Name: "corrupt", Weight: 40, Fn: func(c *vh.Ctx) { corrupt(c, false) }},
			{Name: "config", Weight: 4, Fn: c05Config},
			{Name: "noise", Weight: 4, Fn: c05Noise},
			{Name: "nested", Weight: 1, Fn: c05Nested},
		},
		Rule: "a generated document that is malformed (block, channel or palette sizes, dividers, rectangles that contradict each other) or has 1 to 4 corruptions (field values, flips, torn sectors, lost or repeated ranges, splices, cuts); distinct = digest of the damaged bytes, schedule and faults; trivial = never",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C06",
		Scens: []vh.Scenario{
			{Name: "corrupt", Weight: 8, Fn: func(c *vh.Ctx) { corrupt(c, true) }},
			{Name: "wellformed", Weight: 1, Fn: c06Well},
		},
		Rule: "documents that decode successfully although they are malformed or damaged; every pixel of every image is read; distinct = digest of the damaged bytes, schedule and faults; trivial = decode returned an error",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C07",
		Scens: []vh.Scenario{
			{Name: "workers", Weight: 6, Fn: c07},
			{Name: "rle", Weight: 6, Fn: c07RLE},
		},
		Rule: "the same bytes (well-formed or damaged, biased to PackBits data) decoded with GOMAXPROCS=1 and with several other values and schedules; distinct = digest of bytes and schedule; trivial = no PackBits rows",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C08",
		Scens: []vh.Scenario{
			{Name: "callbacks", Weight: 6, Fn: c08},
			{Name: "skip", Weight: 3, Fn: c08Skip},
		},
		Rule: "generated documents decoded with callbacks that observe the reader's position and the layer handed over, failing callbacks, and all skip combinations; distinct = digest of bytes, options, schedule and faults; trivial = never",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C09",
		Scens: []vh.Scenario{
			{Name: "decodes", Weight: 4, Fn: c09Decodes},
			{Name: "readers", Weight: 4, Fn: c09Readers},
		},
		Rule: "2 to 5 goroutines decoding at once, or reading one decoded document at once; distinct = digest of documents and schedule; trivial = no context switch between them",
		Real: realParts, Stub: stubParts,
	})
}

func mustEqual(c *vh.Ctx, d *psdgen.Doc, res *result) {
	if res.err != nil {
		if d.Supported() || res.opts.NoMerged {
			c.Fail("refused", "well-formed document is refused: %v (read %d)", res.err, res.n)
		}
		return
	}
	if !d.Supported() && !res.opts.NoMerged {
		c.Fail("unsupported", "document of mode %d depth %d has no defined image but decodes", d.Mode, d.Depth)
	}
	var diff string
	c.Call("reading the decoded document", func() { diff = oracle.PSD(d, res.p, res.opts) })
	if diff != "" {
		c.Fail("content", "%s", diff)
	}
}

func c01Decode(c *vh.Ctx) {
	env(c)
	d, b, _ := genDoc(c, psdgen.Opt{BigDim: 220, AnyMode: c.Gen.P(1, 10)})
	sp := simio.RandomSpec(c.Fault)
	c.Desc(func() string { return "reader " + sp.String() })
	o := randOpts(c)
	mustEqual(c, d, decode(c, reader(c, b, sp), o))
	c.NoLeak("Decode")
}

func c01Config(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{AnyMode: true, MaxLayers: 2})
	if c.Gen.P(1, 2) {
		b = b[:m.ConfigEnd]
	}
	sp := simio.RandomSpec(c.Fault)
	r := reader(c, b, sp)
	var cfg psd.Config
	var err error
	c.Call("DecodeConfig", func() { cfg, _, err = psd.DecodeConfig(r.R) })
	if err != nil {
		c.Fail("refused", "well-formed header is refused: %v", err)
	}
	if s := oracle.Config(d, &cfg); s != "" {
		c.Fail("content", "%s", s)
	}
}

func c01Image(c *vh.Ctx) {
	env(c)
	d, b, _ := genDoc(c, psdgen.Opt{MaxLayers: 3})
	sp := simio.RandomSpec(c.Fault)
	r := reader(c, b, sp)
	var img image.Image
	var name string
	var err error
	if c.Gen.P(1, 4) {
		var cfg image.Config
		c.Call("image.DecodeConfig", func() { cfg, name, err = image.DecodeConfig(r.R) })
		if err != nil {
			c.Fail("refused", "image.DecodeConfig refuses a well-formed document: %v", err)
		}
		if cfg.Width != d.W || cfg.Height != d.H {
			c.Fail("content", "image.DecodeConfig says %dx%d, stored %dx%d", cfg.Width, cfg.Height, d.W, d.H)
		}
		if cfg.ColorModel == nil {
			c.Fail("content", "no colour model")
		}
	} else {
		c.Call("image.Decode", func() { img, name, err = image.Decode(r.R) })
		if err != nil {
			c.Fail("refused", "image.Decode refuses a well-formed document: %v", err)
		}
		var cfg image.Config
		r := reader(c, b, sp)
		c.Call("image.DecodeConfig", func() { cfg, _, err = image.DecodeConfig(r.R) })
		if err != nil {
			c.Fail("refused", "image.DecodeConfig refuses a well-formed document: %v", err)
		}
		if !reflect.DeepEqual(cfg.ColorModel, img.ColorModel()) {
			c.Fail("content", "image.DecodeConfig says %v, image.Decode gives %v", cfg.ColorModel, img.ColorModel())
		}
		var diff string
		c.Call("reading the image", func() { diff = oracle.Merged(d, img) })
		if diff != "" {
			c.Fail("content", "%s", diff)
		}
	}
	want := "psd"
	if d.PSB() {
		want = "psb"
	}
	if name != want {
		c.Fail("content", "format name %q, want %q", name, want)
	}
	c.NoLeak("image.Decode")
}

func c02Count(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{})
	end := len(b)
	tail := make([]byte, c.Gen.Int(60))
	c.Gen.Fill(tail)
	b = append(b, tail...)
	sp := simio.RandomSpec(c.Fault)
	r := reader(c, b, sp)
	if c.Gen.P(1, 4) {
		var n int
		var err error
		c.Call("DecodeConfig", func() { _, n, err = psd.DecodeConfig(r.R) })
		if err != nil {
			c.Fail("refused", "well-formed header is refused: %v", err)
		}
		if n != m.ConfigEnd || r.Taken() != m.ConfigEnd {
			c.Fail("count", "DecodeConfig returns %d and took %d bytes, header and resources are %d", n, r.Taken(), m.ConfigEnd)
		}
		return
	}
	o := randOpts(c)
	res := decode(c, r, o)
	if res.err != nil {
		c.Fail("refused", "well-formed document is refused: %v", res.err)
	}
	if res.n != r.Taken() {
		c.Fail("count", "Decode returns %d but took %d bytes", res.n, r.Taken())
	}
	want := end
	if o != nil && o.SkipMergedImage {
		want = m.SectionEnd
	} else if d.Method >= psdgen.ZIP {
		if s, _ := need(d, b, m, o); res.n < s {
			c.Fail("count", "Decode returns %d, the image needs %d bytes", res.n, s)
		}
		return
	}
	if res.n != want {
		c.Fail("count", "Decode returns %d, the decoded part is %d bytes long", res.n, want)
	}
	c.NoLeak("Decode")
}

func c02BackToBack(c *vh.Ctx) {
	env(c)
	n := c.Gen.Range(2, 4)
	docs := make([]*psdgen.Doc, n)
	ends := make([]int, n)
	var all []byte
	for i := range docs {
		d, b, _ := genDoc(c, psdgen.Opt{NoZIP: true, MaxLayers: 4, MaxDim: 14})
		docs[i] = d
		all = append(all, b...)
		ends[i] = len(all)
	}
	sp := simio.RandomSpec(c.Fault)
	c.Desc(func() string { return "reader " + sp.String() })
	r := reader(c, all, sp)
	start := 0
	for i, d := range docs {
		var o *psd.DecodeOptions
		if c.Gen.P(1, 3) {
			o = &psd.DecodeOptions{SkipLayerImage: true}
		}
		res := decode(c, r, o)
		if res.err != nil {
			c.Fail("refused", "document %d of %d in the stream is refused: %v", i, n, res.err)
		}
		if res.n != ends[i]-start || r.Taken() != ends[i] {
			c.Fail("count", "document %d: Decode returns %d, reader is at %d; the document is %d..%d", i, res.n, r.Taken(), start, ends[i])
		}
		mustEqual(c, d, res)
		start = ends[i]
	}
	c.NoLeak("Decode")
}

// cutPoint chooses where to cut.
func cutPoint(c *vh.Ctx, b []byte, m *psdgen.Map, end int) int {
	switch c.Fault.Int(4) {
	case 0:
		f := m.Pick(c.Fault)
		return min(f.Off+c.Fault.Int(f.Size+1), end)
	case 1:
		l := []int{m.ModeDataStart, m.ResStart, m.ConfigEnd, m.SectionStart, m.LayersStart, m.LayersEnd, m.SectionEnd, m.MergedStart, m.MergedEnd}
		l = append(l, m.RecStart...)
		l = append(l, m.RecEnd...)
		l = append(l, m.ImgStart...)
		l = append(l, m.ImgEnd...)
		p := l[c.Fault.Int(len(l))] + c.Fault.Range(-3, 2)
		return max(0, min(p, end))
	case 2:
		return max(0, end-1-c.Fault.Int(12))
	}
	return c.Fault.Int(end + 1)
}

func checkCut(c *vh.Ctx, d *psdgen.Doc, b []byte, m *psdgen.Map, o *psd.DecodeOptions, sp simio.Spec, cut int) {
	slack, end := need(d, b, m, o)
	sp.Trunc = cut
	r := reader(c, b, sp)
	res := decode(c, r, o)
	if res.err == nil {
		if cut < slack {
			c.Fail("truncated", "%d of %d needed bytes: Decode succeeds (read %d)", cut, end, res.n)
		}
		mustEqual(c, d, res)
		return
	}
	if res.p != nil {
		c.Fail("image", "Decode returns an image together with the error %v", res.err)
	}
	if cut >= end {
		c.Fail("refused", "all %d needed bytes are there but Decode fails: %v", end, res.err)
	}
}

func c03Cut(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 16})
	o := randOpts(c)
	sp := simio.RandomSpec(c.Fault)
	slack, end := need(d, b, m, o)
	cut := cutPoint(c, b, m, end)
	c.Digest(uint64(cut))
	if cut < slack {
		c.Hit("truncation")
	} else {
		c.Trivial()
	}
	c.Desc(func() string { return fmt.Sprintf("cut at %d of %d, reader %v", cut, end, sp) })
	checkCut(c, d, b, m, o, sp, cut)
	c.NoLeak("Decode")
}

func c03All(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 5, MaxLayers: 2})
	o := randOpts(c)
	sp := simio.RandomSpec(c.Fault)
	_, end := need(d, b, m, o)
	n := 120
	from := 0
	if end > n {
		from = c.Fault.Int(end - n)
	}
	c.Digest(uint64(from))
	for cut := from; cut < from+n && cut < end; cut++ {
		c.Hit("truncation")
		checkCut(c, d, b, m, o, sp, cut)
	}
	c.NoLeak("Decode")
}

func c03Config(c *vh.Ctx) {
	env(c)
	_, b, m := genDoc(c, psdgen.Opt{MaxDim: 5, MaxLayers: 1, AnyMode: true})
	sp := simio.RandomSpec(c.Fault)
	step := 1 + m.ConfigEnd/200
	for cut := c.Fault.Int(step); cut < m.ConfigEnd; cut += step {
		sp.Trunc = cut
		c.Hit("truncation")
		r := reader(c, b, sp)
		var err error
		c.Call("DecodeConfig", func() { _, _, err = psd.DecodeConfig(r.R) })
		if err == nil {
			c.Fail("truncated", "%d of %d bytes: DecodeConfig succeeds", cut, m.ConfigEnd)
		}
	}
}

var imageOpt = &psd.DecodeOptions{SkipLayerImage: true}

// imageCall decodes through package image and tells whether there was a result.
func imageCall(c *vh.Ctx, config bool, r io.Reader) (got bool, err error) {
	if config {
		var cfg image.Config
		c.Call("image.DecodeConfig", func() { cfg, _, err = image.DecodeConfig(r) })
		return cfg.ColorModel != nil || cfg.Width != 0 || cfg.Height != 0, err
	}
	var img image.Image
	c.Call("image.Decode", func() { img, _, err = image.Decode(r) })
	return img != nil, err
}

// c03Image cuts a document that is decoded through package image.
func c03Image(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 8, MaxLayers: 2})
	sp := simio.RandomSpec(c.Fault)
	config := c.Gen.P(1, 3)
	slack, _ := need(d, b, m, imageOpt)
	if config {
		slack = m.ConfigEnd
	}
	c.Desc(func() string { return fmt.Sprintf("cut at %d of %d, reader %v", sp.Trunc, slack, sp) })
	for i := 0; i < 8; i++ {
		sp.Trunc = c.Fault.Int(slack)
		c.Digest(uint64(sp.Trunc))
		c.Hit("truncation")
		got, err := imageCall(c, config, reader(c, b, sp).R)
		if err == nil {
			c.Fail("truncated", "%d of %d needed bytes: success", sp.Trunc, slack)
		}
		if got {
			c.Fail("image", "a result together with the error %v", err)
		}
	}
	c.NoLeak("image.Decode")
}

// c04Image lets the reader of a document that is decoded through package image fail.
func c04Image(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 8, MaxLayers: 2})
	sp := faultSpec(c)
	sp.ErrOnce = false // (bufio.Reader, which package image puts in between, has its own ways with those)
	config := c.Gen.P(1, 3)
	slack, _ := need(d, b, m, imageOpt)
	if config {
		slack = m.ConfigEnd
	}
	c.Desc(func() string { return fmt.Sprintf("error at %d of %d, reader %v", sp.ErrAt, slack, sp) })
	for i := 0; i < 8; i++ {
		sp.ErrAt = c.Fault.Int(slack)
		c.Digest(uint64(sp.ErrAt))
		r := reader(c, b, sp)
		got, err := imageCall(c, config, r.R)
		if err == nil {
			if r.Core.Fired {
				c.Fail("swallowed", "the reader failed at offset %d of %d needed bytes but there is a result", sp.ErrAt, slack)
			}
			continue
		}
		if got {
			c.Fail("image", "a result together with the error %v", err)
		}
		if !r.Core.Fired {
			c.Fail("refused", "the reader did not fail but there is an error: %v", err)
		}
		// (package image tells the format from the first bytes and says so when it cannot)
		if sp.ErrAt >= 12 && !surfaced(err, r, sp) {
			c.Fail("identity", "the reader failed at offset %d of %d with %q, reported is %q", sp.ErrAt, slack, r.Core.Err, err)
		}
	}
	c.NoLeak("image.Decode")
}

func faultSpec(c *vh.Ctx) simio.Spec {
	sp := simio.RandomSpec(c.Fault)
	if sp.Kind == simio.Bytes {
		sp.Kind = simio.Plain
	}
	sp.ErrData = c.Fault.P(1, 2)
	sp.ErrOnce = c.Fault.P(1, 3)
	if c.Fault.P(1, 3) {
		sp.ErrEOF = 1 + c.Fault.Int(2)
	}
	return sp
}

// surfaced tells whether err is, wraps or stands for the error of the reader.
// An error that itself claims to be an end of the stream may be reported as an unexpected one.
func surfaced(err error, r *simio.Reader, sp simio.Spec) bool {
	return errors.Is(err, r.Core.Err) || sp.ErrEOF != 0 && errors.Is(err, io.ErrUnexpectedEOF)
}

func c04Error(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 16})
	o := randOpts(c)
	sp := faultSpec(c)
	slack, end := need(d, b, m, o)
	at := cutPoint(c, b, m, end)
	c.Digest(uint64(at))
	c.Desc(func() string { return fmt.Sprintf("error at %d of %d, reader %v", at, end, sp) })
	if !checkError(c, d, b, m, o, sp, at, slack, end) {
		c.Trivial()
	}
	c.NoLeak("Decode")
}

// c04All lets the reader fail at a run of neighbouring offsets.
func c04All(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 4, MaxLayers: 2})
	o := randOpts(c)
	sp := faultSpec(c)
	slack, end := need(d, b, m, o)
	n := 100
	from := 0
	if end > n {
		from = c.Fault.Int(end - n)
		if m.LayersStart > 0 && c.Fault.P(1, 2) {
			from = min(from, m.LayersStart+c.Fault.Int(m.LayersEnd-m.LayersStart))
		}
	}
	c.Digest(uint64(from))
	at := 0
	c.Desc(func() string { return fmt.Sprintf("error at %d of %d, reader %v", at, end, sp) })
	for at = from; at < from+n && at < end; at++ {
		checkError(c, d, b, m, o, sp, at, slack, end)
	}
	c.NoLeak("Decode")
}

// checkError decodes with a reader that fails at offset at and tells whether it did.
func checkError(c *vh.Ctx, d *psdgen.Doc, b []byte, m *psdgen.Map, o *psd.DecodeOptions, sp simio.Spec, at, slack, end int) bool {
	sp.ErrAt = at
	r := reader(c, b, sp)
	res := decode(c, r, o)
	must := r.Core.Fired && at < slack
	if sp.Kind == simio.Bufio && sp.ErrOnce {
		must = false // bufio.Reader.Discard itself reads past an error it was given with data
	}
	if sp.ErrOnce && must && !(o != nil && o.SkipLayerImage) {
		// the checksum and filler after compressed channel data carry nothing
		for _, s := range m.Spans {
			if at >= s.Start && at < s.End && s.Method >= psdgen.ZIP && at >= s.Start+2+zipNeed(b[s.Start+2:s.End], s.Size) {
				must = false
			}
		}
	}
	if res.err == nil {
		if must {
			c.Fail("swallowed", "the reader failed at offset %d of %d needed bytes (once=%v) but Decode succeeds", at, end, sp.ErrOnce)
		}
		mustEqual(c, d, res)
		return r.Core.Fired
	}
	if res.p != nil {
		c.Fail("image", "Decode returns an image together with the error %v", res.err)
	}
	if !r.Core.Fired {
		c.Fail("refused", "the reader did not fail but Decode does: %v", res.err)
	}
	if !surfaced(res.err, r, sp) {
		c.Fail("identity", "the reader failed at offset %d of %d with %q, Decode reports %q", at, end, r.Core.Err, res.err)
	}
	return true
}

func c04Config(c *vh.Ctx) {
	env(c)
	_, b, m := genDoc(c, psdgen.Opt{MaxDim: 5, MaxLayers: 1, AnyMode: true})
	sp := faultSpec(c)
	sp.ErrAt = c.Fault.Int(m.ConfigEnd)
	c.Digest(uint64(sp.ErrAt))
	r := reader(c, b, sp)
	var err error
	c.Call("DecodeConfig", func() { _, _, err = psd.DecodeConfig(r.R) })
	if err == nil {
		if r.Core.Fired {
			c.Fail("swallowed", "the reader failed at offset %d of %d but DecodeConfig succeeds", sp.ErrAt, m.ConfigEnd)
		}
		c.Trivial()
	} else if !surfaced(err, r, sp) {
		c.Fail("identity", "the reader failed with %q, DecodeConfig reports %q", r.Core.Err, err)
	}
}

func corruptDoc(c *vh.Ctx, o psdgen.Opt) ([]byte, *psdgen.Doc) {
	if o.MaxLayers == 0 {
		o.MaxLayers = 6
	}
	o.Folders = true
	if c.Gen.P(1, 16) {
		o.Deep, o.MaxLayers, o.MaxDim = true, o.MaxLayers+12, psdgen.Min(o.MaxDim, 6)
	}
	d := psdgen.Generate(c.Gen, o)
	mangled := c.Gen.P(1, 3)
	if mangled {
		log := psdgen.Mangle(d, c.Gen)
		c.Hit("malformed")
		c.Desc(func() string { return fmt.Sprintf("malformed: %v", log) })
	}
	b, m := psdgen.Encode(d, c.Gen)
	c.Desc(func() string { return "document " + d.String() })
	if mangled && c.Gen.P(3, 4) {
		c.DigestBytes(b)
		return b, d
	}
	var other []byte
	if c.Gen.P(1, 6) {
		_, other, _ = genDoc(c, psdgen.Opt{MaxDim: 8, MaxLayers: 3, AnyMode: true})
	}
	x, log := psdgen.Corrupt(b, m, other, c.Fault)
	c.DigestBytes(x)
	c.Hit("corruption")
	c.Desc(func() string { return fmt.Sprintf("corrupted: %v", log) })
	return x, d
}

func corrupt(c *vh.Ctx, read bool) {
	env(c)
	x, _ := corruptDoc(c, psdgen.Opt{MaxDim: 12, AnyMode: true, MaxLayers: 5})
	o := randOpts(c)
	if c.Gen.P(1, 3) {
		if o == nil {
			o = &psd.DecodeOptions{}
		}
		o.SkipMergedImage = true
	}
	sp := simio.RandomSpec(c.Fault)
	r := reader(c, x, sp)
	res := decode(c, r, o)
	c.NoLeak("Decode")
	if res.err == nil && res.p == nil {
		c.Fail("nothing", "Decode returns neither a document nor an error")
	}
	if !read {
		if res.err == nil {
			c.Probe("damaged document decoded")
		}
		return
	}
	if res.err != nil {
		c.Trivial()
		return
	}
	readAll(c, res.p, !res.opts.NoLayers)
}

func readAll(c *vh.Ctx, p *psd.PSD, layers bool) {
	if s := oracle.Sizes(p, layers); s != "" {
		c.Fail("size", "%s", s)
	}
	c.Call("reading the decoded images", func() { oracle.Digest(p, true) })
	if p.Config.ColorMode == psd.ColorModeIndexed {
		c.Call("Palette", func() { p.Config.Palette() })
	}
}

func c05Config(c *vh.Ctx) {
	env(c)
	x, _ := corruptDoc(c, psdgen.Opt{MaxDim: 12, AnyMode: true, MaxLayers: 1})
	r := reader(c, x, simio.RandomSpec(c.Fault))
	switch c.Gen.Int(3) {
	case 0:
		c.Call("DecodeConfig", func() {
			cfg, _, err := psd.DecodeConfig(r.R)
			if err == nil {
				cfg.Palette()
			}
		})
	case 1:
		c.Call("image.Decode", func() { image.Decode(r.R) })
	case 2:
		c.Call("image.DecodeConfig", func() { image.DecodeConfig(r.R) })
	}
	c.NoLeak("decode")
}

func c05Noise(c *vh.Ctx) {
	env(c)
	_, b, m := genDoc(c, psdgen.Opt{MaxDim: 8, AnyMode: true, MaxLayers: 3})
	// the structure up to a point, noise from there
	at := cutPoint(c, b, m, len(b))
	x := append([]byte{}, b[:at]...)
	n := make([]byte, c.Gen.Int(400))
	c.Fault.Fill(n)
	x = append(x, n...)
	c.DigestBytes(x)
	c.Hit("noise")
	decode(c, reader(c, x, simio.RandomSpec(c.Fault)), randOpts(c))
	c.NoLeak("Decode")
}

// c05Nested puts layer information into layer records into layer information
// and so on: a decoder that follows it needs a stack as deep as the stream is
// long, and a stack that is too deep cannot be recovered from.
func c05Nested(c *vh.Ctx) {
	env(c)
	const depth = 3000
	key := []string{"Layr", "Lr16", "Lr32"}[c.Gen.Int(3)]
	inner := []byte{}
	if c.Gen.P(1, 2) {
		inner = append(inner, "8BIMluni\x00\x00\x00\x04\x00\x00\x00\x00"...)
	}
	// built backwards: every level is a head and what follows it
	var heads [][]byte
	size := len(inner)
	for i := 0; i < depth; i++ {
		var h []byte
		if i > 0 || len(inner) == 0 {
			h = append(h, "8BIM"+key...)
			h = binary.BigEndian.AppendUint32(h, 0)
			if i > 0 {
				binary.BigEndian.PutUint32(h[8:], uint32(size))
			}
		}
		// mask, ranges, name
		h = append(make([]byte, 12), h...)
		var rec []byte
		rec = append(rec, 0, 1)
		rec = append(rec, make([]byte, 18)...)
		rec = append(rec, "8BIMnorm\xff\x00\x00\x00"...)
		rec = binary.BigEndian.AppendUint32(rec, uint32(len(h)+size))
		h = append(rec, h...)
		heads = append(heads, h)
		size += len(h)
	}
	b := append([]byte{}, "8BPS\x00\x01\x00\x00\x00\x00\x00\x00\x00\x03\x00\x00\x00\x01\x00\x00\x00\x01\x00\x08\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00"...)
	b = binary.BigEndian.AppendUint32(b, uint32(4+size))
	b = binary.BigEndian.AppendUint32(b, uint32(size))
	for i := range heads {
		b = append(b, heads[depth-1-i]...)
	}
	b = append(append(b, inner...), make([]byte, 5)...)
	c.DigestBytes(b)
	c.Hit("nested structure")
	r := &depthReader{b: b, from: len(b) - 300 - len(inner)}
	c.Call("Decode", func() { psd.Decode(r, randOpts(c)) })
	if r.frames > depth {
		c.Fail("depth", "the stack is %d frames deep when the end of %d bytes is reached: a longer stream of this kind overflows it", r.frames, len(b))
	}
	c.NoLeak("Decode")
}

// depthReader notes how deep the stack is when the end of its bytes is reached.
type depthReader struct {
	b            []byte
	off, from    int
	frames, seen int
}

func (r *depthReader) Read(p []byte) (int, error) {
	if r.off >= r.from && r.seen < 3 {
		r.seen++
		pc := make([]uintptr, 20000)
		r.frames = max(r.frames, runtime.Callers(0, pc))
	}
	if r.off == len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.off:])
	r.off += n
	return n, nil
}

func c06Well(c *vh.Ctx) {
	env(c)
	_, b, _ := genDoc(c, psdgen.Opt{BigDim: 300})
	res := decode(c, reader(c, b, simio.Perfect()), nil)
	if res.err != nil {
		c.Fail("refused", "well-formed document is refused: %v", res.err)
	}
	readAll(c, res.p, !res.opts.NoLayers)
}

// outcome decodes with a given number of processors.
func outcome(c *vh.Ctx, b []byte, o *psd.DecodeOptions, n int) (ok bool, dig uint64, err error) {
	vsim.SetProcs(n)
	res := decode(c, simio.New(b, 0, simio.Perfect(), c.Fault, c), o)
	c.NoLeak("Decode")
	if res.err != nil {
		return false, 0, res.err
	}
	c.Call("digest", func() { dig = oracle.Digest(res.p, false) })
	return true, dig, nil
}

func differ(c *vh.Ctx, b []byte, o *psd.DecodeOptions) {
	ok1, d1, e1 := outcome(c, b, o, 1)
	for k := 0; k < 2; k++ {
		n := []int{2, 3, 4, 5, 8, 16}[c.Sched.Int(6)]
		ok2, d2, e2 := outcome(c, b, o, n)
		if ok1 != ok2 {
			c.Fail("outcome", "GOMAXPROCS=1: %v, GOMAXPROCS=%d: %v", e1, n, e2)
		}
		if d1 != d2 {
			c.Fail("content", "GOMAXPROCS=1 and GOMAXPROCS=%d decode to different documents", n)
		}
	}
	if ok1 {
		c.Probe("decoded")
	} else {
		c.Probe("refused")
	}
}

func c07(c *vh.Ctx) {
	psd.Debug = nil
	var b []byte
	opt := psdgen.Opt{MaxDim: 30, MaxLayers: 4, Methods: []int{psdgen.RLE, psdgen.RLE, psdgen.RLE, psdgen.Raw, psdgen.ZIP}, AnyMode: true}
	if c.Gen.P(1, 2) {
		_, b, _ = genDoc(c, opt)
	} else {
		b, _ = corruptDoc(c, opt)
	}
	differ(c, b, randOpts(c))
}

// c07RLE damages PackBits data in particular: row lengths and opcodes.
func c07RLE(c *vh.Ctx) {
	psd.Debug = nil
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 30, MaxLayers: 2, Methods: []int{psdgen.RLE}})
	var rows []psdgen.Field
	for _, f := range m.Fields {
		if f.Name == "rowLen" {
			rows = append(rows, f)
		}
	}
	if len(rows) == 0 {
		c.Trivial()
		return
	}
	_ = d
	for k := c.Fault.Int(4); k > 0; k-- {
		switch c.Fault.Int(4) {
		case 0, 1: // move bytes between rows
			i := c.Fault.Int(len(rows))
			j := c.Fault.Int(len(rows))
			f, g := rows[i], rows[j]
			n := byte(1 + c.Fault.Int(5))
			lo, hi := &b[f.Off+f.Size-1], &b[g.Off+g.Size-1]
			if *hi >= n {
				*lo += n
				*hi -= n
				c.Hit("row lengths shifted")
			}
		case 2:
			f := rows[c.Fault.Int(len(rows))]
			b[f.Off+f.Size-1] = c.Fault.Byte()
			c.Hit("row length damaged")
		case 3:
			last := rows[len(rows)-1]
			i := c.Fault.Range(min(last.Off+last.Size, len(b)-1), len(b)-1)
			if c.Fault.P(1, 2) && len(m.Spans) > 0 {
				s := m.Spans[c.Fault.Int(len(m.Spans))]
				if s.End-s.Start > 2 {
					i = c.Fault.Range(s.Start+2, s.End-1)
				}
			}
			b[i] = c.Fault.Byte()
			c.Hit("row data damaged")
		}
	}
	c.DigestBytes(b)
	differ(c, b, nil)
}

// stops are errors with which a callback may refuse a document.
var stops = []error{
	errors.New("stop"), io.EOF, io.ErrUnexpectedEOF, fmt.Errorf("refused: %w", io.EOF), context.Canceled,
	image.ErrFormat, image.ErrFormat, bufio.ErrBufferFull,
}

func c08(c *vh.Ctx) {
	env(c)
	d, b, m := genDoc(c, psdgen.Opt{MaxDim: 12, NoZIP: c.Gen.P(1, 2)})
	sp := simio.RandomSpec(c.Fault)
	r := reader(c, b, sp)
	c.Desc(func() string { return "reader " + sp.String() })
	o := &psd.DecodeOptions{SkipLayerImage: c.Gen.P(1, 4), SkipMergedImage: c.Gen.P(1, 4)}
	loaded, layers := 0, 0
	var stop error
	if c.Gen.P(1, 4) {
		stop = stops[c.Gen.Int(len(stops))]
	}
	calls := 0
	if c.Gen.P(3, 4) {
		o.ConfigLoaded = func(cfg psd.Config) error {
			loaded++
			if layers > 0 {
				c.Fail("order", "ConfigLoaded is called after LayerImageLoaded")
			}
			if t := r.Taken(); t > m.ConfigEnd {
				c.Fail("early", "ConfigLoaded is called when %d bytes were taken, the header ends at %d", t, m.ConfigEnd)
			}
			if s := oracle.Config(d, &cfg); s != "" {
				c.Fail("config", "ConfigLoaded gets a wrong configuration: %s", s)
			}
			calls = r.Core.Calls
			return stop
		}
	} else {
		stop = nil
	}
	if c.Gen.P(4, 5) {
		o.LayerImageLoaded = func(l *psd.Layer, index, total int) {
			if index != layers {
				c.Fail("order", "LayerImageLoaded gets index %d, %d expected", index, layers)
			}
			if total != len(d.Layers) {
				c.Fail("total", "LayerImageLoaded gets total %d of %d layers", total, len(d.Layers))
			}
			if index >= len(d.Layers) {
				c.Fail("order", "LayerImageLoaded gets index %d of %d layers", index, len(d.Layers))
			}
			if t := r.Taken(); t > m.ImgEnd[index] {
				c.Fail("late", "layer %d is reported when %d bytes were taken, its data ends at %d", index, t, m.ImgEnd[index])
			}
			if l == nil {
				c.Fail("layer", "LayerImageLoaded gets no layer")
			}
			var s string
			c.Call("reading the layer", func() { s = oracle.Layer(d, index, l, oracle.Options{}, fmt.Sprintf("layer %d as handed over", index)) })
			if s != "" {
				c.Fail("layer", "%s", s)
			}
			layers++
		}
	}
	res := decode(c, r, o)
	if stop != nil {
		if !errors.Is(res.err, stop) {
			c.Fail("stop", "ConfigLoaded returned an error, Decode returns %v", res.err)
		}
		if res.p != nil {
			c.Fail("image", "Decode returns a document with the error of ConfigLoaded")
		}
		if layers > 0 || r.Taken() > m.ConfigEnd || r.Core.Calls > calls && r.Injects() {
			c.Fail("stop", "Decode goes on reading after ConfigLoaded failed")
		}
		c.Hit("ConfigLoaded error")
	} else {
		mustEqual(c, d, res)
		want := len(d.Layers)
		if o.SkipLayerImage || o.LayerImageLoaded == nil {
			want = 0
		}
		if layers != want {
			c.Fail("count", "LayerImageLoaded was called %d times for %d layers", layers, want)
		}
	}
	if o.ConfigLoaded != nil && loaded != 1 {
		c.Fail("count", "ConfigLoaded was called %d times", loaded)
	}
	c.NoLeak("Decode")
}

func c08Skip(c *vh.Ctx) {
	env(c)
	d, b, _ := genDoc(c, psdgen.Opt{MaxDim: 12, AnyMode: c.Gen.P(1, 4)})
	for k := 0; k < 4; k++ {
		o := &psd.DecodeOptions{SkipLayerImage: k&1 != 0, SkipMergedImage: k&2 != 0}
		sp := simio.RandomSpec(c.Fault)
		mustEqual(c, d, decode(c, reader(c, b, sp), o))
	}
	c.NoLeak("Decode")
}

func c09Decodes(c *vh.Ctx) {
	env(c)
	vsim.SetProcs(c.Sched.Range(2, 6))
	n := c.Gen.Range(2, 5)
	type job struct {
		d   *psdgen.Doc
		r   *simio.Reader
		o   *psd.DecodeOptions
		res *result
		bad bool
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		d, b, m := genDoc(c, psdgen.Opt{MaxDim: 12, MaxLayers: 3, Methods: []int{0, 1, 1, 2, 3}})
		if i > 0 && c.Gen.P(1, 4) {
			// the same bytes as another one
			d, b, m = genDoc(c, psdgen.Opt{MaxDim: 4, MaxLayers: 1})
		}
		if c.Fault.P(1, 5) {
			b, _ = psdgen.Corrupt(b, m, nil, c.Fault)
			j.bad = true
			c.Hit("corruption")
		}
		j.d = d
		j.o = randOpts(c)
		if i > 0 && c.Gen.P(1, 3) {
			j.o = jobs[i-1].o // the same options
		}
		sp := simio.RandomSpec(c.Fault)
		sp.Yield = true
		j.r = simio.New(b, 0, sp, vsim.NewStream("reader", c.Fault.N(1<<32)), nohooks{})
		jobs[i] = j
	}
	var g vh.Group
	for i, j := range jobs {
		j := j
		c.Go(&g, fmt.Sprintf("decoder%d", i), func() { j.res = decode(c, j.r, j.o) })
	}
	g.Wait()
	for i, j := range jobs {
		if j.bad {
			continue // compared below
		}
		if j.res.err != nil {
			c.Fail("refused", "decode %d of %d concurrent ones fails: %v", i, n, j.res.err)
		}
		mustEqual(c, j.d, j.res)
	}
	for _, j := range jobs {
		if !j.bad {
			continue
		}
		res := decode(c, simio.New(j.r.Data(), 0, simio.Perfect(), c.Fault, c), j.o)
		if (res.err == nil) != (j.res.err == nil) {
			c.Fail("outcome", "alone: %v, with others: %v", res.err, j.res.err)
		}
		if res.err == nil && oracle.Digest(res.p, false) != oracle.Digest(j.res.p, false) {
			c.Fail("content", "alone and with others the same bytes decode differently")
		}
	}
	c.NoLeak("Decode")
}

type nohooks struct{}

func (nohooks) Hit(string) {}

func c09Readers(c *vh.Ctx) {
	env(c)
	d, b, _ := genDoc(c, psdgen.Opt{MaxDim: 12, MaxLayers: 3})
	res := decode(c, simio.New(b, 0, simio.Perfect(), c.Fault, c), nil)
	if c.Gen.P(1, 2) {
		mustEqual(c, d, res) // otherwise those below are the first to look at it
	} else if res.err != nil {
		c.Fail("refused", "Decode fails: %v", res.err)
	}
	n := c.Gen.Range(2, 4)
	out := make([]string, n)
	dig := make([]uint64, n)
	var g vh.Group
	for i := 0; i < n; i++ {
		i := i
		c.Go(&g, fmt.Sprintf("reader%d", i), func() {
			c.Call("reading the decoded document", func() {
				if i%2 == 0 {
					out[i] = oracle.PSD(d, res.p, oracle.Options{})
				}
				dig[i] = oracle.Digest(res.p, true)
			})
		})
	}
	g.Wait()
	for i := 0; i < n; i++ {
		if out[i] != "" {
			c.Fail("content", "concurrent reader: %s", out[i])
		}
		if dig[i] != dig[0] {
			c.Fail("content", "concurrent readers see different documents")
		}
	}
}
