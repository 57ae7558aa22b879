package scomp

import (
	"context"
	"image"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"
	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/simio"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

// Cancellation is there to spare the rest of the work: rendering and tiling go
// on to the next row of tiles only if they were not cancelled, transforming to
// the next layer. With many more rows (layers) than workers and a fair
// schedule, what is done after the cancellation is a small part of the whole.

// tall makes a document of many rows of tiles, or many equal layers.
func tall(c *vh.Ctx, rows, layers int) *world {
	w := &world{c: c}
	w.tile = c.Gen.Range(2, 5)
	width := w.tile * c.Gen.Range(2, 4)
	height := w.tile * rows
	d := &psdgen.Doc{Version: 1, Channels: 3, W: width, H: height, Depth: 8, Mode: psdgen.RGB, HasSection: true}
	plane := func(v int) []byte {
		b := make([]byte, width*height)
		for i := range b {
			b[i] = byte(v + i)
		}
		return b
	}
	for i := 0; i < 3; i++ {
		d.Planes = append(d.Planes, plane(i*40))
	}
	for i := 0; i < layers; i++ {
		l := &psdgen.Layer{Rect: image.Rect(0, 0, width, height), Blend: "norm", Opacity: 255, Name: "l", Flags: 0}
		for _, id := range []int{-1, 0, 1, 2} {
			l.Chans = append(l.Chans, &psdgen.Chan{ID: id, Rect: l.Rect, Method: psdgen.Raw, Data: plane(c.Gen.Int(256))})
		}
		d.Layers = append(d.Layers, l)
	}
	w.d = d
	w.b, w.m = psdgen.Encode(d, c.Gen)
	c.DigestBytes(w.b)
	c.Digest(uint64(w.tile))
	return w
}

// hurry cancels one call and limits what it may do afterwards. full is the
// length of the undisturbed call, fixed the part that cannot be cancelled.
func hurry(c *vh.Ctx, what string, full, fixed int64, call func(ctx context.Context) error) {
	if full < 4*fixed || full < 40000 {
		c.Trivial()
		return
	}
	vsim.Fair(int64(c.Sched.Range(5, 40)))
	at := fixed + int64(c.Fault.Int(int((full-fixed)/3)))
	k := cancelAfter(c, at)
	err := call(k.ctx)
	late := k.end()
	k.cancel()
	if !k.fired() {
		c.Trivial()
		return
	}
	if late > fixed+full/4+8000 {
		c.Fail("late", "%s cancelled at step %d went on for %d steps; a complete one takes %d", what, at, late, full)
	}
	if err != nil && !isAbort(err) {
		c.Fail("error", "cancelled %s returns %v", what, err)
	}
	c.Probe("work spared")
	c.NoLeak(what)
}

func c13Prompt(c *vh.Ctx) {
	n := c.Gen.Range(1, 4)
	w := tall(c, c.Gen.Range(20, 40)*n, c.Gen.Range(1, 3))
	t := w.fresh()
	m := w.fresh()
	base := image.NewNRGBA(t.CanvasRect)
	before := vsim.Steps()
	w.renderOne(m, base)
	full := vsim.Steps() - before
	vsim.SetProcs(n)
	diff := c.Gen.P(1, 3)
	hurry(c, "Render", full, 0, func(ctx context.Context) (err error) {
		c.Call("Render", func() {
			if diff {
				err = t.Renderer.RenderDiff(ctx, base)
			} else {
				err = t.Renderer.Render(ctx, base)
			}
		})
		return err
	})
}

// decodeOnly reads the document the way New does.
func (w *world) decodeOnly() {
	r := simio.New(w.b, 0, simio.Perfect(), w.c.Fault, w.c)
	w.c.Call("Decode", func() {
		if _, _, err := psd.Decode(r.R, &psd.DecodeOptions{SkipMergedImage: true}); err != nil {
			w.c.Fail("refused", "Decode refuses a well-formed document: %v", err)
		}
	})
}

func c15Prompt(c *vh.Ctx) {
	n := c.Gen.Range(1, 3)
	w := tall(c, c.Gen.Range(40, 70)*n, c.Gen.Range(1, 2))
	before := vsim.Steps()
	w.decodeOnly()
	fixed := vsim.Steps() - before
	before = vsim.Steps()
	w.fresh()
	full := vsim.Steps() - before
	vsim.SetProcs(n)
	hurry(c, "New", full, fixed, func(ctx context.Context) error {
		_, err := w.newTree(ctx, simio.New(w.b, 0, simio.Perfect(), c.Fault, c))
		return err
	})
}

func c17Prompt(c *vh.Ctx) {
	n := c.Gen.Range(1, 3)
	w := tall(c, c.Gen.Range(4, 8), c.Gen.Range(14, 20)*n)
	t := w.fresh()
	m := randMatrix(c.Gen)
	var err error
	before := vsim.Steps()
	var nt *composite.Tree
	vsim.SetProcs(1)
	c.Call("Transform", func() { nt, err = t.Transform(context.Background(), m, 0) })
	if err != nil || nt == nil {
		c.Fail("error", "Transform that was not cancelled returns %v", err)
	}
	full := vsim.Steps() - before
	vsim.SetProcs(n)
	hurry(c, "Transform", full, 0, func(ctx context.Context) error {
		c.Call("Transform", func() { nt, err = t.Transform(ctx, m, 0) })
		return err
	})
}
