package scomp

import (
	"context"
	"fmt"
	"image"
	"sort"

	"github.com/oov/psd/blend"
	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/downscale"
	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C18",
		Scens: []vh.Scenario{
			{Name: "thumbnails", Weight: 4, Fn: c18Thumbnails},
			{Name: "sheet", Weight: 4, Fn: c18Sheet},
			{Name: "cancel", Weight: 3, Fn: c18Cancel},
			{Name: "concurrent", Weight: 2, Fn: c18Concurrent},
		},
		Rule: "thumbnails and thumbnail sheets of generated documents under random GOMAXPROCS, map orders, schedules and cancellations, compared with the stored pixels of the layers; distinct = digest of document, size and schedule; trivial = no layer with pixels",
		Real: realParts, Stub: stubParts,
	})
}

// expectThumb is the thumbnail of the stored pixels of a layer, nil if none of
// them is visible.
func (w *world) expectThumb(l *psdgen.Layer, size int) *image.NRGBA {
	if l.Div() != 0 || l.Rect.Empty() {
		return nil
	}
	src := image.NewNRGBA(l.Rect)
	var r image.Rectangle
	for y := l.Rect.Min.Y; y < l.Rect.Max.Y; y++ {
		for x := l.Rect.Min.X; x < l.Rect.Max.X; x++ {
			p := layerPixel(l, x, y)
			src.SetNRGBA(x, y, p)
			if p.A != 0 {
				r = r.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	if r.Empty() {
		return nil
	}
	// the tiles are copied with this operation, which rounds
	cp := image.NewNRGBA(r)
	blend.Copy.Draw(cp, r, src, r.Min)
	d := image.Rect(0, 0, size, size)
	if r.Dx() > r.Dy() {
		d.Max.Y = max(1, r.Dy()*size/r.Dx())
	} else {
		d.Max.X = max(1, r.Dx()*size/r.Dy())
	}
	m := image.NewNRGBA(d)
	downscale.NRGBAFast(context.Background(), m, cp)
	return m
}

// expectThumbs gives the thumbnails of all layers of the tree.
func (w *world) expectThumbs(t *composite.Tree, size int) map[int]*image.NRGBA {
	m := map[int]*image.NRGBA{}
	for _, l := range layers(t) {
		if x := w.expectThumb(w.d.Layers[l.SeqID], size); x != nil {
			m[l.SeqID] = x
		}
	}
	return m
}

func keys[T any](m map[int]T) []int {
	k := []int{}
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

func (w *world) sameThumbs(got, want map[int]*image.NRGBA, what string) {
	c := w.c
	if g, e := fmt.Sprint(keys(got)), fmt.Sprint(keys(want)); g != e {
		c.Fail("layers", "%s: thumbnails of layers %v, expected %v", what, g, e)
	}
	for _, i := range keys(want) {
		if s := diffNear(got[i], want[i]); s != "" {
			c.Fail("thumbnail", "%s: thumbnail of layer #%d: %s", what, i, s)
		}
	}
}

func newThumbWorld(c *vh.Ctx) (w *world, t *composite.Tree, size int) {
	w = newWorld(c, 12, 9)
	size = c.Gen.Range(1, 14)
	if c.Gen.P(1, 25) {
		size = c.Gen.Range(15, 120)
	}
	c.Digest(uint64(size))
	c.Desc(func() string { return fmt.Sprintf("thumbnail size %d", size) })
	t = w.build()
	return w, t, size
}

func c18Thumbnails(c *vh.Ctx) {
	w, t, size := newThumbWorld(c)
	want := w.expectThumbs(t, size)
	if len(want) == 0 {
		c.Trivial()
	}
	before := w.show(t)
	for n := c.Gen.Range(1, 2); n > 0; n-- {
		procs(c)
		var got map[int]*image.NRGBA
		var err error
		c.Call("Thumbnails", func() { got, err = t.Thumbnails(context.Background(), size) })
		if err != nil {
			c.Fail("error", "Thumbnails that was not cancelled returns %v", err)
		}
		w.sameThumbs(got, want, fmt.Sprintf("GOMAXPROCS=%d", vsim.Procs()))
		c.NoLeak("Thumbnails")
	}
	ls := layers(t)
	for n := 2; n > 0 && len(ls) > 0; n-- {
		l := ls[c.Gen.Int(len(ls))]
		var m *image.NRGBA
		var err error
		var buf []byte
		if c.Gen.P(1, 2) {
			buf = make([]byte, c.Gen.Int(1200))
			c.Gen.Fill(buf)
		}
		c.Call("Thumbnail", func() { m, err = t.Thumbnail(l.SeqID, size, buf) })
		x := want[l.SeqID]
		if (x == nil) != (err != nil) {
			c.Fail("layers", "Thumbnail of #%d returns %v", l.SeqID, err)
		}
		if x != nil {
			if s := diffNear(m, x); s != "" {
				c.Fail("thumbnail", "Thumbnail of #%d: %s", l.SeqID, s)
			}
		}
	}
	before.same(w, t, "Thumbnails")
}

// checkSheet checks a sheet against the thumbnails it has to show.
func (w *world) checkSheet(img *image.NRGBA, cells map[int]image.Rectangle, want map[int]*image.NRGBA, size int) {
	c := w.c
	if img == nil {
		c.Fail("neither", "ThumbnailSheet returns neither a sheet nor an error")
	}
	if g, e := fmt.Sprint(keys(cells)), fmt.Sprint(keys(want)); g != e {
		c.Fail("layers", "sheet: cells of layers %v, expected %v", g, e)
	}
	ks := keys(want)
	for n, i := range ks {
		r := cells[i]
		if r.Dx() != size || r.Dy() != size || !r.In(img.Rect) {
			c.Fail("cell", "the cell %v of layer #%d is not a %dx%d part of the sheet %v", r, i, size, size, img.Rect)
		}
		for _, j := range ks[:n] {
			if r.Overlaps(cells[j]) {
				c.Fail("cell", "the cells of layers #%d and #%d overlap: %v %v", j, i, cells[j], r)
			}
		}
		// wherever in its cell
		x := want[i]
		var first string
		ok := false
		for y0 := 0; y0 <= size-x.Rect.Dy() && !ok; y0++ {
			for x0 := 0; x0 <= size-x.Rect.Dx() && !ok; x0++ {
				e := image.NewNRGBA(r)
				at := r.Min.Add(image.Pt(x0, y0))
				blend.Copy.Draw(e, image.Rectangle{at, at.Add(x.Rect.Size())}, x, image.Point{})
				g := image.NewNRGBA(r)
				for y := r.Min.Y; y < r.Max.Y; y++ {
					for xx := r.Min.X; xx < r.Max.X; xx++ {
						g.SetNRGBA(xx, y, img.NRGBAAt(xx, y))
					}
				}
				s := diffNear(g, e)
				ok = s == ""
				if x0 == (size-x.Rect.Dx())/2 && y0 == (size-x.Rect.Dy())/2 {
					first = s
				}
			}
		}
		if !ok {
			c.Fail("thumbnail", "the cell of layer #%d does not show its thumbnail: %s", i, first)
		}
	}
	for y := img.Rect.Min.Y; y < img.Rect.Max.Y; y++ {
		for x := img.Rect.Min.X; x < img.Rect.Max.X; x++ {
			if img.NRGBAAt(x, y).A == 0 {
				continue
			}
			in := false
			for _, r := range cells {
				in = in || image.Pt(x, y).In(r)
			}
			if !in {
				c.Fail("cell", "the sheet has a pixel outside of all cells at (%d,%d)", x, y)
			}
		}
	}
}

func c18Sheet(c *vh.Ctx) {
	w, t, size := newThumbWorld(c)
	want := w.expectThumbs(t, size)
	if len(want) == 0 {
		c.Trivial()
	}
	before := w.show(t)
	procs(c)
	var img *image.NRGBA
	var cells map[int]image.Rectangle
	var err error
	c.Call("ThumbnailSheet", func() { img, cells, err = t.ThumbnailSheet(context.Background(), size) })
	if err != nil {
		c.Fail("error", "ThumbnailSheet that was not cancelled returns %v", err)
	}
	c.NoLeak("ThumbnailSheet")
	w.checkSheet(img, cells, want, size)
	before.same(w, t, "ThumbnailSheet")
}

func c18Cancel(c *vh.Ctx) {
	w, t, size := newThumbWorld(c)
	want := w.expectThumbs(t, size)
	if len(want) == 0 {
		c.Trivial()
	}
	before := w.show(t)
	s0 := vsim.Steps()
	c.Call("ThumbnailSheet", func() { t.ThumbnailSheet(context.Background(), size) })
	steps := vsim.Steps() - s0
	took := false
	for n := c.Gen.Range(1, 3); n > 0; n-- {
		procs(c)
		at := int64(c.Fault.Int(int(steps*5/4) + 2))
		k := cancelAfter(c, at)
		sheet := c.Gen.P(1, 2)
		var got map[int]*image.NRGBA
		var img *image.NRGBA
		var cells map[int]image.Rectangle
		var err error
		if sheet {
			c.Call("ThumbnailSheet", func() { img, cells, err = t.ThumbnailSheet(k.ctx, size) })
		} else {
			c.Call("Thumbnails", func() { got, err = t.Thumbnails(k.ctx, size) })
		}
		late := k.end()
		k.cancel()
		c.Desc(func() string { return fmt.Sprintf("sheet=%v cancel=%d (took %v) -> %v", sheet, at, k.fired(), err) })
		c.NoLeak("Thumbnails")
		if !k.fired() && err != nil {
			c.Fail("error", "a call that was not cancelled returns %v", err)
		}
		if k.fired() {
			took = true
			if late > 4*steps+20000 {
				c.Fail("late", "the call went on for %d steps after its context was cancelled (a complete one takes %d)", late, steps)
			}
		}
		if err != nil {
			if !isAbort(err) {
				c.Fail("error", "the cancelled call returns %v", err)
			}
			c.Probe("aborted")
			continue
		}
		if k.fired() {
			c.Probe("completed although cancelled")
		}
		if sheet {
			w.checkSheet(img, cells, want, size)
		} else {
			w.sameThumbs(got, want, "cancelled without an error")
		}
	}
	if !took {
		c.Trivial()
	}
	before.same(w, t, "Thumbnails")
}

// c18Concurrent: several callers, and a render of the same tree.
func c18Concurrent(c *vh.Ctx) {
	w, t, size := newThumbWorld(c)
	want := w.expectThumbs(t, size)
	if len(want) == 0 {
		c.Trivial()
	}
	before := w.show(t)
	for _, l := range layers(t) {
		c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
	}
	procs(c)
	type job struct {
		got   map[int]*image.NRGBA
		img   *image.NRGBA
		cells map[int]image.Rectangle
		err   error
	}
	var g vh.Group
	a, b, r := &job{}, &job{}, &job{img: copyOf(before.base)}
	c.Go(&g, "thumbnails", func() {
		c.Call("Thumbnails", func() { a.got, a.err = t.Thumbnails(context.Background(), size) })
	})
	c.Go(&g, "sheet", func() {
		c.Call("ThumbnailSheet", func() { b.img, b.cells, b.err = t.ThumbnailSheet(context.Background(), size) })
	})
	c.Go(&g, "renderer", func() {
		c.Call("Render", func() { r.err = t.Renderer.Render(context.Background(), r.img) })
	})
	g.Wait()
	c.NoLeak("Thumbnails")
	for _, j := range []*job{a, b, r} {
		if j.err != nil {
			c.Fail("error", "a call that was not cancelled returns %v", j.err)
		}
	}
	w.sameThumbs(a.got, want, "several callers")
	w.checkSheet(b.img, b.cells, want, size)
	if s := diff(r.img, before.img); s != "" {
		c.Fail("original", "Thumbnails disturbs a concurrent Render: %s (expected = before)", s)
	}
}
