package scomp

import (
	"context"
	"fmt"
	"image"

	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C17",
		Scens: []vh.Scenario{
			{Name: "schedule", Weight: 12, Fn: c17Schedule},
			{Name: "moved", Weight: 6, Fn: c17Moved},
			{Name: "cancel", Weight: 9, Fn: c17Cancel},
			{Name: "concurrent", Weight: 6, Fn: c17Concurrent},
			{Name: "clone", Weight: 6, Fn: c17Clone},
			{Name: "prompt", Weight: 1, Fn: c17Prompt},
		},
		Rule: "trees transformed by random matrices under random GOMAXPROCS, schedules and cancellations, compared with a sequential transformation, with the moved document and with the original before; clones compared with their originals; distinct = digest of document, matrix and schedule; trivial = no layers",
		Real: realParts, Stub: stubParts,
	})
}

// transform is one transformation and what it should give.
type transform struct {
	w     *world
	m     f64.Aff3
	gamma float64
	st    state // nil: as built
	ref   *composite.Tree
	desc  string
	steps int64
	base  *image.NRGBA
	img   *image.NRGBA
}

func (w *world) newTransform(st state) *transform {
	x := w.planTransform(st)
	x.refer()
	return x
}

// planTransform decides on a transformation; refer must follow.
func (w *world) planTransform(st state) *transform {
	c := w.c
	x := &transform{w: w, m: randMatrix(c.Gen), st: st}
	if c.Gen.P(1, 24) {
		x.gamma = float64(c.Gen.Range(400, 2600)) / 1000
	}
	c.Desc(func() string { return fmt.Sprintf("matrix %v gamma %v", x.m, x.gamma) })
	return x
}

// refer carries it out sequentially.
func (x *transform) refer() {
	w, c := x.w, x.w.c
	f := w.fresh()
	if x.st != nil {
		x.st.apply(f)
	}
	old := vsim.Procs()
	vsim.SetProcs(1)
	before := vsim.Steps()
	var err error
	c.Call("Transform", func() { x.ref, err = f.Transform(context.Background(), x.m, x.gamma) })
	x.steps = vsim.Steps() - before
	if err != nil || x.ref == nil {
		c.Fail("error", "Transform that was not cancelled returns %v", err)
	}
	vsim.SetProcs(old)
	x.desc = describe(x.ref)
	if x.base == nil {
		x.base = newDest(c.Gen, x.ref.CanvasRect)
	}
	x.img = w.renderOne(x.ref, x.base)
}

// check compares t with the sequential transformation; it spoils t and ref.
func (x *transform) check(t *composite.Tree, why string) {
	c, w := x.w.c, x.w
	w.checkLinks(t)
	if s := firstLine(describe(t), x.desc); s != "" {
		c.Fail("differs", "%s: %s (expected = sequential transformation)", why, s)
	}
	if s := diff(w.renderOne(t, x.base), x.img); s != "" {
		c.Fail("pixels", "%s: %s (expected = sequential transformation)", why, s)
	}
}

func (x *transform) checkSolo(t *composite.Tree, why string) {
	c, w := x.w.c, x.w
	ls, rs := layers(t), layers(x.ref)
	for n := 2; n > 0 && len(ls) > 0; n-- {
		i := c.Gen.Int(len(ls))
		masks := map[int]bool{}
		for p := ls[i]; p.Parent != nil; p = p.Parent {
			masks[p.SeqID] = p.MaskEnabled
		}
		if s := diff(w.solo(t, ls[i], masks), w.solo(x.ref, rs[i], masks)); s != "" {
			c.Fail("pixels", "%s: layer #%d alone: %s (expected = sequential transformation)", why, ls[i].SeqID, s)
		}
	}
}

// shown is what a tree looks like, to see that it is left alone.
type shown struct {
	desc string
	base *image.NRGBA
	img  *image.NRGBA
}

func (w *world) show(t *composite.Tree) *shown {
	return w.showOn(t, newDest(w.c.Gen, t.CanvasRect))
}

func (w *world) showOn(t *composite.Tree, base *image.NRGBA) *shown {
	s := &shown{desc: describe(t), base: base}
	s.img = w.renderOne(t, s.base)
	return s
}

func (s *shown) same(w *world, t *composite.Tree, what string) {
	w.checkLinks(t)
	if d := firstLine(describe(t), s.desc); d != "" {
		w.c.Fail("original", "%s changed the tree: %s (expected = before)", what, d)
	}
	for _, l := range layers(t) {
		w.c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
	}
	if d := diff(w.renderOne(t, s.base), s.img); d != "" {
		w.c.Fail("original", "%s changed what the tree looks like: %s (expected = before)", what, d)
	}
}

// edited makes a tree with some changes.
func (w *world) edited() (*composite.Tree, state) {
	t := w.build()
	ls := layers(t)
	for n := w.c.Gen.Int(3); n > 0 && len(ls) > 0; n-- {
		l := ls[w.c.Gen.Int(len(ls))]
		mutate(w.c.Gen, l)
		w.c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
	}
	return t, getState(t)
}

func c17Schedule(c *vh.Ctx) {
	w := newWorld(c, 9, 6)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	t, st := w.edited()
	before := w.show(t)
	x := w.newTransform(st)
	for n := c.Gen.Range(1, 2); n > 0; n-- {
		procs(c)
		var nt *composite.Tree
		var err error
		c.Call("Transform", func() { nt, err = t.Transform(context.Background(), x.m, x.gamma) })
		if err != nil || nt == nil {
			c.Fail("error", "Transform that was not cancelled returns %v", err)
		}
		why := fmt.Sprintf("GOMAXPROCS=%d", vsim.Procs())
		c.NoLeak("Transform")
		x.check(nt, why)
		if n == 1 {
			x.checkSolo(nt, why)
		}
	}
	before.same(w, t, "Transform")
}

// c17Moved: moving by whole pixels, turning and mirroring moves every layer, mask and rectangle.
func c17Moved(c *vh.Ctx) {
	w := newWorld(c, 10, 5)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	t := w.build()
	g := randLattice(c.Gen)
	m := g.matrix()
	c.Desc(func() string { return fmt.Sprintf("moved by %v", m) })
	var nt *composite.Tree
	var err error
	c.Call("Transform", func() { nt, err = t.Transform(context.Background(), m, 0) })
	if err != nil || nt == nil {
		c.Fail("error", "Transform that was not cancelled returns %v", err)
	}
	w.checkLinks(nt)
	if s := firstLine(cutRect(describe(nt)), cutRect(describe(t))); s != "" {
		c.Fail("differs", "moved by %v: %s (expected = original)", m, s)
	}
	if r := g.rect(image.Rect(0, 0, w.d.W, w.d.H)); !r.In(nt.CanvasRect) {
		c.Fail("rect", "CanvasRect %v does not hold the document, moved to %v", nt.CanvasRect, r)
	}
	w.checkPixelsAt(nt, 3, g)
	c.NoLeak("Transform")
}

func c17Cancel(c *vh.Ctx) {
	w := newWorld(c, 9, 6)
	t, st := w.edited()
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	before := w.show(t)
	x := w.newTransform(st)
	took := false
	for n := c.Gen.Range(1, 3); n > 0; n-- {
		procs(c)
		at := int64(c.Fault.Int(int(x.steps*5/4) + 2))
		k := cancelAfter(c, at)
		var nt *composite.Tree
		var err error
		c.Call("Transform", func() { nt, err = t.Transform(k.ctx, x.m, x.gamma) })
		late := k.end()
		k.cancel()
		c.Desc(func() string { return fmt.Sprintf("cancel=%d (took %v) -> %v", at, k.fired(), err) })
		c.NoLeak("Transform")
		if (nt == nil) == (err == nil) {
			c.Fail("neither", "Transform returns tree %v and error %v", nt != nil, err)
		}
		if !k.fired() && err != nil {
			c.Fail("error", "Transform that was not cancelled returns %v", err)
		}
		if k.fired() {
			took = true
			if late > 4*x.steps+20000 {
				c.Fail("late", "Transform went on for %d steps after its context was cancelled (a complete one takes %d)", late, x.steps)
			}
		}
		if err != nil {
			if !isAbort(err) {
				c.Fail("error", "cancelled Transform returns %v", err)
			}
			c.Probe("aborted")
			continue
		}
		if k.fired() {
			c.Probe("completed although cancelled")
		}
		x.check(nt, "Transform returns no error")
	}
	if !took {
		c.Trivial()
	}
	before.same(w, t, "Transform")
}

// c17Concurrent: transformations of one tree that is being rendered.
func c17Concurrent(c *vh.Ctx) {
	w := newWorld(c, 8, 5)
	t := w.build()
	if len(w.d.Layers) == 0 || !hasPixels(t) {
		c.Trivial()
		return
	}
	x := w.planTransform(nil)
	// Either everything has been used before, or nothing has.
	late := c.Gen.P(1, 2)
	var before *shown
	base := newDest(c.Gen, t.CanvasRect)
	if !late {
		before = w.showOn(t, base)
		x.refer()
		for _, l := range layers(t) {
			c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
		}
	}
	procs(c)
	type job struct {
		t   *composite.Tree
		err error
		img *image.NRGBA
	}
	var g vh.Group
	var js []*job
	for i := c.Gen.Range(1, 2); i > 0; i-- {
		j := &job{}
		js = append(js, j)
		c.Go(&g, "transformer", func() {
			c.Call("Transform", func() { j.t, j.err = t.Transform(context.Background(), x.m, x.gamma) })
			if j.err == nil && i == 1 {
				if x.base == nil {
					x.base = newDest(c.Gen, j.t.CanvasRect)
				}
				j.img = copyOf(x.base)
				c.Call("Render", func() { j.err = j.t.Renderer.Render(context.Background(), j.img) })
			}
		})
	}
	r := &job{img: copyOf(base)}
	c.Go(&g, "renderer", func() {
		c.Call("Render", func() { r.err = t.Renderer.Render(context.Background(), r.img) })
	})
	g.Wait()
	c.NoLeak("Transform")
	if late {
		before = w.showOn(w.fresh(), base)
		x.refer()
	}
	if r.err != nil {
		c.Fail("error", "Render that was not cancelled returns %v", r.err)
	}
	if s := diff(r.img, before.img); s != "" {
		c.Fail("original", "Transform disturbs a concurrent Render: %s (expected = before)", s)
	}
	for _, j := range js {
		if j.err != nil {
			c.Fail("error", "Transform or Render that was not cancelled returns %v", j.err)
		}
		if j.img != nil {
			if s := diff(j.img, x.img); s != "" {
				c.Fail("pixels", "transformed at the same time: %s (expected = sequential transformation)", s)
			}
		}
		x.check(j.t, "transformed at the same time")
	}
	before.same(w, t, "Transform")
}

// c17Clone: a clone looks like its original.
func c17Clone(c *vh.Ctx) {
	w := newWorld(c, 11, 6)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	t, st := w.edited()
	var before *shown
	if c.Gen.P(1, 2) {
		before = w.show(t)
	}
	n := c.Gen.Range(1, 2)
	for ; n > 0; n-- {
		procs(c)
		var ct *composite.Tree
		c.Call("Clone", func() { ct = t.Clone() })
		if s := links(ct); s != "" {
			c.Fail("links", "clone: %s", s)
		}
		if s := firstLine(describe(ct), describe(t)); s != "" {
			c.Fail("differs", "clone: %s (expected = original)", s)
		}
		base := newDest(c.Gen, t.CanvasRect)
		m := copyOf(base)
		var err error
		c.Call("Render", func() { err = ct.Renderer.Render(context.Background(), m) })
		if err != nil {
			c.Fail("error", "Render that was not cancelled returns %v", err)
		}
		if s := diff(m, w.renderFresh(st, base)); s != "" {
			c.Fail("pixels", "clone: %s (expected = a new tree in the same state)", s)
		}
		if c.Gen.P(1, 2) {
			w.checkPixels(ct, 1) // spoils the clone
		} else if c.Gen.P(1, 2) {
			t = ct // clones of clones
			before = nil
		}
	}
	if before != nil {
		before.same(w, t, "Clone")
	}
	c.NoLeak("Clone")
}
