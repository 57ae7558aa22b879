package scomp

import (
	"context"
	"fmt"
	"image"
	"image/color"
	"strings"

	"golang.org/x/image/math/f64"
	"golang.org/x/text/encoding/charmap"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/simio"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C14",
		Scens: []vh.Scenario{
			{Name: "model", Weight: 4, Fn: c14Model},
			{Name: "schedule", Weight: 3, Fn: c14Schedule},
			{Name: "tiles", Weight: 3, Fn: c14Tiles},
			{Name: "transformed", Weight: 2, Fn: c14Transformed},
			{Name: "together", Weight: 2, Fn: c14Together},
		},
		Rule: "a generated RGB document built into a tree under random GOMAXPROCS, schedules and readers, compared with the document model (attributes, links, layer and mask pixels), with a sequential build, with other tile sizes and with builds running at the same time; distinct = digest of document, options, schedule and reader; trivial = no layers",
		Real: realParts, Stub: stubParts,
	})
	vh.Register(&vh.Property{
		ID: "C15",
		Scens: []vh.Scenario{
			{Name: "cancel", Weight: 12, Fn: c15Cancel},
			{Name: "cut", Weight: 9, Fn: c15Cut},
			{Name: "error", Weight: 9, Fn: c15Error},
			{Name: "damaged", Weight: 15, Fn: c15Damaged},
			{Name: "refused", Weight: 1, Fn: c15Refused},
			{Name: "prompt", Weight: 1, Fn: c15Prompt},
		},
		Rule: "New on truncated, damaged, failing and unsupported streams, and cancelled at any step, on tall documents for the work that is left out (prompt); error xor complete tree, bounded steps, no goroutine left; distinct = digest of bytes, faults and schedule; trivial = the fault did not take effect",
		Real: realParts, Stub: stubParts,
	})
}

// ---- description and links ----

func describe(t *composite.Tree) string {
	var b strings.Builder
	fmt.Fprintf(&b, "canvas %v rect %v\n", t.CanvasRect, t.Rect)
	describeLayer(&b, &t.Root, 0)
	return b.String()
}

func describeLayer(b *strings.Builder, l *composite.Layer, depth int) {
	fmt.Fprintf(b, "%*s#%d %q folder=%v/%v visible=%v blend=%q opacity=%d clipping=%v bce=%v mask=%v/%d", depth*2, "", l.SeqID, l.Name, l.Folder, l.FolderOpen, l.Visible, string(l.BlendMode), l.Opacity, l.Clipping, l.BlendClippedElements, l.MaskEnabled, l.MaskDefaultColor)
	if l.ClippedBy != nil {
		fmt.Fprintf(b, " clippedBy=%d", l.ClippedBy.SeqID)
	}
	for _, x := range l.Clip {
		fmt.Fprintf(b, " clip=%d", x.SeqID)
	}
	b.WriteString("\n")
	for i := range l.Children {
		describeLayer(b, &l.Children[i], depth+1)
	}
}

// links checks that all links stay inside the tree and agree.
func links(t *composite.Tree) string {
	if t.Root.SeqID != composite.SeqIDRoot || t.Root.Parent != nil || t.Root.ClippedBy != nil || len(t.Root.Clip) != 0 {
		return "the root is linked to something"
	}
	seen := map[int]bool{}
	return linksOf(&t.Root, seen)
}

func linksOf(l *composite.Layer, seen map[int]bool) string {
	for i := range l.Children {
		x := &l.Children[i]
		if seen[x.SeqID] {
			return fmt.Sprintf("SeqID %d is not unique", x.SeqID)
		}
		seen[x.SeqID] = true
		if x.Parent != l {
			return fmt.Sprintf("the Parent of #%d is not the layer #%d that lists it", x.SeqID, l.SeqID)
		}
		if x.ClippedBy != nil {
			ok := false
			for j := range l.Children {
				ok = ok || &l.Children[j] == x.ClippedBy
			}
			if !ok {
				return fmt.Sprintf("ClippedBy of #%d is not one of its siblings", x.SeqID)
			}
			ok = false
			for _, y := range x.ClippedBy.Clip {
				ok = ok || y == x
			}
			if !ok {
				return fmt.Sprintf("#%d is clipped by #%d, which does not list it", x.SeqID, x.ClippedBy.SeqID)
			}
		}
		for _, y := range x.Clip {
			ok := false
			for j := range l.Children {
				ok = ok || &l.Children[j] == y
			}
			if !ok {
				return fmt.Sprintf("Clip of #%d lists a layer that is not one of its siblings", x.SeqID)
			}
			if y.ClippedBy != x {
				return fmt.Sprintf("Clip of #%d lists #%d, which is not clipped by it", x.SeqID, y.SeqID)
			}
		}
		if s := linksOf(x, seen); s != "" {
			return s
		}
	}
	return ""
}

// expected describes the tree the document stands for.
func (w *world) expected(t *composite.Tree) string {
	var b strings.Builder
	fmt.Fprintf(&b, "canvas %v rect %v\n", t.CanvasRect, t.Rect)
	root := &psdgen.Node{Index: -1, Children: w.d.Tree()}
	b.WriteString("#-1 \"\" folder=true/true visible=true blend=\"norm\" opacity=255 clipping=false bce=false mask=false/0\n")
	w.expectChildren(&b, root, 1)
	return b.String()
}

func (w *world) name(l *psdgen.Layer) string {
	if l.HasLuni && l.Luni != "" || l.Name == "" {
		return l.Luni
	}
	if w.enc > 0 {
		if n, err := charmap.Windows1252.NewDecoder().String(l.Name); err == nil {
			return n
		}
	}
	return l.Name
}

func (w *world) expectChildren(b *strings.Builder, p *psdgen.Node, depth int) {
	ch := p.Children
	base := -1 // of the layers clipped to it
	by := make([]int, len(ch))
	for i := range ch {
		by[i] = -1
		if ch[i].L.Clipping == 0 {
			base = i
		} else {
			by[i] = base
		}
	}
	for i, n := range ch {
		l := n.L
		folder := l.Div() == 1 || l.Div() == 2
		bl := l.Blend
		if folder {
			if l.DivLen >= 12 {
				bl = l.DivBlend
			}
		} else if bl == "pass" {
			bl = "norm"
		}
		mask, def := false, 0
		if l.Mask != nil {
			mask = l.Mask.Flags&2 == 0 && !l.Mask.Rect.Empty()
			def = l.Mask.Default
		}
		fmt.Fprintf(b, "%*s#%d %q folder=%v/%v visible=%v blend=%q opacity=%d clipping=%v bce=%v mask=%v/%d", depth*2, "", n.Index, w.name(l), folder, l.Div() == 1, l.Flags&2 == 0, bl, l.Opacity, l.Clipping != 0, !l.HasClbl || l.Clbl, mask, def)
		if by[i] >= 0 {
			fmt.Fprintf(b, " clippedBy=%d", ch[by[i]].Index)
		}
		for j := range ch {
			if by[j] == i {
				fmt.Fprintf(b, " clip=%d", ch[j].Index)
			}
		}
		b.WriteString("\n")
		w.expectChildren(b, n, depth+1)
	}
}

func firstLine(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range g {
		if i >= len(w) {
			return fmt.Sprintf("got %q, nothing expected", g[i])
		}
		if g[i] != w[i] {
			return fmt.Sprintf("got %q, expected %q", g[i], w[i])
		}
	}
	if len(w) > len(g) {
		return fmt.Sprintf("%q is missing", w[len(g)])
	}
	return ""
}

func (w *world) checkLinks(t *composite.Tree) {
	if s := links(t); s != "" {
		w.c.Fail("links", "%s", s)
	}
}

// layerPixel is the stored pixel of a layer at a point of the canvas.
func layerPixel(l *psdgen.Layer, x, y int) color.NRGBA {
	if !image.Pt(x, y).In(l.Rect) {
		return color.NRGBA{}
	}
	i := (y-l.Rect.Min.Y)*l.Rect.Dx() + x - l.Rect.Min.X
	c := color.NRGBA{A: 255}
	if a := l.Find(-1); a != nil {
		c.A = a.Data[i]
	}
	if c.A != 0 {
		c.R, c.G, c.B = l.Find(0).Data[i], l.Find(1).Data[i], l.Find(2).Data[i]
	}
	return c
}

func maskPixel(l *psdgen.Layer, x, y int) int {
	m := l.Mask
	if m == nil {
		return 255
	}
	if !image.Pt(x, y).In(m.Rect) {
		return m.Default
	}
	return int(l.Find(-2).Data[(y-m.Rect.Min.Y)*m.Rect.Dx()+x-m.Rect.Min.X])
}

// solo shows one layer alone, copied to the canvas, with the masks of the
// given layers.
func (w *world) solo(t *composite.Tree, x *composite.Layer, masks map[int]bool) *image.NRGBA {
	for _, l := range layers(t) {
		l.Visible, l.Opacity, l.Clipping, l.Clip, l.MaskEnabled = false, 255, false, nil, false
		l.BlendMode = psd.BlendModePassThrough
	}
	for p := x; p.Parent != nil; p = p.Parent {
		p.Visible = true
		p.MaskEnabled = masks[p.SeqID]
	}
	for _, l := range layers(t) {
		w.c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
	}
	return w.renderOne(t, image.NewNRGBA(t.CanvasRect))
}

func near(a, b uint8, d int) bool { return int(a)-int(b) <= d && int(b)-int(a) <= d }

// checkPixels compares what single layers look like with the document. It
// spoils the tree.
func (w *world) checkPixels(t *composite.Tree, max int) {
	w.checkPixelsAt(t, max, lattice{1, 0, 0, 1, 0, 0})
}

// lattice is a map of pixels onto pixels: a quarter turn or mirroring, and a move.
type lattice struct{ a, b, c, d, x, y int }

func randLattice(s *vsim.Stream) lattice {
	l := lattice{1, 0, 0, 1, s.Range(-20, 20), s.Range(-20, 20)}
	if s.P(1, 12) {
		l.x, l.y = 0, 0
	}
	if s.P(1, 2) {
		k := [...][4]int{{0, 1, -1, 0}, {0, -1, 1, 0}, {-1, 0, 0, -1}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {0, 1, 1, 0}, {0, -1, -1, 0}}[s.Int(7)]
		l.a, l.b, l.c, l.d = k[0], k[1], k[2], k[3]
	}
	return l
}

func (l lattice) matrix() f64.Aff3 {
	return f64.Aff3{float64(l.a), float64(l.b), float64(l.x), float64(l.c), float64(l.d), float64(l.y)}
}

// pixel is where the pixel (x,y) goes.
func (l lattice) pixel(x, y int) image.Point {
	return image.Pt((l.a*(2*x+1)+l.b*(2*y+1)+2*l.x-1)>>1, (l.c*(2*x+1)+l.d*(2*y+1)+2*l.y-1)>>1)
}

// rect is where the rectangle goes.
func (l lattice) rect(r image.Rectangle) image.Rectangle {
	if r.Empty() {
		return image.Rectangle{}
	}
	p, q := l.pixel(r.Min.X, r.Min.Y), l.pixel(r.Max.X-1, r.Max.Y-1)
	return image.Rectangle{p, p.Add(image.Pt(1, 1))}.Union(image.Rectangle{q, q.Add(image.Pt(1, 1))})
}

// checkPixelsAt does so for a tree that was moved by g.
func (w *world) checkPixelsAt(t *composite.Tree, max int, g lattice) {
	var ls []*composite.Layer
	for _, l := range layers(t) {
		if w.d.Layers[l.SeqID].Div() == 0 {
			ls = append(ls, l)
		}
	}
	for k := 0; k < max && len(ls) > 0; k++ {
		i := w.c.Gen.Int(len(ls))
		x := ls[i]
		ls = append(ls[:i:i], ls[i+1:]...)
		l := w.d.Layers[x.SeqID]
		// its own mask and those of the groups around it
		masked := map[int]bool{}
		for p := x; p.Parent != nil; p = p.Parent {
			if pm := w.d.Layers[p.SeqID].Mask; pm != nil && !pm.Rect.Empty() && w.c.Gen.P(2, 3) {
				masked[p.SeqID] = true
				if p != x {
					w.c.Probe("mask of a group")
				}
			}
		}
		m := w.solo(t, x, masked)
		for yy := 0; yy < w.d.H; yy++ {
			for xx := 0; xx < w.d.W; xx++ {
				at := g.pixel(xx, yy)
				if !at.In(t.Rect) && layerPixel(l, xx, yy).A != 0 {
					w.c.Fail("rect", "Rect %v does not hold pixel (%d,%d) of layer #%d, moved to %v", t.Rect, xx, yy, x.SeqID, at)
				}
				want := layerPixel(l, xx, yy)
				tol, masks := 0, 0
				for p := x; p.Parent != nil && want.A != 0; p = p.Parent {
					if !masked[p.SeqID] {
						continue
					}
					mv := maskPixel(w.d.Layers[p.SeqID], xx, yy)
					if mv != 255 && want.A != 255 {
						tol++
					}
					if mv != 255 {
						masks++
					}
					want.A = uint8((int(want.A)*mv + 127) / 255)
				}
				got := m.NRGBAAt(at.X, at.Y)
				if !near(got.A, want.A, tol) {
					w.c.Fail("pixels", "layer #%d alone (masks %v): alpha at (%d,%d) is %d, stored %d", x.SeqID, masked, xx, yy, got.A, want.A)
				}
				if got.A == 0 || want.A == 0 {
					continue
				}
				ct := 0
				if want.A != 255 || masks > 0 {
					// every copy rounds down
					ct = (5 + 600/int(want.A)) * (1 + masks)
				}
				if !near(got.R, want.R, ct) || !near(got.G, want.G, ct) || !near(got.B, want.B, ct) {
					w.c.Fail("pixels", "layer #%d alone (masks %v): colour at (%d,%d) is %v, stored %v", x.SeqID, masked, xx, yy, got, want)
				}
			}
		}
	}
}

func c14Model(c *vh.Ctx) {
	w := newWorld(c, 14, 7)
	w.enc = c.Gen.Int(3)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	g := lattice{1, 0, 0, 1, 0, 0}
	if c.Gen.P(1, 3) {
		// moved by whole pixels while it is built
		g = randLattice(c.Gen)
		w.mat = g.matrix()
		if g.a == 1 && g.d == 1 && c.Gen.P(1, 3) {
			w.mat[0], w.mat[4] = 0, 0 // stands for 1
		}
		c.Probe("moved")
		c.Desc(func() string { return fmt.Sprintf("matrix %v", w.mat) })
	}
	t := w.build()
	c.NoLeak("New")
	w.checkLinks(t)
	if s := firstLine(describe(t), w.expected(t)); s != "" {
		c.Fail("attributes", "%s", s)
	}
	canvas := g.rect(image.Rect(0, 0, w.d.W, w.d.H))
	if !canvas.In(t.CanvasRect) {
		c.Fail("rect", "CanvasRect %v does not hold the document %v", t.CanvasRect, canvas)
	}
	if !t.Rect.In(t.CanvasRect) {
		c.Fail("rect", "Rect %v is not inside the canvas %v", t.Rect, t.CanvasRect)
	}
	for i, l := range w.d.Layers {
		if l.Div() != 0 {
			continue
		}
		for y := 0; y < w.d.H; y++ {
			for x := 0; x < w.d.W; x++ {
				if layerPixel(l, x, y).A != 0 && !g.pixel(x, y).In(t.Rect) {
					c.Fail("rect", "Rect %v does not hold the pixel (%d,%d) of layer #%d", t.Rect, x, y, i)
				}
			}
		}
	}
	w.checkPixelsAt(t, 3, g)
}

func c14Schedule(c *vh.Ctx) {
	w := newWorld(c, 14, 7)
	w.enc = c.Gen.Int(3)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	f := w.fresh()
	want := describe(f)
	base := newDest(c.Gen, f.CanvasRect)
	wantImg := w.renderOne(f, base)
	for n := c.Gen.Range(1, 3); n > 0; n-- {
		procs(c)
		t := w.build()
		w.checkLinks(t)
		if s := firstLine(describe(t), want); s != "" {
			c.Fail("differs", "GOMAXPROCS=%d: %s (expected = sequential build)", vsim.Procs(), s)
		}
		if s := diff(w.renderOne(t, base), wantImg); s != "" {
			c.Fail("pixels", "GOMAXPROCS=%d: %s (expected = sequential build)", vsim.Procs(), s)
		}
	}
	c.NoLeak("New")
}

// The operations that leave a pixel alone still round colours of low alpha, and
// whether they run for a pixel depends on what else is in its tile. The pixels
// are the same for all tile sizes only where that does not happen: if nothing
// is translucent, or without pass-through groups and masks that are white
// outside.

// solid makes everything opaque or transparent.
func solid(d *psdgen.Doc) {
	snap := func(p []byte) {
		for i := range p {
			p[i] = byte(int8(p[i]) >> 7)
		}
	}
	for _, l := range d.Layers {
		l.Opacity = int(byte(int8(l.Opacity) >> 7))
		for _, ch := range l.Chans {
			if ch.ID < 0 {
				snap(ch.Data)
			}
		}
	}
}

// plainBlend has no pass-through groups and no masks that are white outside.
func plainBlend(d *psdgen.Doc) {
	for _, l := range d.Layers {
		if l.Blend == "pass" {
			l.Blend = "norm"
		}
		if l.DivBlend == "pass" {
			l.SetDivBlend("norm")
		}
		if l.Mask != nil {
			l.Mask.Default = 0
		}
	}
}

// sameForTiles compares trees of different tile sizes.
func (w *world) sameForTiles() {
	c := w.c
	t1 := w.build()
	w.checkLinks(t1)
	d1 := describe(t1)
	m1 := w.renderOne(t1, image.NewNRGBA(t1.CanvasRect))
	t0 := w.tile
	for n := c.Gen.Range(1, 2); n > 0; n-- {
		w.tile = c.Gen.Range(1, 9)
		if c.Gen.P(1, 5) {
			w.tile = c.Gen.Range(10, 70)
		}
		c.Digest(uint64(w.tile))
		procs(c)
		t2 := w.build()
		w.checkLinks(t2)
		if s := firstLine(cutRect(describe(t2)), cutRect(d1)); s != "" {
			c.Fail("tiles", "tile size %d: %s (expected = tile size %d)", w.tile, s, t0)
		}
		if t2.CanvasRect != t1.CanvasRect {
			c.Fail("tiles", "tile size %d: canvas %v, %v with tile size %d", w.tile, t2.CanvasRect, t1.CanvasRect, t0)
		}
		if s := diff(w.renderOne(t2, image.NewNRGBA(t2.CanvasRect)), m1); s != "" {
			c.Fail("tilepixels", "tile size %d: %s (expected = tile size %d)", w.tile, s, t0)
		}
	}
	c.NoLeak("New")
}

// cutRect removes the rectangles, which depend on the tile size.
func cutRect(s string) string { return s[strings.Index(s, "\n"):] }

func c14Tiles(c *vh.Ctx) {
	w := newWorld(c, 14, 6, []func(*psdgen.Doc){solid, plainBlend}[c.Gen.Int(2)])
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	w.sameForTiles()
}

func randMatrix(s *vsim.Stream) f64.Aff3 {
	f := func() float64 {
		if s.P(1, 4) {
			return 0
		}
		return float64(s.Range(-18, 18))
	}
	switch s.Int(6) {
	case 0:
		return f64.Aff3{1, 0, f(), 0, 1, f()}
	case 1:
		return f64.Aff3{.5, 0, f() / 2, 0, .5, f() / 2}
	case 2:
		return f64.Aff3{2, 0, f(), 0, 1, f()}
	case 3:
		return f64.Aff3{-1, 0, f(), 0, 1, f()}
	case 4:
		return f64.Aff3{.8, -.6, f(), .6, .8, f()}
	}
	return f64.Aff3{1.3, .2, f() / 3, -.1, .7, f() / 3}
}

// c14Together builds trees at the same time, with one set of options.
func c14Together(c *vh.Ctx) {
	w := newWorld(c, 9, 4)
	w.enc = c.Gen.Int(3)
	switch c.Gen.Int(12) {
	case 0:
		w.mat, w.gamma = randMatrix(c.Gen), float64(c.Gen.Range(400, 2600))/1000
	case 1, 2:
		w.mat = randMatrix(c.Gen)
	}
	opt := w.options()
	if c.Gen.P(1, 2) {
		// left to New
		w.tile, opt.TileSize = composite.DefaultTileSize, 0
	}
	vsim.SetProcs(c.Sched.Range(2, 6))
	n := c.Gen.Range(2, 4)
	got := make([]*composite.Tree, n)
	errs := make([]error, n)
	var g vh.Group
	for i := 0; i < n; i++ {
		i := i
		sp := simio.RandomSpec(c.Fault)
		sp.Yield = true
		r := simio.New(w.b, 0, sp, vsim.NewStream("reader", c.Fault.N(1<<32)), nohooks{})
		c.Go(&g, fmt.Sprintf("builder%d", i), func() {
			c.Call("New", func() { got[i], errs[i] = composite.New(context.Background(), r.R, opt) })
		})
	}
	g.Wait()
	c.NoLeak("New")
	// not earlier: these are the first to use what is kept between builds
	f := w.fresh()
	want := describe(f)
	pixels := w.renderOne(f, image.NewNRGBA(f.CanvasRect))
	for i, t := range got {
		if errs[i] != nil {
			c.Fail("refused", "build %d of %d at the same time fails: %v", i, n, errs[i])
		}
		w.checkLinks(t)
		if s := firstLine(describe(t), want); s != "" {
			c.Fail("differs", "build %d of %d at the same time: %s (expected = built alone)", i, n, s)
		}
		if s := diff(w.renderOne(t, image.NewNRGBA(t.CanvasRect)), pixels); s != "" {
			c.Fail("differs", "build %d of %d at the same time: %s (expected = built alone)", i, n, s)
		}
	}
}

type nohooks struct{}

func (nohooks) Hit(string) {}

func c14Transformed(c *vh.Ctx) {
	w := newWorld(c, 8, 4, plainBlend)
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	w.mat = randMatrix(c.Gen)
	if c.Gen.P(1, 12) {
		w.gamma = 2.2
	}
	c.Desc(func() string { return fmt.Sprintf("matrix %v gamma %v", w.mat, w.gamma) })
	w.sameForTiles()
	if m := w.mat; m[0] == 1 && m[1] == 0 && m[3] == 0 && m[4] == 1 && w.gamma == 0 {
		w.checkPixelsAt(w.build(), 2, lattice{1, 0, 0, 1, int(m[2]), int(m[5])})
	}
}

// ---- C15 ----

// whole checks that the tree is the complete one.
func (w *world) whole(t *composite.Tree, why string) {
	w.checkLinks(t)
	f := w.fresh()
	if s := firstLine(describe(t), describe(f)); s != "" {
		w.c.Fail("incomplete", "%s: %s (expected = undisturbed build)", why, s)
	}
	base := image.NewNRGBA(f.CanvasRect)
	if s := diff(w.renderOne(t, base), w.renderOne(f, base)); s != "" {
		w.c.Fail("incomplete", "%s: %s (expected = undisturbed build)", why, s)
	}
	w.checkPixels(t, 2)
}

func c15Cancel(c *vh.Ctx) {
	w := newWorld(c, 12, 6)
	before := vsim.Steps()
	w.fresh()
	steps := vsim.Steps() - before
	n := c.Gen.Range(1, 4)
	took := false
	for ; n > 0; n-- {
		procs(c)
		r := simio.New(w.b, 0, simio.RandomSpec(c.Fault), c.Fault, c)
		at := int64(c.Fault.Int(int(steps*3/2) + 2))
		if c.Fault.P(1, 3) {
			at = int64(c.Fault.Int(int(steps/4) + 2))
		}
		k := cancelAfter(c, at)
		t, err := w.newTree(k.ctx, r)
		late := k.end()
		k.cancel()
		c.Desc(func() string { return fmt.Sprintf("cancel=%d (took %v) -> %v", at, k.fired(), err) })
		c.NoLeak("New")
		if !k.fired() && err != nil {
			c.Fail("error", "New that was not cancelled returns %v", err)
		}
		if !k.fired() {
			continue
		}
		took = true
		if late > 200*steps+100000 {
			c.Fail("late", "New went on for %d steps after its context was cancelled (a complete build takes %d)", late, steps)
		}
		if err != nil {
			if !isAbort(err) {
				c.Fail("error", "cancelled New returns %v", err)
			}
			c.Probe("aborted")
			continue
		}
		c.Probe("completed although cancelled")
		w.whole(t, "New returns no error although it was cancelled")
	}
	if !took {
		c.Trivial()
	}
}

func c15Cut(c *vh.Ctx) {
	w := newWorld(c, 10, 5)
	sp := simio.RandomSpec(c.Fault)
	if c.Fault.P(7, 8) || w.m.SectionEnd == len(w.b) {
		sp.Trunc = c.Fault.Int(w.m.SectionEnd)
		if len(w.m.Spans) > 0 && c.Fault.P(1, 2) {
			s := w.m.Spans[c.Fault.Int(len(w.m.Spans))]
			sp.Trunc = s.Start + c.Fault.Int(s.End-s.Start+1)
		}
	} else {
		sp.Trunc = w.m.SectionEnd + c.Fault.Int(len(w.b)-w.m.SectionEnd)
	}
	c.Hit("truncated stream")
	c.Digest(uint64(sp.Trunc))
	r := simio.New(w.b, 0, sp, c.Fault, c)
	t, err := w.newTree(context.Background(), r)
	c.Desc(func() string { return fmt.Sprintf("cut at %d of %d -> %v", sp.Trunc, w.m.SectionEnd, err) })
	c.NoLeak("New")
	if sp.Trunc < w.m.SectionEnd && err == nil {
		// padding and checksums need not be there
		w.whole(t, fmt.Sprintf("New accepts a stream cut at %d of %d", sp.Trunc, w.m.SectionEnd))
		c.Trivial()
		return
	}
	if sp.Trunc >= w.m.SectionEnd {
		if err != nil {
			c.Fail("error", "New fails although only the merged image is cut: %v", err)
		}
		w.whole(t, "cut in the merged image")
	}
}

func c15Error(c *vh.Ctx) {
	w := newWorld(c, 10, 5)
	sp := simio.RandomSpec(c.Fault)
	sp.ErrAt = c.Fault.Int(w.m.SectionEnd)
	if len(w.m.Spans) > 0 && c.Fault.P(1, 2) {
		s := w.m.Spans[c.Fault.Int(len(w.m.Spans))]
		sp.ErrAt = s.Start + c.Fault.Int(s.End-s.Start+1)
	}
	sp.ErrOnce = c.Fault.P(1, 2)
	sp.ErrData = c.Fault.P(1, 3)
	c.Digest(uint64(sp.ErrAt))
	r := simio.New(w.b, 0, sp, c.Fault, c)
	t, err := w.newTree(context.Background(), r)
	c.Desc(func() string { return fmt.Sprintf("error at %d of %d -> %v", sp.ErrAt, w.m.SectionEnd, err) })
	c.NoLeak("New")
	if !r.Core.Fired {
		c.Trivial()
	}
	if err == nil {
		// read ahead of what was needed
		w.whole(t, fmt.Sprintf("New accepts a stream that failed at %d of %d", sp.ErrAt, w.m.SectionEnd))
	}
}

// c15Refused builds from documents that are whole but cannot be drawn.
func c15Refused(c *vh.Ctx) {
	psd.Debug = nil
	w := &world{c: c}
	w.d = psdgen.Generate(c.Gen, psdgen.Opt{MaxDim: 8, MaxLayers: 4, Folders: true, AnyMode: true})
	w.b, w.m = psdgen.Encode(w.d, c.Gen)
	c.DigestBytes(w.b)
	if w.d.Mode == psdgen.RGB && w.d.Depth == 8 || len(w.d.Layers) == 0 {
		c.Trivial()
		return
	}
	w.tile = c.Gen.Range(2, 9)
	c.Desc(func() string { return fmt.Sprintf("tile size %d, document %s", w.tile, w.d.String()) })
	procs(c)
	_, err := w.newTree(context.Background(), simio.New(w.b, 0, simio.RandomSpec(c.Fault), c.Fault, c))
	c.NoLeak("New")
	if err == nil {
		c.Fail("accepted", "New returns a tree for a document of color mode %d and depth %d, which it cannot draw", w.d.Mode, w.d.Depth)
	}
}

// c15Damaged uses documents of every kind with damaged bytes.
func c15Damaged(c *vh.Ctx) {
	psd.Debug = nil
	w := &world{c: c}
	o := docOpt(10, 5)
	if c.Gen.P(1, 3) {
		o = psdgen.Opt{MaxDim: 10, MaxLayers: 4, Folders: true, AnyMode: true}
		if c.Gen.P(1, 2) {
			o.Modes = []int{psdgen.RGB}
		}
	}
	w.d = psdgen.Generate(c.Gen, o)
	mangled := c.Gen.P(1, 3)
	if mangled {
		log := psdgen.Mangle(w.d, c.Gen)
		c.Hit("malformed")
		c.Desc(func() string { return fmt.Sprintf("malformed: %v", log) })
	}
	w.b, w.m = psdgen.Encode(w.d, c.Gen)
	x := w.b
	if c.Gen.P(9, 10) && (!mangled || c.Gen.P(1, 4)) {
		var log []string
		x, log = psdgen.Corrupt(w.b, w.m, nil, c.Fault)
		c.Hit("corruption")
		c.Desc(func() string { return fmt.Sprintf("corrupted: %v", log) })
	}
	c.DigestBytes(x)
	w.tile = c.Gen.Range(2, 9)
	c.Desc(func() string { return fmt.Sprintf("tile size %d, document %s", w.tile, w.d.String()) })
	procs(c)
	r := simio.New(x, 0, simio.RandomSpec(c.Fault), c.Fault, c)
	t, err := w.newTree(context.Background(), r)
	c.NoLeak("New")
	if err != nil {
		c.Probe("error")
		return
	}
	c.Probe("tree")
	w.checkLinks(t)
	if t.CanvasRect.Dx() > 200 || t.CanvasRect.Dy() > 200 {
		return
	}
	m := image.NewNRGBA(t.CanvasRect)
	c.Call("Render", func() { err = t.Renderer.Render(context.Background(), m) })
	if err != nil {
		c.Fail("error", "Render of a tree that was built returns %v", err)
	}
	c.NoLeak("Render")
}
