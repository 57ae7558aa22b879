package scomp

import (
	"context"
	"fmt"
	"image"
	"math"

	"github.com/oov/psd"
	"github.com/oov/psd/blend"
	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/vh"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C20",
		Scens: []vh.Scenario{
			{Name: "compose", Weight: 5, Fn: c20Compose},
			{Name: "modes", Weight: 1, Fn: c20Modes},
		},
		Rule: "a generated RGB document, 1..5 rounds of attribute changes with completed and cancelled Render and RenderDiff calls, also of clones and of trees that New or Transform moved, turned or mirrored; every completed call is compared pixel by pixel with a reference compositor that works on exact numbers and keeps account of the rounding allowed; distinct = digest of document, history and schedule; trivial = no layer with pixels",
		Real: realParts, Stub: stubParts,
	})
}

// px is a premultiplied colour, each component in 0..1, and how far (in steps
// of 1/255) each component may be off by rounding.
type px struct {
	c   [4]float64 // r, g, b, a
	err float64
}

// smooth are the blend modes in which a small difference stays small.
var smooth = map[psd.BlendMode]func(s, d, sa, da float64) float64{
	// sa*da*B(s/sa, d/da)
	psd.BlendModeNormal:      func(s, d, sa, da float64) float64 { return s * da },
	psd.BlendModeMultiply:    func(s, d, sa, da float64) float64 { return s * d },
	psd.BlendModeScreen:      func(s, d, sa, da float64) float64 { return s*da + d*sa - s*d },
	psd.BlendModeDarken:      func(s, d, sa, da float64) float64 { return math.Min(s*da, d*sa) },
	psd.BlendModeLighten:     func(s, d, sa, da float64) float64 { return math.Max(s*da, d*sa) },
	psd.BlendModeDifference:  func(s, d, sa, da float64) float64 { return math.Abs(s*da - d*sa) },
	psd.BlendModeExclusion:   func(s, d, sa, da float64) float64 { return s*da + d*sa - 2*s*d },
	psd.BlendModeSubtract:    func(s, d, sa, da float64) float64 { return math.Max(0, d*sa-s*da) },
	psd.BlendModeLinearBurn:  func(s, d, sa, da float64) float64 { return math.Max(0, s*da+d*sa-sa*da) },
	psd.BlendModeLinearDodge: func(s, d, sa, da float64) float64 { return s*da + d*sa },
	psd.BlendModeOverlay: func(s, d, sa, da float64) float64 {
		if 2*d <= da {
			return 2 * s * d
		}
		return sa*da - 2*(da-d)*(sa-s)
	},
	psd.BlendModeHardLight: func(s, d, sa, da float64) float64 {
		if 2*s <= sa {
			return 2 * s * d
		}
		return sa*da - 2*(da-d)*(sa-s)
	},
}

var smoothModes = []psd.BlendMode{
	psd.BlendModeNormal, psd.BlendModeMultiply, psd.BlendModeScreen, psd.BlendModeDarken, psd.BlendModeLighten, psd.BlendModeDifference,
	psd.BlendModeExclusion, psd.BlendModeSubtract, psd.BlendModeLinearBurn, psd.BlendModeLinearDodge, psd.BlendModeOverlay, psd.BlendModeHardLight,
}

// over draws s onto d.
func over(d, s px, opacity float64, mode psd.BlendMode) px {
	b := smooth[mode]
	for i := range s.c {
		s.c[i] *= opacity
	}
	sa, da := s.c[3], d.c[3]
	if sa == 0 && (s.err == 0 || opacity == 0) {
		return d
	}
	if sa == 1 && mode == psd.BlendModeNormal {
		return s // hides what is below
	}
	var r px
	r.c[3] = sa + da - sa*da
	for i := 0; i < 3; i++ {
		r.c[i] = math.Min(r.c[3], s.c[i]*(1-da)+d.c[i]*(1-sa)+b(s.c[i], d.c[i], sa, da))
	}
	r.err = d.err + s.err*opacity + 1.5
	if mode != psd.BlendModeNormal {
		r.err = 1.2*(d.err+s.err*opacity) + 2
	}
	if da > 0 && da < 1 {
		r.err += 2
	}
	r.err = math.Min(r.err, 14)
	return r
}

// pixel is what the tree's layers look like at a pixel of the document.
func (w *world) pixel(root *composite.Layer, x, y int) px {
	var p px
	for i := range root.Children {
		w.drawPixel(&p, root.Children, i, float64(root.Children[i].Opacity)/255, false, x, y)
	}
	if p.c[3] > 0 && p.c[3] < 1 || p.err > 0 {
		p.err++ // copied to the destination
	}
	return p
}

// clipped lists the siblings that are clipped to sib[i].
func clipped(sib []composite.Layer, i int) []int {
	var r []int
	for j := i + 1; j < len(sib) && sib[j].Clipping; j++ {
		r = append(r, j)
	}
	return r
}

func (w *world) drawPixel(p *px, sib []composite.Layer, i int, opacity float64, force bool, x, y int) {
	l := &sib[i]
	if !l.Visible || opacity == 0 || l.Clipping && !force {
		return
	}
	var clip []int
	if !l.Clipping {
		clip = clipped(sib, i)
	}
	mode := l.BlendMode
	through := mode == psd.BlendModePassThrough && len(clip) == 0
	if mode == psd.BlendModePassThrough {
		mode = psd.BlendModeNormal
	}
	dl := w.d.Layers[l.SeqID]
	var q px
	if len(l.Children) > 0 {
		o := 1.0
		if through {
			q = *p
			o = opacity
		}
		for k := range l.Children {
			before := q
			w.drawPixel(&q, l.Children, k, o*float64(l.Children[k].Opacity)/255, false, x, y)
			if q.c != before.c && o < 1 {
				q.err++ // the product of opacities is rounded
			}
		}
	} else {
		c := layerPixel(dl, x, y)
		a := float64(c.A) / 255
		q = px{c: [4]float64{float64(c.R) / 255 * a, float64(c.G) / 255 * a, float64(c.B) / 255 * a, a}}
		if c.A > 0 && c.A < 255 {
			q.err = 1
		}
		if w.gamma != 0 && c.A > 0 {
			q.err += 2.5
		}
		if through {
			panic("a layer without children passes through")
		}
	}
	if l.MaskEnabled && hasMask(dl) {
		m := float64(maskPixel(dl, x, y)) / 255
		if through {
			for k := range q.c {
				q.c[k] = q.c[k]*m + p.c[k]*(1-m)
			}
			if q.err = math.Max(q.err, p.err); m > 0 && m < 1 || q.err > 0 {
				q.err++
			}
		} else if m != 1 {
			if m == 0 {
				q.err = 0
			}
			for k := range q.c {
				q.c[k] *= m
			}
			if q.c[3] > 0 {
				q.err += 1
			}
		}
	}
	if through {
		if q.c[3] > 0 && q.c[3] < 1 || q.err > 0 {
			q.err++
		}
		*p = q
		return
	}
	if len(clip) > 0 && q.c[3] > 0 {
		a := q.c[3]
		r := q
		for k := range r.c {
			r.c[k] /= a
		}
		r.err = math.Min(r.err/a, 6)
		for _, k := range clip {
			w.drawPixel(&r, sib, k, float64(sib[k].Opacity)/255, true, x, y)
		}
		for k := range r.c {
			r.c[k] *= a
		}
		r.c[3] = a
		if r.err = r.err*a + q.err; r.err > 0 || a < 1 {
			r.err++
		}
		q = r
	}
	*p = over(*p, q, opacity, mode)
}

// composed compares a rendered image with the reference.
func (w *world) composed(t *composite.Tree, g lattice, m *image.NRGBA, what string) {
	for y := 0; y < w.d.H; y++ {
		for x := 0; x < w.d.W; x++ {
			at := g.pixel(x, y)
			if !at.In(m.Rect) {
				continue
			}
			p := w.pixel(&t.Root, x, y)
			got := m.NRGBAAt(at.X, at.Y)
			if !at.In(t.Rect) {
				// no layer is near, so the renderer leaves it alone
				if p.c[3] != 0 {
					w.c.Fail("rect", "Rect %v does not hold %v although something is drawn there", t.Rect, at)
				}
				continue
			}
			a := float64(got.A) / 255
			v := [4]float64{float64(got.R) / 255 * a, float64(got.G) / 255 * a, float64(got.B) / 255 * a, a}
			for k := range v {
				if math.Abs(v[k]-p.c[k])*255 > p.err+0.01 {
					w.c.Fail(what, "%s: pixel %v is %v, but the layers make (premultiplied) %.2f %.2f %.2f %.2f, give or take %.1f; state %v", what, at, got,
						p.c[0]*255, p.c[1]*255, p.c[2]*255, p.c[3]*255, p.err, getState(t))
				}
			}
		}
	}
}

// sane keeps to what the reference knows.
func (w *world) sane(t *composite.Tree) {
	for _, l := range layers(t) {
		if l.SeqID < 0 || l.SeqID >= len(w.d.Layers) || len(l.BlendMode) != 4 {
			w.c.Fail("layer", "a layer has SeqID %d of %d and blend mode %q", l.SeqID, len(w.d.Layers), l.BlendMode)
		}
		if l.BlendMode == psd.BlendModePassThrough {
			if len(l.Children) == 0 {
				l.BlendMode = psd.BlendModeNormal
			}
		} else if smooth[l.BlendMode] == nil {
			l.BlendMode = smoothModes[int(l.BlendMode[0]+l.BlendMode[2]+l.BlendMode[3])%len(smoothModes)]
		}
		// "Blend Clipped Layers as Group" unchecked is not implemented
		l.BlendClippedElements = true
	}
}

// hasMask tells whether l has a mask: one without area is none.
func hasMask(l *psdgen.Layer) bool { return l.Mask != nil && !l.Mask.Rect.Empty() }

func c20Compose(c *vh.Ctx) {
	w := newWorld(c, 10, 7)
	g := lattice{1, 0, 0, 1, 0, 0}
	moved := c.Gen.Int(6)
	if moved == 0 {
		g = randLattice(c.Gen)
		w.mat = g.matrix()
		c.Probe("New with a matrix")
	}
	if moved < 2 && c.Gen.P(1, 3) {
		w.gamma = []float64{2.2, 1.8, 1, 1 / 2.2}[c.Gen.Int(4)]
		c.Probe("gamma")
	}
	t := w.build()
	if len(layers(t)) == 0 || !hasPixels(t) {
		c.Trivial()
		return
	}
	if moved == 1 {
		g = randLattice(c.Gen)
		var err error
		c.Call("Transform", func() { t, err = t.Transform(context.Background(), g.matrix(), w.gamma) })
		if err != nil || t == nil {
			c.Fail("error", "Transform that was not cancelled returns %v", err)
		}
		c.Probe("Transform")
	}
	w.sane(t)
	all := c.Gen.P(1, 2)
	for _, l := range layers(t) {
		if all && c.Gen.P(5, 6) {
			l.Visible = true
			if l.Opacity < 40 {
				l.Opacity = 255
			}
		}
		if l.Folder && len(l.Children) > 0 && c.Gen.P(1, 3) {
			l.BlendMode = psd.BlendModePassThrough
		}
	}
	var shown *image.NRGBA
	for n := c.Gen.Range(1, 5); n > 0; n-- {
		ls := layers(t)
		if shown != nil {
			for k := c.Gen.Range(1, 3); k > 0; k-- {
				l := ls[c.Gen.Int(len(ls))]
				on := l.MaskEnabled
				mutate(c.Gen, l)
				if !hasMask(w.d.Layers[l.SeqID]) {
					l.MaskEnabled = on
				}
				w.sane(t)
				c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
				c.Desc(func() string { return fmt.Sprintf("change #%d", l.SeqID) })
			}
		}
		if c.Gen.P(1, 8) {
			c.Call("Clone", func() { t = t.Clone() })
			shown = nil
			c.Probe("Clone")
		}
		procs(c)
		diffOnly := shown != nil && c.Gen.P(1, 2)
		m := shown
		if !diffOnly {
			m = newDest(c.Gen, t.CanvasRect)
		}
		ctx := context.Background()
		var k *canceller
		if c.Fault.P(1, 5) {
			k = cancelAfter(c, int64(c.Fault.Int(4000)))
			ctx = k.ctx
		}
		var err error
		what := "Render"
		if diffOnly {
			what = "RenderDiff"
			c.Call(what, func() { err = t.Renderer.RenderDiff(ctx, m) })
		} else {
			c.Call(what, func() { err = t.Renderer.Render(ctx, m) })
		}
		if k != nil {
			k.end()
			k.cancel()
		}
		if err != nil {
			if k == nil || !isAbort(err) {
				c.Fail("error", "%s returns %v", what, err)
			}
			c.Probe("aborted " + what)
			continue
		}
		shown = m
		w.composed(t, g, m, what)
	}
	c.NoLeak("rendering")
}

// drawers are what the blend modes are called in package blend.
var drawers = map[psd.BlendMode]blend.Drawer{
	"norm": blend.Normal, "dark": blend.Darken, "mul ": blend.Multiply, "idiv": blend.ColorBurn, "lbrn": blend.LinearBurn, "dkCl": blend.DarkerColor,
	"lite": blend.Lighten, "scrn": blend.Screen, "div ": blend.ColorDodge, "lddg": blend.Add, "lgCl": blend.LighterColor,
	"over": blend.Overlay, "sLit": blend.SoftLight, "hLit": blend.HardLight, "vLit": blend.VividLight, "lLit": blend.LinearLight, "pLit": blend.PinLight,
	"hMix": blend.HardMix, "diff": blend.Difference, "smud": blend.Exclusion, "fsub": blend.Subtract, "fdiv": blend.Divide,
	"hue ": blend.Hue, "sat ": blend.Saturation, "colr": blend.Color, "lum ": blend.Luminosity,
}

// c20Modes draws one layer onto another in each of the modes.
func c20Modes(c *vh.Ctx) {
	w := newWorld(c, 12, 5)
	t := w.build()
	var leafs []*composite.Layer
	for _, l := range layers(t) {
		if w.d.Layers[l.SeqID].Div() == 0 {
			leafs = append(leafs, l)
		}
	}
	if len(leafs) < 2 || !hasPixels(t) {
		c.Trivial()
		return
	}
	i := c.Gen.Int(len(leafs) - 1)
	j := c.Gen.Range(i+1, len(leafs)-1)
	show := map[int]bool{}
	for _, l := range []*composite.Layer{leafs[i], leafs[j]} {
		for p := l; p.Parent != nil; p = p.Parent {
			show[p.SeqID] = true
		}
	}
	for _, l := range layers(t) {
		l.Visible, l.Opacity, l.Clipping, l.Clip, l.ClippedBy, l.MaskEnabled = show[l.SeqID], 255, false, nil, nil, false
		l.BlendMode = psd.BlendModePassThrough
		if len(l.Children) == 0 {
			l.BlendMode = psd.BlendModeNormal
		}
	}
	var shown *image.NRGBA
	x := leafs[j]
	for n := c.Gen.Range(1, 4); n > 0; n-- {
		x.BlendMode = leafModes[c.Gen.Int(len(leafModes))]
		c.Desc(func() string { return fmt.Sprintf("#%d onto #%d: %s", x.SeqID, leafs[i].SeqID, x.BlendMode) })
		for _, l := range layers(t) {
			if shown == nil || l == x {
				c.Call("SetDirtyByLayer", func() { t.Renderer.SetDirtyByLayer(l) })
			}
		}
		procs(c)
		if shown == nil {
			shown = image.NewNRGBA(t.CanvasRect)
		}
		var err error
		c.Call("RenderDiff", func() { err = t.Renderer.RenderDiff(context.Background(), shown) })
		if err != nil {
			c.Fail("error", "RenderDiff returns %v", err)
		}
		d := drawers[x.BlendMode]
		if d == nil {
			d = blend.Normal
		}
		for yy := 0; yy < w.d.H; yy++ {
			for xx := 0; xx < w.d.W; xx++ {
				below, above := layerPixel(w.d.Layers[leafs[i].SeqID], xx, yy), layerPixel(w.d.Layers[x.SeqID], xx, yy)
				// others are rounded on the way
				if below.A != 255 || above.A != 255 {
					continue
				}
				dst, src := image.NewNRGBA(image.Rect(0, 0, 1, 1)), image.NewNRGBA(image.Rect(0, 0, 1, 1))
				dst.SetNRGBA(0, 0, below)
				src.SetNRGBA(0, 0, above)
				d.Draw(dst, dst.Rect, src, image.Point{})
				if got, want := shown.NRGBAAt(xx, yy), dst.NRGBAAt(0, 0); got != want {
					c.Fail("mode", "%v over %v with mode %q gives %v, expected %v", above, below, x.BlendMode, got, want)
				}
				c.Probe("mode compared")
			}
		}
	}
}
