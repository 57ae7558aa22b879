// Package sblend simulates the drawing operations of package blend.
package sblend

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"

	"github.com/oov/psd/blend"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	real := []string{"blend (all blend modes and Porter-Duff operators, parallel drivers, fallbacks)", "color", "image, image/draw, image/color (standard library)"}
	stub := []string{"goroutine scheduling, GOMAXPROCS, sync (simulator)"}
	vh.Register(&vh.Property{
		ID: "C10",
		Scens: []vh.Scenario{
			{Name: "draw", Weight: 5, Fn: c10Draw},
			{Name: "self", Weight: 4, Fn: c10Self},
		},
		Rule: "one drawing operation (random operator, image types, rectangle, offsets, mask, sub-images, self overlap) with GOMAXPROCS=1 and then with other values and schedules; distinct = digest of operation, pixels and schedule; trivial = nothing drawn",
		Real: real, Stub: stub,
	})
	vh.Register(&vh.Property{
		ID: "C11",
		Scens: []vh.Scenario{
			{Name: "inside", Weight: 4, Fn: c11Inside},
			{Name: "tasks", Weight: 4, Fn: c11Tasks},
			{Name: "parts", Weight: 2, Fn: c11Parts},
		},
		Rule: "drawing with every other byte of destination, source and mask compared, and 2..5 tasks drawing into disjoint parts of one destination at once against the same drawings one after the other, also the parts of one rectangle against the whole; distinct = digest of operations, pixels and schedule; trivial = empty intersection",
		Real: real, Stub: stub,
	})
	vh.Register(&vh.Property{
		ID: "C21",
		Scens: []vh.Scenario{
			{Name: "pixels", Weight: 1, Fn: c21Draw},
		},
		Rule: "1..4 drawing operations onto one image, with random GOMAXPROCS and schedule, every pixel compared with the operator's formula in exact numbers; distinct = digest of operations, pixels and schedule; trivial = nothing drawn",
		Real: real, Stub: stub,
	})
}

var pdOps = []draw.Drawer{
	blend.Clear, blend.Copy, blend.Dest, blend.SrcOver, blend.DestOver, blend.SrcIn, blend.DestIn,
	blend.SrcOut, blend.DestOut, blend.SrcAtop, blend.DestAtop, blend.XOR,
}

var blOps = []blend.Drawer{
	blend.Normal, blend.Darken, blend.Multiply, blend.ColorBurn, blend.LinearBurn, blend.DarkerColor, blend.Lighten,
	blend.Screen, blend.ColorDodge, blend.LinearDodge, blend.LighterColor, blend.Add, blend.Overlay, blend.SoftLight,
	blend.HardLight, blend.LinearLight, blend.VividLight, blend.PinLight, blend.HardMix, blend.Difference, blend.Exclusion,
	blend.Subtract, blend.Divide, blend.Hue, blend.Saturation, blend.Color, blend.Luminosity,
}

const (
	kNRGBA = iota
	kRGBA
	kNRGBA64
	kRGBA64
	kGray
	kAlpha
	kCustom
	kPaletted
	kGray16
	kCMYK
	kAlpha16
	kUniform // sources and masks only
	kYCbCr   // sources only
)

var kindNames = []string{"NRGBA", "RGBA", "NRGBA64", "RGBA64", "Gray", "Alpha", "custom", "Paletted", "Gray16", "CMYK", "Alpha16", "Uniform", "YCbCr"}

// custom is an image type that package blend knows nothing about.
type custom struct {
	Pix  []byte
	Rect image.Rectangle
}

func (c *custom) ColorModel() color.Model { return color.NRGBA64Model }
func (c *custom) Bounds() image.Rectangle { return c.Rect }
func (c *custom) off(x, y int) int {
	return ((y-c.Rect.Min.Y)*c.Rect.Dx() + x - c.Rect.Min.X) * 4
}
func (c *custom) At(x, y int) color.Color {
	vsim.Y()
	if !(image.Point{X: x, Y: y}.In(c.Rect)) {
		return color.NRGBA{}
	}
	p := c.Pix[c.off(x, y):]
	return color.NRGBA{p[0], p[1], p[2], p[3]}
}
func (c *custom) Set(x, y int, cl color.Color) {
	vsim.Y()
	if !(image.Point{X: x, Y: y}.In(c.Rect)) {
		panic(fmt.Sprintf("Set(%d,%d) outside %v", x, y, c.Rect))
	}
	n := color.NRGBAModel.Convert(cl).(color.NRGBA)
	vsim.Y()
	p := c.Pix[c.off(x, y):]
	p[0], p[1], p[2], p[3] = n.R, n.G, n.B, n.A
}

var pal = color.Palette{color.NRGBA{}, color.Black, color.White, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 200, 0, 128}, color.NRGBA{10, 20, 240, 60}}

func alloc(kind int, r image.Rectangle) image.Image {
	switch kind {
	case kNRGBA:
		return image.NewNRGBA(r)
	case kRGBA:
		return image.NewRGBA(r)
	case kNRGBA64:
		return image.NewNRGBA64(r)
	case kRGBA64:
		return image.NewRGBA64(r)
	case kGray:
		return image.NewGray(r)
	case kAlpha:
		return image.NewAlpha(r)
	case kPaletted:
		return image.NewPaletted(r, pal)
	case kGray16:
		return image.NewGray16(r)
	case kCMYK:
		return image.NewCMYK(r)
	case kAlpha16:
		return image.NewAlpha16(r)
	case kYCbCr:
		return image.NewYCbCr(r, image.YCbCrSubsampleRatio420)
	default:
		return &custom{make([]byte, r.Dx()*r.Dy()*4), r}
	}
}

// pix returns the memory of an image.
func pix(m image.Image) []byte {
	switch m := m.(type) {
	case *image.NRGBA:
		return m.Pix
	case *image.RGBA:
		return m.Pix
	case *image.NRGBA64:
		return m.Pix
	case *image.RGBA64:
		return m.Pix
	case *image.Gray:
		return m.Pix
	case *image.Alpha:
		return m.Pix
	case *image.Paletted:
		return m.Pix
	case *image.Gray16:
		return m.Pix
	case *image.CMYK:
		return m.Pix
	case *image.Alpha16:
		return m.Pix
	case *image.YCbCr:
		return m.Y
	case *custom:
		return m.Pix
	}
	return nil
}

// picture is an image, possibly seen through a sub-image.
type picture struct {
	kind int
	full image.Image
	view image.Rectangle
	uni  *image.Uniform
}

func (p *picture) img() image.Image {
	if p == nil {
		return nil
	}
	if p.uni != nil {
		return p.uni
	}
	if p.view == p.full.Bounds() {
		return p.full
	}
	return p.full.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(p.view)
}

func (p *picture) clone() *picture {
	if p == nil || p.uni != nil {
		return p
	}
	q := *p
	q.full = alloc(p.kind, p.full.Bounds())
	copy(pix(q.full), pix(p.full))
	if y, ok := p.full.(*image.YCbCr); ok {
		copy(q.full.(*image.YCbCr).Cb, y.Cb)
		copy(q.full.(*image.YCbCr).Cr, y.Cr)
	}
	return &q
}

func (p *picture) String() string {
	if p == nil {
		return "nil"
	}
	if p.uni != nil {
		r, g, b, a := p.uni.RGBA()
		return fmt.Sprintf("Uniform(%x,%x,%x,%x)", r, g, b, a)
	}
	s := kindNames[p.kind] + p.view.String()
	if p.view != p.full.Bounds() {
		s += " of " + p.full.Bounds().String()
	}
	return s
}

func randAlpha(s *vsim.Stream) uint8 {
	switch s.Int(4) {
	case 0:
		return 255
	case 1:
		return 0
	}
	return uint8(s.Int(256))
}

// newPicture makes an image of the kind with random pixels.
func newPicture(s *vsim.Stream, kind int, maxW, maxH int) *picture {
	if kind == kUniform {
		a := randAlpha(s)
		return &picture{kind: kind, uni: image.NewUniform(color.NRGBA{uint8(s.Int(256)), uint8(s.Int(256)), uint8(s.Int(256)), a})}
	}
	w, h := s.Range(1, maxW), s.Range(1, maxH)
	if s.P(3, 4) {
		w, h = s.Range((maxW+1)/2, maxW), s.Range((maxH+1)/2, maxH)
	}
	min := image.Point{}
	if s.P(1, 2) {
		min = image.Pt(s.Range(-7, 7), s.Range(-7, 7))
	}
	if kind == kYCbCr {
		min = image.Point{} // image.YCbCr misplaces its chroma samples at negative coordinates
	}
	r := image.Rectangle{min, min.Add(image.Pt(w, h))}
	p := &picture{kind: kind, view: r}
	if kind != kCustom && kind != kYCbCr && s.P(1, 4) {
		r = image.Rect(r.Min.X-s.Int(4), r.Min.Y-s.Int(4), r.Max.X+s.Int(4), r.Max.Y+s.Int(4))
	}
	p.full = alloc(kind, r)
	seed := s.N(1 << 32)
	fill(p.full, vsim.NewStream("pix", seed))
	return p
}

func fill(m image.Image, s *vsim.Stream) {
	mode := s.Int(4)
	pp := pix(m)
	x := s.N(1 << 62)
	rnd := func() uint64 { x = vsim.Mix(x); return x }
	edges := s.P(1, 4)
	for i := range pp {
		if pp[i] = byte(rnd()); edges {
			pp[i] = [...]byte{0, 1, 63, 64, 127, 128, 254, 255}[pp[i]&7]
		}
	}
	switch m := m.(type) {
	case *image.RGBA:
		for i := 0; i+3 < len(pp); i += 4 {
			a := alphaOf(mode, rnd())
			pp[i+3] = a
			for j := 0; j < 3; j++ {
				if pp[i+j] > a {
					pp[i+j] = uint8(int(pp[i+j]) * int(a) / 255)
				}
			}
		}
	case *image.NRGBA, *custom:
		for i := 3; i < len(pp); i += 4 {
			pp[i] = alphaOf(mode, rnd())
		}
	case *image.RGBA64:
		b := m.Rect
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				v := rnd()
				m.Set(x, y, color.NRGBA64{uint16(v), uint16(v >> 16), uint16(v >> 32), alpha16Of(mode, rnd())})
			}
		}
	case *image.NRGBA64:
		for i := 6; i+1 < len(pp); i += 8 {
			a := alpha16Of(mode, rnd())
			pp[i], pp[i+1] = uint8(a>>8), uint8(a)
		}
	case *image.Paletted:
		for i := range pp {
			pp[i] %= uint8(len(pal))
		}
	case *image.YCbCr:
		for i := range m.Cb {
			m.Cb[i], m.Cr[i] = byte(rnd()), byte(rnd())
		}
	}
}

func alphaOf(mode int, v uint64) uint8 {
	switch {
	case mode == 0 || v&3 == 0:
		return 255
	case mode == 1 || v&3 == 1:
		return uint8(v >> 8)
	case v&12 == 0:
		return 0
	}
	return uint8(v >> 8)
}

func alpha16Of(mode int, v uint64) uint16 {
	switch a := alphaOf(mode, v); {
	case v>>20&7 == 0:
		return uint16(v>>32) >> (v >> 50 & 15)
	default:
		return uint16(a) * 0x101
	}
}

// op is one drawing.
type op struct {
	pd     draw.Drawer
	bl     blend.Drawer
	name   string
	r      image.Rectangle
	sp, mp image.Point
	mask   *picture
}

func (o *op) draw(dst draw.Image, src, mask image.Image) {
	switch {
	case o.bl == nil:
		o.pd.Draw(dst, o.r, src, o.sp)
	case mask == nil && o.mp == image.Point{}:
		o.bl.Draw(dst, o.r, src, o.sp)
	default:
		o.bl.DrawMask(dst, o.r, src, o.sp, mask, o.mp)
	}
}

func (o *op) String() string {
	return fmt.Sprintf("%s r=%v sp=%v mask=%v mp=%v", o.name, o.r, o.sp, o.mask, o.mp)
}

func randOp(s *vsim.Stream) *op {
	o := &op{}
	if s.P(1, 3) {
		o.pd = pdOps[s.Int(len(pdOps))]
		o.name = fmt.Sprint(o.pd)
	} else {
		o.bl = blOps[s.Int(len(blOps))]
		o.name = fmt.Sprint(o.bl)
	}
	return o
}

func near(s *vsim.Stream, r image.Rectangle) image.Point {
	f := func(n int) int {
		n /= 2
		if n > 3 || s.P(1, 8) {
			n = 3
		}
		return s.Range(-n, n)
	}
	return image.Pt(r.Min.X+f(r.Dx()), r.Min.Y+f(r.Dy()))
}

// place chooses rectangle, offsets and mask for dst and src.
func place(s *vsim.Stream, o *op, dst image.Rectangle, src *picture, maxW, maxH int) {
	switch s.Int(4) {
	case 0:
		o.r = dst
	case 1:
		o.r = image.Rect(dst.Min.X-s.Int(3), dst.Min.Y-s.Int(3), dst.Max.X+s.Int(3), dst.Max.Y+s.Int(3))
	default:
		f := func(n int) int {
			if n = (n - 1) / 2; n > 4 {
				n = 4
			}
			return s.Range(-2, n)
		}
		o.r = image.Rect(dst.Min.X+f(dst.Dx()), dst.Min.Y+f(dst.Dy()), dst.Max.X-f(dst.Dx()), dst.Max.Y-f(dst.Dy()))
		if s.P(1, 16) {
			o.r = image.Rectangle{o.r.Max, o.r.Min}
		}
	}
	if src.uni == nil {
		o.sp = src.view.Min
		if s.P(1, 2) {
			o.sp = near(s, src.view)
		}
	} else if s.P(1, 2) {
		o.sp = image.Pt(s.Range(-5, 5), s.Range(-5, 5))
	}
	if o.bl != nil {
		k := [...]int{-1, -1, kUniform, kUniform, kAlpha, kAlpha, kNRGBA, kGray, kCustom, kRGBA64}[s.Int(10)]
		if k >= 0 {
			o.mask = newPicture(s, k, maxW, maxH)
			if o.mask.uni == nil {
				o.mp = o.mask.view.Min
				if s.P(1, 2) {
					o.mp = near(s, o.mask.view)
				}
			}
		}
	}
}

func dstKind(s *vsim.Stream) int {
	return [...]int{kNRGBA, kNRGBA, kNRGBA, kRGBA, kRGBA, kRGBA, kNRGBA64, kRGBA64, kGray, kAlpha, kCustom, kPaletted, kGray16, kCMYK, kAlpha16}[s.Int(15)]
}

func srcKind(s *vsim.Stream) int {
	return [...]int{kNRGBA, kNRGBA, kNRGBA, kRGBA, kRGBA, kRGBA, kUniform, kUniform, kAlpha, kAlpha, kNRGBA64, kRGBA64, kGray, kCustom, kPaletted, kYCbCr}[s.Int(16)]
}

func dims(s *vsim.Stream) (w, h int) {
	h = [...]int{4, 9, 20, 40}[s.Int(4)]
	w = [...]int{1, 4, 10}[s.Int(3)]
	if s.P(1, 150) {
		if s.P(1, 2) {
			return [...]int{3, 70, 300}[s.Int(3)], h
		}
		h = [...]int{70, 300, 1100}[s.Int(3)]
		w = min(w, 4)
	}
	return
}

var procs = [...]int{2, 3, 4, 5, 7, 8, 16, 64}

func clipped(o *op, dst image.Rectangle, src *picture) image.Rectangle {
	r := o.r.Intersect(dst)
	if src.uni == nil {
		r = r.Intersect(src.view.Add(o.r.Min.Sub(o.sp)))
	}
	if o.mask != nil && o.mask.uni == nil {
		r = r.Intersect(o.mask.view.Add(o.r.Min.Sub(o.mp)))
	}
	return r
}

func digest(c *vh.Ctx, o *op, ps ...*picture) {
	c.Digest(vsim.HashString(o.String()))
	for _, p := range ps {
		if p != nil {
			c.Digest(vsim.HashString(p.String()))
			if p.full != nil {
				c.DigestBytes(pix(p.full))
			}
		}
	}
}

func firstDiff(a, b []byte) string {
	for i := range a {
		if a[i] != b[i] {
			n := 0
			for j := range a {
				if a[j] != b[j] {
					n++
				}
			}
			return fmt.Sprintf("byte %d: %d instead of %d (%d bytes differ)", i, b[i], a[i], n)
		}
	}
	return "lengths differ"
}

func c10Draw(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	o := randOp(s)
	dst := newPicture(s, dstKind(s), w, h)
	src := newPicture(s, srcKind(s), w, h)
	place(s, o, dst.view, src, w, h)
	c.Desc(func() string { return fmt.Sprintf("%v: dst=%v src=%v", o, dst, src) })
	digest(c, o, dst, src, o.mask)
	cl := clipped(o, dst.view, src)
	if cl.Empty() {
		c.Trivial()
	} else if cl.Dy() >= 4 {
		c.Probe("splittable")
	}
	ref := dst.clone()
	sequential := func() {
		vsim.SetProcs(1)
		c.Call(o.name, func() { o.draw(ref.img().(draw.Image), src.img(), o.mask.img()) })
	}
	// The first one to draw may be the one that makes tables and the like.
	late := s.P(1, 2)
	if !late {
		sequential()
	}
	for n := s.Range(1, 3); n > 0; n-- {
		p := procs[s.Int(len(procs))]
		vsim.SetProcs(p)
		got := dst.clone()
		c.Call(o.name, func() { o.draw(got.img().(draw.Image), src.img(), o.mask.img()) })
		if late {
			sequential()
			late = false
		}
		if !bytes.Equal(pix(ref.full), pix(got.full)) {
			c.Fail("pixels", "%v onto %v from %v: GOMAXPROCS=%d and 1 differ: %s", o, dst, src, p, firstDiff(pix(ref.full), pix(got.full)))
		}
	}
	c.NoLeak(o.name)
}

// c10Self draws an image onto an overlapping part of itself.
func c10Self(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	o := randOp(s)
	dst := newPicture(s, [...]int{kNRGBA, kNRGBA, kRGBA, kRGBA, kNRGBA64, kRGBA64, kCustom, kAlpha, kGray}[s.Int(9)], w, h)
	// the source: the same image, or another view of its memory
	alias := 0
	srcView := dst.view
	if dst.kind != kCustom && s.P(1, 3) {
		alias = 1
		f := dst.full.Bounds()
		srcView = image.Rect(f.Min.X+s.Int(2), f.Min.Y+s.Int(3), f.Max.X-s.Int(2), f.Max.Y-s.Int(3))
		if srcView.Empty() {
			srcView = f
		}
	}
	view := func(p *picture) (draw.Image, image.Image) {
		d := p.img().(draw.Image)
		if alias == 0 {
			return d, d
		}
		return d, p.full.(interface {
			SubImage(image.Rectangle) image.Image
		}).SubImage(srcView)
	}
	src := &picture{kind: dst.kind, full: dst.full, view: srcView}
	place(s, o, dst.view, src, w, h)
	if s.P(1, 2) {
		// move by a few rows or columns
		o.r = dst.view
		k := min(5, dst.view.Dy()-1)
		j := min(2, dst.view.Dx()-1)
		o.sp = o.r.Min.Add(image.Pt(s.Range(-j, j), s.Range(-k, k)))
	}
	c.Desc(func() string { return fmt.Sprintf("%v: dst=%v src=%v alias=%d", o, dst, src, alias) })
	digest(c, o, dst, src, o.mask)
	cl := clipped(o, dst.view, src)
	mv := cl.Add(o.sp.Sub(o.r.Min))
	if !cl.Overlaps(mv) {
		c.Trivial()
	} else if cl != mv {
		c.Probe("overlapping")
	}
	ref := dst.clone()
	vsim.SetProcs(1)
	c.Call(o.name, func() {
		d, sr := view(ref)
		o.draw(d, sr, o.mask.img())
	})
	if alias == 0 {
		// processing sequentially must not read what it has already written
		snap, from := dst.clone(), dst.clone()
		c.Call(o.name, func() {
			d, _ := view(snap)
			_, sr := view(from)
			o.draw(d, sr, o.mask.img())
		})
		if !bytes.Equal(pix(ref.full), pix(snap.full)) {
			c.Fail("self", "%v onto %v from itself: differs from drawing a copy: %s", o, dst, firstDiff(pix(snap.full), pix(ref.full)))
		}
	}
	for n := s.Range(1, 3); n > 0; n-- {
		p := procs[s.Int(len(procs))]
		vsim.SetProcs(p)
		got := dst.clone()
		c.Call(o.name, func() {
			d, sr := view(got)
			o.draw(d, sr, o.mask.img())
		})
		if !bytes.Equal(pix(ref.full), pix(got.full)) {
			c.Fail("self", "%v onto %v from itself (view %v): GOMAXPROCS=%d and 1 differ: %s", o, dst, srcView, p, firstDiff(pix(ref.full), pix(got.full)))
		}
	}
	c.NoLeak(o.name)
}

// outside compares all the pixels of a and b outside r.
func outside(a, b image.Image, r image.Rectangle) (string, bool) {
	bo := a.Bounds()
	pa, pb := pix(a), pix(b)
	if bo.Empty() || len(pa) == 0 {
		return "", true
	}
	n := len(pa) / (bo.Dx() * bo.Dy())
	for y := bo.Min.Y; y < bo.Max.Y; y++ {
		for x := bo.Min.X; x < bo.Max.X; x++ {
			if image.Pt(x, y).In(r) {
				continue
			}
			i := ((y-bo.Min.Y)*bo.Dx() + x - bo.Min.X) * n
			if !bytes.Equal(pa[i:i+n], pb[i:i+n]) {
				return fmt.Sprintf("pixel (%d,%d) is %v instead of %v", x, y, pb[i:i+n], pa[i:i+n]), false
			}
		}
	}
	return "", true
}

func c11Inside(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	o := randOp(s)
	dst := newPicture(s, dstKind(s), w, h)
	src := newPicture(s, srcKind(s), w, h)
	place(s, o, dst.view, src, w, h)
	c.Desc(func() string { return fmt.Sprintf("%v: dst=%v src=%v", o, dst, src) })
	digest(c, o, dst, src, o.mask)
	cl := clipped(o, dst.view, src)
	if cl.Empty() {
		c.Trivial()
	}
	got, src2, mask2 := dst.clone(), src.clone(), o.mask.clone()
	p := procs[s.Int(len(procs))]
	if s.P(1, 4) {
		p = 1
	}
	vsim.SetProcs(p)
	c.Call(o.name, func() { o.draw(got.img().(draw.Image), src2.img(), mask2.img()) })
	if msg, ok := outside(dst.full, got.full, cl); !ok {
		c.Fail("outside", "%v onto %v from %v, clipped to %v: %s", o, dst, src, cl, msg)
	}
	if src.uni == nil && !bytes.Equal(pix(src.full), pix(src2.full)) {
		c.Fail("source", "%v onto %v from %v changes the source", o, dst, src)
	}
	if o.mask != nil && o.mask.uni == nil && !bytes.Equal(pix(o.mask.full), pix(mask2.full)) {
		c.Fail("mask", "%v onto %v from %v changes the mask", o, dst, src)
	}
	c.NoLeak(o.name)
}

func c11Tasks(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	w, h = w+3, h+3
	dst := newPicture(s, dstKind(s), w, h)
	// sources and masks all tasks share
	srcs := make([]*picture, s.Range(1, 3))
	for i := range srcs {
		srcs[i] = newPicture(s, srcKind(s), w, h)
	}
	n := s.Range(2, 5)
	// cut the destination into n strips
	cells := make([]image.Rectangle, 0, n)
	rest := dst.view
	for i := 0; i < n-1; i++ {
		a := rest
		if s.P(1, 2) {
			k := rest.Min.Y + s.Int(rest.Dy()+1)
			a.Max.Y, rest.Min.Y = k, k
		} else {
			k := rest.Min.X + s.Int(rest.Dx()+1)
			a.Max.X, rest.Min.X = k, k
		}
		cells = append(cells, a)
	}
	cells = append(cells, rest)
	type job struct {
		ops  []*op
		srcs []*picture
	}
	jobs := make([]*job, n)
	var shared *picture
	if s.P(1, 2) {
		shared = newPicture(s, [...]int{kAlpha, kNRGBA, kUniform}[s.Int(3)], w, h)
	}
	busy := 0
	for i := range jobs {
		j := &job{}
		for k := s.Range(1, 3); k > 0; k-- {
			o := randOp(s)
			src := srcs[s.Int(len(srcs))]
			place(s, o, cells[i], src, w, h)
			o.r = cells[i]
			if o.bl != nil && shared != nil && s.P(1, 2) {
				o.mask = shared
				if shared.uni == nil {
					o.mp = near(s, shared.view)
				}
			}
			if !clipped(o, dst.view, src).Empty() {
				busy++
			}
			j.ops = append(j.ops, o)
			j.srcs = append(j.srcs, src)
			c.Digest(vsim.HashString(o.String()))
			c.Desc(func() string { return fmt.Sprintf("task %d: %v dst=%v src=%v", i, o, dst, src) })
		}
		jobs[i] = j
	}
	c.DigestBytes(pix(dst.full))
	if busy < 2 {
		c.Trivial()
	}
	ref := dst.clone()
	sequential := func() {
		vsim.SetProcs(1)
		for _, j := range jobs {
			for k, o := range j.ops {
				c.Call(o.name, func() { o.draw(ref.img().(draw.Image), j.srcs[k].img(), o.mask.img()) })
			}
		}
	}
	late := s.P(1, 2)
	if !late {
		sequential()
	}
	vsim.SetProcs([...]int{1, 2, 3, 4, 8}[s.Int(5)])
	got := dst.clone()
	var g vh.Group
	for i, j := range jobs {
		c.Go(&g, fmt.Sprintf("drawer%d", i), func() {
			for k, o := range j.ops {
				c.Call(o.name, func() { o.draw(got.img().(draw.Image), j.srcs[k].img(), o.mask.img()) })
			}
		})
	}
	g.Wait()
	if late {
		sequential()
	}
	if !bytes.Equal(pix(ref.full), pix(got.full)) {
		c.Fail("tasks", "%d tasks drawing into disjoint parts of %v: result differs from drawing one after the other: %s", n, dst, firstDiff(pix(ref.full), pix(got.full)))
	}
	c.NoLeak("drawing")
}

// c11Parts draws a rectangle in parts, the points in the source and the mask
// moved along, one after the other or at the same time.
func c11Parts(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	o := randOp(s)
	dst := newPicture(s, dstKind(s), w, h)
	src := newPicture(s, srcKind(s), w, h)
	place(s, o, dst.view, src, w, h)
	c.Desc(func() string { return fmt.Sprintf("%v: dst=%v src=%v", o, dst, src) })
	digest(c, o, dst, src, o.mask)
	cl := clipped(o, dst.view, src)
	if cl.Empty() {
		c.Trivial()
	}
	want := dst.clone()
	vsim.SetProcs(1)
	c.Call(o.name, func() { o.draw(want.img().(draw.Image), src.img(), o.mask.img()) })

	parts := []*op{}
	var cut func(r image.Rectangle, n int)
	cut = func(r image.Rectangle, n int) {
		if n == 0 || r.Dx() < 2 && r.Dy() < 2 {
			p := *o
			p.r = r
			off := r.Min.Sub(o.r.Min)
			p.sp, p.mp = o.sp.Add(off), o.mp.Add(off)
			parts = append(parts, &p)
			return
		}
		a, b := r, r
		if r.Dy() >= 2 && (r.Dx() < 2 || s.P(1, 2)) {
			k := r.Min.Y + s.Range(1, r.Dy()-1)
			a.Max.Y, b.Min.Y = k, k
		} else {
			k := r.Min.X + s.Range(1, r.Dx()-1)
			a.Max.X, b.Min.X = k, k
		}
		cut(a, n-1)
		cut(b, n-1)
	}
	cut(o.r, s.Range(1, 3))
	vsim.SetProcs([...]int{1, 2, 3, 4, 8}[s.Int(5)])
	got := dst.clone()
	var g vh.Group
	together := s.P(1, 2)
	for i, p := range parts {
		f := func() {
			c.Call(p.name, func() { p.draw(got.img().(draw.Image), src.img(), p.mask.img()) })
		}
		if together {
			c.Go(&g, fmt.Sprintf("drawer%d", i), f)
		} else {
			f()
		}
	}
	g.Wait()
	if !bytes.Equal(pix(want.full), pix(got.full)) {
		c.Fail("parts", "%v onto %v from %v: drawing it in %d parts (at once: %v) differs from drawing it whole: %s", o, dst, src, len(parts), together, firstDiff(pix(want.full), pix(got.full)))
	}
	c.NoLeak(o.name)
}
