package sblend

import (
	"fmt"
	"image"
	"image/draw"
	"math"

	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

// The reference: what each operator makes of one source and one destination
// pixel, in exact numbers. https://www.w3.org/TR/compositing-1/ and, for the
// blend modes that are not defined there, the formulas they are known by.

// col is a colour, not premultiplied, components and alpha in 0..1.
type col struct {
	c [3]float64
	a float64
}

func readCol(m image.Image, x, y int) col {
	switch m := m.(type) {
	case *image.NRGBA:
		p := m.NRGBAAt(x, y)
		return col{[3]float64{float64(p.R) / 255, float64(p.G) / 255, float64(p.B) / 255}, float64(p.A) / 255}
	case *image.NRGBA64:
		p := m.NRGBA64At(x, y)
		return col{[3]float64{float64(p.R) / 65535, float64(p.G) / 65535, float64(p.B) / 65535}, float64(p.A) / 65535}
	}
	r, g, b, a := m.At(x, y).RGBA()
	if a == 0 {
		return col{}
	}
	f := float64(a)
	return col{[3]float64{math.Min(1, float64(r)/f), math.Min(1, float64(g)/f), math.Min(1, float64(b)/f)}, f / 65535}
}

func clamp1(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func burn(s, d float64) float64 {
	switch {
	case d >= 1:
		return 1
	case s <= 0:
		return 0
	}
	return 1 - math.Min(1, (1-d)/s)
}

func dodge(s, d float64) float64 {
	switch {
	case d <= 0:
		return 0
	case s >= 1:
		return 1
	}
	return math.Min(1, d/(1-s))
}

func hard(s, d float64) float64 {
	if s < 0.5 {
		return 2 * s * d
	}
	return 1 - 2*(1-s)*(1-d)
}

func vivid(s, d float64) float64 {
	if s < 0.5 {
		return burn(2*s, d)
	}
	return dodge(2*s-1, d)
}

// sep are the blend modes that treat each component by itself.
var sep = map[string]func(s, d float64) float64{
	"Normal":      func(s, d float64) float64 { return s },
	"Darken":      math.Min,
	"Multiply":    func(s, d float64) float64 { return s * d },
	"ColorBurn":   burn,
	"LinearBurn":  func(s, d float64) float64 { return math.Max(0, s+d-1) },
	"Lighten":     math.Max,
	"Screen":      func(s, d float64) float64 { return s + d - s*d },
	"ColorDodge":  dodge,
	"LinearDodge": func(s, d float64) float64 { return math.Min(1, s+d) },
	"Add":         func(s, d float64) float64 { return s + d },
	"Overlay":     func(s, d float64) float64 { return hard(d, s) },
	"SoftLight": func(s, d float64) float64 {
		if s < 0.5 {
			return d - (1-2*s)*d*(1-d)
		}
		f := math.Sqrt(d)
		if d < 0.25 {
			f = ((16*d-12)*d + 4) * d
		}
		return d + (2*s-1)*(f-d)
	},
	"HardLight":   hard,
	"LinearLight": func(s, d float64) float64 { return clamp1(d + 2*s - 1) },
	"VividLight":  vivid,
	"PinLight": func(s, d float64) float64 {
		if s < 0.5 {
			return math.Min(2*s, d)
		}
		return math.Max(2*s-1, d)
	},
	"HardMix": func(s, d float64) float64 {
		if vivid(s, d) <= 0.5 {
			return 0
		}
		return 1
	},
	"Difference": func(s, d float64) float64 { return math.Abs(s - d) },
	"Exclusion":  func(s, d float64) float64 { return s + d - 2*s*d },
	"Subtract":   func(s, d float64) float64 { return math.Max(0, d-s) },
	"Divide": func(s, d float64) float64 {
		switch {
		case d <= 0:
			return 0
		case s <= 0:
			return 1
		}
		return math.Min(1, d/s)
	},
}

type rgb = [3]float64

func lumOf(c rgb) float64 { return 0.3*c[0] + 0.59*c[1] + 0.11*c[2] }

func satOf(c rgb) float64 {
	return math.Max(c[0], math.Max(c[1], c[2])) - math.Min(c[0], math.Min(c[1], c[2]))
}

func setLumTo(c rgb, l float64) rgb {
	d := l - lumOf(c)
	for i := range c {
		c[i] += d
	}
	l = lumOf(c)
	lo, hi := math.Min(c[0], math.Min(c[1], c[2])), math.Max(c[0], math.Max(c[1], c[2]))
	for i := range c {
		if lo < 0 {
			c[i] = l + (c[i]-l)*l/(l-lo)
		}
	}
	for i := range c {
		if hi > 1 {
			c[i] = l + (c[i]-l)*(1-l)/(hi-l)
		}
	}
	return c
}

func setSatTo(c rgb, s float64) rgb {
	lo, hi := math.Min(c[0], math.Min(c[1], c[2])), math.Max(c[0], math.Max(c[1], c[2]))
	for i := range c {
		if hi > lo {
			c[i] = (c[i] - lo) * s / (hi - lo)
		} else {
			c[i] = 0
		}
	}
	return c
}

// whole are the blend modes that treat the components together.
var whole = map[string]func(s, d rgb) rgb{
	"DarkerColor": func(s, d rgb) rgb {
		if lumOf(s) < lumOf(d) {
			return s
		}
		return d
	},
	"LighterColor": func(s, d rgb) rgb {
		if lumOf(s) > lumOf(d) {
			return s
		}
		return d
	},
	"Hue":        func(s, d rgb) rgb { return setLumTo(setSatTo(s, satOf(d)), lumOf(d)) },
	"Saturation": func(s, d rgb) rgb { return setLumTo(setSatTo(d, satOf(s)), lumOf(d)) },
	"Color":      func(s, d rgb) rgb { return setLumTo(s, lumOf(d)) },
	"Luminosity": func(s, d rgb) rgb { return setLumTo(d, lumOf(s)) },
}

// porter gives the factors of source and destination.
var porter = map[string]func(sa, da float64) (fs, fd float64){
	"Clear":    func(sa, da float64) (float64, float64) { return 0, 0 },
	"Copy":     func(sa, da float64) (float64, float64) { return 1, 0 },
	"Dest":     func(sa, da float64) (float64, float64) { return 0, 1 },
	"SrcOver":  func(sa, da float64) (float64, float64) { return 1, 1 - sa },
	"DestOver": func(sa, da float64) (float64, float64) { return 1 - da, 1 },
	"SrcIn":    func(sa, da float64) (float64, float64) { return da, 0 },
	"DestIn":   func(sa, da float64) (float64, float64) { return 0, sa },
	"SrcOut":   func(sa, da float64) (float64, float64) { return 1 - da, 0 },
	"DestOut":  func(sa, da float64) (float64, float64) { return 0, 1 - sa },
	"SrcAtop":  func(sa, da float64) (float64, float64) { return da, 1 - sa },
	"DestAtop": func(sa, da float64) (float64, float64) { return 1 - da, sa },
	"XOR":      func(sa, da float64) (float64, float64) { return 1 - da, 1 - sa },
}

// span is what a premultiplied component may be.
type span struct{ lo, hi float64 }

func (s *span) add(v float64) { s.lo, s.hi = math.Min(s.lo, v), math.Max(s.hi, v) }

// expect gives what the operator may make of s, seen through a mask, and d:
// premultiplied components and alpha. The colours that enter a blend mode
// may be off by w: for that much they have been rounded before.
func expect(name string, s, d col, mask, w float64) (out [4]span) {
	if f := porter[name]; f != nil {
		fs, fd := f(s.a, d.a)
		for i := 0; i < 3; i++ {
			v := s.c[i]*s.a*fs + d.c[i]*d.a*fd
			out[i] = span{v, v}
		}
		v := s.a*fs + d.a*fd
		out[3] = span{v, v}
		return out
	}
	sa := s.a * mask
	a := sa + d.a - sa*d.a
	out[3] = span{a, a}
	var b [3]span
	if f := sep[name]; f != nil {
		for i := range b {
			v := f(s.c[i], d.c[i])
			b[i] = span{v, v}
			for k := 0; k < 9; k++ {
				b[i].add(f(clamp1(s.c[i]+float64(k%3-1)*w), clamp1(d.c[i]+float64(k/3-1)*w)))
			}
		}
	} else {
		f := whole[name]
		v := f(s.c, d.c)
		for i := range b {
			b[i] = span{v[i], v[i]}
		}
		n := 729
		if sa*d.a == 0 {
			n = 0
		}
		// (each combination of the components a bit higher, lower or unchanged)
		for k := 0; k < n; k++ {
			s2, d2 := s.c, d.c
			j := k
			for i := 0; i < 3; i++ {
				s2[i] = clamp1(s2[i] + float64(j%3-1)*w)
				j /= 3
			}
			for i := 0; i < 3; i++ {
				d2[i] = clamp1(d2[i] + float64(j%3-1)*w)
				j /= 3
			}
			v := f(s2, d2)
			for i := range b {
				b[i].add(v[i])
			}
		}
	}
	for i := range b {
		r := s.c[i]*sa*(1-d.a) + d.c[i]*d.a*(1-sa)
		out[i] = span{math.Min(a, r+b[i].lo*sa*d.a), math.Min(a, r+b[i].hi*sa*d.a)}
	}
	return out
}

// fast says whether there is code for the image types that works in 8 bits.
func fast(o *op, dst, src *picture) bool {
	if dst.kind != kNRGBA && dst.kind != kRGBA || o.mask != nil && o.mask.uni == nil {
		return false
	}
	return src.kind == kNRGBA || src.kind == kRGBA || o.bl == nil && (src.kind == kAlpha || src.kind == kUniform)
}

// checkPixel compares what has become of the pixel p of dst.
func checkPixel(o *op, src, before, after *picture, p image.Point) (dev float64, text string) {
	q := p.Sub(o.r.Min).Add(o.sp)
	s := readCol(src.img(), q.X, q.Y)
	d := readCol(before.img(), p.X, p.Y)
	f := fast(o, before, src)
	if src.kind == kAlpha && o.bl == nil && f {
		s.c = rgb{} // as the reference pictures of the project have it
	}
	m := 1.0
	if o.mask != nil {
		mp := p.Sub(o.r.Min).Add(o.mp)
		_, _, _, a := o.mask.img().At(mp.X, mp.Y).RGBA()
		m = float64(a) / 65535
	}
	// how well the colours are known, and how well the result is stored
	w, tol := 1.6/255, 1.4/255
	solid := (s.a*m == 0 || s.a*m == 1) && (d.a == 0 || d.a == 1)
	hsl := o.name == "Hue" || o.name == "Saturation" || o.name == "Color" || o.name == "Luminosity"
	switch {
	case before.kind == kCMYK:
		tol = 3.2 / 255
	case f && o.bl != nil && before.kind == kNRGBA && src.kind == kNRGBA: // computed in 8 bits
		tol = 3.6 / 255
		if solid {
			tol = 2.2 / 255
		}
		if hsl {
			tol = 16.0 / 255 // brightness in 8 bits is coarse for dark and saturated colours
		}
	case (before.kind == kNRGBA || before.kind == kCustom) && !solid:
		tol = 2.4 / 255
	}
	if hsl && tol < 3.6/255 {
		tol = 3.6 / 255
	}
	deep := before.kind == kNRGBA64 || before.kind == kRGBA64 || before.kind == kGray16 || before.kind == kAlpha16
	if !f {
		w = 4.0 / 65535
		for _, a := range [...]float64{s.a, d.a} {
			if a > 0 && a < 1 {
				w = math.Max(w, math.Min(1, 4/65535.0/a))
			}
		}
		if deep && !hsl {
			tol = 12.0 / 65535
		}
	}
	e := expect(o.name, s, d, m, w)
	if o.name == "Hue" && satOf(s.c) < 0.02 || o.name == "Saturation" && satOf(d.c) < 0.02 {
		// what hue a grey is of is up to rounding
		for i := 0; i < 3; i++ {
			e[i] = span{0, e[3].hi}
		}
	}
	g := readCol(after.img(), p.X, p.Y)
	v := [4]float64{g.c[0] * g.a, g.c[1] * g.a, g.c[2] * g.a, g.a}
	switch before.kind {
	case kGray, kGray16:
		l := span{0.299*e[0].lo + 0.587*e[1].lo + 0.114*e[2].lo, 0.299*e[0].hi + 0.587*e[1].hi + 0.114*e[2].hi}
		e = [4]span{l, l, l, {1, 1}}
	case kAlpha, kAlpha16:
		e[0], e[1], e[2] = e[3], e[3], e[3]
	case kCMYK:
		e[3] = span{1, 1}
	case kPaletted:
		return 0, ""
	}
	for i := range v {
		dev = math.Max(dev, math.Max(e[i].lo-v[i], v[i]-e[i].hi)/tol)
	}
	if dev > 1 {
		text = fmt.Sprintf("source %.4f, destination %.4f, mask %.4f: got premultiplied %.4f instead of %.4f (not more than %.4f off)", s, d, m, v, e, tol)
	}
	return dev, text
}

func c21Draw(c *vh.Ctx) {
	s := c.Gen
	w, h := dims(s)
	if s.P(3, 4) {
		w, h = 4, 9
	}
	kind := dstKind(s)
	typed := s.P(1, 2) // rather the code for particular types
	if typed {
		kind = [...]int{kNRGBA, kRGBA}[s.Int(2)]
	}
	dst := newPicture(s, kind, w, h)
	n := 1
	if s.P(1, 3) {
		n = s.Range(2, 4)
	}
	trivial := true
	for k := 0; k < n; k++ {
		o := randOp(s)
		sk := srcKind(s)
		if typed {
			sk = [...]int{kNRGBA, kRGBA, kNRGBA, kRGBA, kUniform, kAlpha}[s.Int(6)]
		}
		src := newPicture(s, sk, w, h)
		place(s, o, dst.view, src, w, h)
		if typed && o.mask != nil && o.mask.uni == nil {
			o.mask, o.mp = nil, image.Point{}
		}
		first := k == 0
		c.Desc(func() string {
			if first {
				return fmt.Sprintf("%v: dst=%v src=%v", o, dst, src)
			}
			return fmt.Sprintf("then %v: src=%v", o, src)
		})
		digest(c, o, dst, src, o.mask)
		p := 1
		if s.P(2, 3) {
			p = procs[s.Int(len(procs))]
		}
		vsim.SetProcs(p)
		before := dst.clone()
		c.Call(o.name, func() { o.draw(dst.img().(draw.Image), src.img(), o.mask.img()) })
		cl := clipped(o, dst.view, src)
		if !cl.Empty() {
			trivial = false
		}
		for y := cl.Min.Y; y < cl.Max.Y; y++ {
			for x := cl.Min.X; x < cl.Max.X; x++ {
				if dev, text := checkPixel(o, src, before, dst, image.Pt(x, y)); dev > 1 {
					c.Fail("pixel", "%v onto %v from %v, GOMAXPROCS=%d, pixel (%d,%d): %s", o, dst, src, p, x, y, text)
				}
			}
		}
		if fast(o, dst, src) {
			c.Probe("code for the types")
		} else {
			c.Probe("general code")
		}
		if kind == kPaletted {
			c.Probe("paletted: not compared")
		}
	}
	if trivial {
		c.Trivial()
	}
	c.NoLeak("drawing")
}
