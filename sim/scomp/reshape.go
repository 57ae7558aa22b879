package scomp

import (
	"context"
	"fmt"
	"image"
	"math"

	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

func init() {
	vh.Register(&vh.Property{
		ID: "C22",
		Scens: []vh.Scenario{
			{Name: "reshaped", Weight: 5, Fn: c22Reshaped},
			{Name: "together", Weight: 2, Fn: c22Together},
		},
		Rule: "trees built with, or transformed by, random invertible matrices (also in two steps, after a cancelled attempt, several at the same time) under random GOMAXPROCS and schedules; every pixel of up to three layers, with and without masks, compared with the document sampled by a tent filter; distinct = digest of document, matrix and schedule; trivial = no layer with pixels",
		Real: realParts, Stub: stubParts,
	})
}

// c22World has layers that are opaque enough for exact numbers.
func c22World(c *vh.Ctx, layers int) *world {
	w := newWorld(c, 10, layers, func(d *psdgen.Doc) {
		for _, l := range d.Layers {
			if a := l.Find(-1); a != nil && c.Gen.P(2, 3) {
				for i := range a.Data {
					a.Data[i] |= byte(64 >> uint(i&3))
				}
			}
		}
	})
	if len(w.d.Layers) == 0 {
		c.Trivial()
	}
	return w
}

func c22Gamma(c *vh.Ctx) float64 {
	if !c.Gen.P(1, 20) {
		return 0
	}
	c.Probe("gamma")
	return float64(c.Gen.Range(400, 2600)) / 1000
}

// c22Reshaped compares every layer of a tree that was turned, sheared or scaled
// with the pixels of the document, sampled by a tent filter (which
// x/image/draw.BiLinear is): in exact numbers where the filter sees only
// pixels of the layer, by what it sees at least and at most elsewhere.
func c22Reshaped(c *vh.Ctx) {
	w := c22World(c, 4)
	m, gamma := randShape(c.Gen), c22Gamma(c)
	var t *composite.Tree
	transform := func(m f64.Aff3, gamma float64) {
		if c.Gen.P(1, 6) {
			k := cancelAfter(c, int64(c.Fault.Int(2000)))
			c.Call("Transform", func() { t.Transform(k.ctx, m, gamma) })
			k.end()
			k.cancel()
			c.NoLeak("Transform")
			c.Probe("cancelled before")
		}
		procs(c)
		var nt *composite.Tree
		var err error
		c.Call("Transform", func() { nt, err = t.Transform(context.Background(), m, gamma) })
		if err != nil || nt == nil {
			c.Fail("error", "Transform that was not cancelled returns %v", err)
		}
		c.NoLeak("Transform")
		t = nt
	}
	how := c.Gen.Int(5)
	c.Desc(func() string { return fmt.Sprintf("way %d, matrix %v gamma %v", how, m, gamma) })
	g := f64.Aff3{1, 0, 0, 0, 1, 0}
	if how >= 3 {
		g = randLattice(c.Gen).matrix()
		c.Desc(func() string { return fmt.Sprintf("in two steps, with %v", g) })
		c.Probe("in two steps")
	}
	switch how {
	case 0, 1:
		w.mat, w.gamma = m, gamma
		t = w.build()
		c.NoLeak("New")
	case 2:
		t = w.build()
		transform(m, gamma)
	case 3: // moved, then reshaped
		w.mat = g
		t = w.build()
		transform(m, gamma)
		m = mul(m, g)
	case 4: // reshaped, then moved
		w.mat, w.gamma = m, gamma
		t = w.build()
		transform(g, 0)
		m = mul(g, m)
	}
	w.checkLinks(t)
	w.checkSampled(t, 3, m, gamma)
}

// c22Together makes several transformations of one tree at the same time, and
// builds one.
func c22Together(c *vh.Ctx) {
	w := c22World(c, 4)
	t := w.build()
	procs(c)
	type job struct {
		m     f64.Aff3
		gamma float64
		t     *composite.Tree
		err   error
	}
	var g vh.Group
	js := make([]*job, c.Gen.Range(2, 3))
	for i := range js {
		j := &job{m: randShape(c.Gen)}
		js[i] = j
		if i == 0 {
			j.gamma = c22Gamma(c)
		}
		c.Desc(func() string { return fmt.Sprintf("task %d: matrix %v gamma %v", i, j.m, j.gamma) })
		c.Go(&g, "transformer", func() {
			c.Call("Transform", func() { j.t, j.err = t.Transform(context.Background(), j.m, j.gamma) })
		})
	}
	g.Wait()
	c.NoLeak("Transform")
	for _, j := range js {
		if j.err != nil || j.t == nil {
			c.Fail("error", "Transform that was not cancelled returns %v", j.err)
		}
		w.checkLinks(j.t)
		w.checkSampled(j.t, 2, j.m, j.gamma)
	}
}

// mul is a after b.
func mul(a, b f64.Aff3) f64.Aff3 {
	return f64.Aff3{
		a[0]*b[0] + a[1]*b[3], a[0]*b[1] + a[1]*b[4], a[0]*b[2] + a[1]*b[5] + a[2],
		a[3]*b[0] + a[4]*b[3], a[3]*b[1] + a[4]*b[4], a[3]*b[2] + a[4]*b[5] + a[5],
	}
}

// randShape gives an invertible matrix that does not enlarge much.
func randShape(s *vsim.Stream) f64.Aff3 {
	for {
		var m f64.Aff3
		switch s.Int(5) {
		case 0:
			a := float64(s.Int(360)) * math.Pi / 180
			k := float64(s.Range(60, 200)) / 100
			m[0], m[1], m[3], m[4] = k*math.Cos(a), -k*math.Sin(a), k*math.Sin(a), k*math.Cos(a)
		case 1:
			m[0], m[4] = float64(s.Range(-20, 20))/10, float64(s.Range(-20, 20))/10
		case 2:
			m[0], m[1], m[3], m[4] = 1, float64(s.Range(-15, 15))/10, float64(s.Range(-15, 15))/10, 1
		case 3:
			m[1], m[3] = float64(s.Range(-20, 20))/10, float64(s.Range(-20, 20))/10
		default:
			for _, i := range []int{0, 1, 3, 4} {
				m[i] = float64(s.Range(-18, 18)) / 10
			}
		}
		// nearly the identity, in some entries
		if s.P(1, 5) {
			for _, i := range []int{0, 1, 3, 4} {
				if s.P(1, 2) {
					m[i] = [...]float64{1, 0, 0, 0, 1}[i]
				}
			}
		}
		m[2], m[5] = float64(s.Range(-40, 40))/2, float64(s.Range(-40, 40))/2
		switch s.Int(8) {
		case 0:
			m[2], m[5] = 0, 0
		case 1:
			m[2] = 0
		case 2:
			m[5] = 0
		case 3:
			m[2] += float64(s.Range(-10, 10)) / 37
			m[5] += float64(s.Range(-10, 10)) / 37
		}
		if d := m[0]*m[4] - m[1]*m[3]; math.Abs(d) > .1 {
			return m
		}
	}
}

// tent is the filter at one place of the canvas.
type tent struct {
	x0, x1, y0, y1 int // the pixels it may see
	sx, sy         float64
	kx, ky         float64
}

func newTent(inv f64.Aff3, x, y int) tent {
	fx, fy := float64(x)+.5, float64(y)+.5
	t := tent{
		sx: inv[0]*fx + inv[1]*fy + inv[2] - .5,
		sy: inv[3]*fx + inv[4]*fy + inv[5] - .5,
		kx: math.Max(1, math.Max(math.Abs(inv[0]), math.Abs(inv[1]))),
		ky: math.Max(1, math.Max(math.Abs(inv[3]), math.Abs(inv[4]))),
	}
	const e = 1e-6
	t.x0, t.x1 = int(math.Floor(t.sx-t.kx-e)), int(math.Ceil(t.sx+t.kx+e))
	t.y0, t.y1 = int(math.Floor(t.sy-t.ky-e)), int(math.Ceil(t.sy+t.ky+e))
	return t
}

func (t tent) weight(x, y int) float64 {
	return math.Max(0, 1-math.Abs(t.sx-float64(x))/t.kx) * math.Max(0, 1-math.Abs(t.sy-float64(y))/t.ky)
}

func invert(m f64.Aff3) f64.Aff3 {
	d := m[0]*m[4] - m[1]*m[3]
	return f64.Aff3{
		m[4] / d, -m[1] / d, (m[1]*m[5] - m[2]*m[4]) / d,
		-m[3] / d, m[0] / d, (m[2]*m[3] - m[0]*m[5]) / d,
	}
}

// sampled is what a layer may look like at one place: alpha and colour between
// lo and hi. Colours count only if there is alpha.
type sampled struct {
	lo, hi [4]float64
	exact  bool
}

func sampleLayer(l *psdgen.Layer, t tent, gamma float64) sampled {
	if gamma == 0 {
		gamma = 1
	}
	r := sampled{exact: true}
	for i := range r.lo {
		r.lo[i] = 255
	}
	var sum [4]float64
	all := 0.0
	for y := t.y0; y <= t.y1; y++ {
		for x := t.x0; x <= t.x1; x++ {
			p := layerPixel(l, x, y)
			v := [4]float64{float64(p.R), float64(p.G), float64(p.B), float64(p.A)}
			r.lo[3], r.hi[3] = math.Min(r.lo[3], v[3]), math.Max(r.hi[3], v[3])
			k := t.weight(x, y)
			all += k
			sum[3] += k * v[3]
			if p.A == 0 {
				r.exact = false
				continue
			}
			for i := 0; i < 3; i++ {
				r.lo[i], r.hi[i] = math.Min(r.lo[i], v[i]), math.Max(r.hi[i], v[i])
				sum[i] += k * v[3] * math.Pow(v[i]/255, gamma)
			}
		}
	}
	if r.exact {
		for i := 0; i < 3; i++ {
			v := math.Pow(sum[i]/sum[3], 1/gamma) * 255
			r.lo[i], r.hi[i] = v, v
		}
		r.lo[3], r.hi[3] = sum[3]/all, sum[3]/all
	}
	return r
}

func sampleMask(l *psdgen.Layer, t tent) (lo, hi float64) {
	lo = 255
	sum, all, exact := 0.0, 0.0, true
	for y := t.y0; y <= t.y1; y++ {
		for x := t.x0; x <= t.x1; x++ {
			v := maskPixel(l, x, y)
			if v == l.Mask.Default {
				exact = false
			}
			k := t.weight(x, y)
			sum += k * float64(v)
			all += k
			lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
		}
	}
	if exact {
		return sum / all, sum / all
	}
	return lo, hi
}

// checkSampled spoils the tree.
func (w *world) checkSampled(t *composite.Tree, max int, m f64.Aff3, gamma float64) {
	inv := invert(m)
	if gamma == 0 {
		gamma = 1
	}
	for _, p := range []image.Point{{0, 0}, {w.d.W, 0}, {0, w.d.H}, {w.d.W, w.d.H}} {
		x, y := m[0]*float64(p.X)+m[1]*float64(p.Y)+m[2], m[3]*float64(p.X)+m[4]*float64(p.Y)+m[5]
		const e = 1e-6
		if r := t.CanvasRect; x < float64(r.Min.X)-e || x > float64(r.Max.X)+e || y < float64(r.Min.Y)-e || y > float64(r.Max.Y)+e {
			w.c.Fail("rect", "CanvasRect %v does not hold the corner %v of the document, which is now at %.3f,%.3f", r, p, x, y)
		}
	}
	var ls []*composite.Layer
	for _, l := range layers(t) {
		if d := w.d.Layers[l.SeqID]; d.Div() == 0 && !d.Rect.Empty() {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		w.c.Trivial()
	}
	for ; max > 0 && len(ls) > 0; max-- {
		i := w.c.Gen.Int(len(ls))
		x := ls[i]
		ls = append(ls[:i:i], ls[i+1:]...)
		l := w.d.Layers[x.SeqID]
		masked := map[int]bool{}
		for p := x; p.Parent != nil; p = p.Parent {
			if pm := w.d.Layers[p.SeqID].Mask; pm != nil && !pm.Rect.Empty() && w.c.Gen.P(1, 2) {
				masked[p.SeqID] = true
				w.c.Probe("masked")
			}
		}
		img := w.solo(t, x, masked)
		exact := 0
		// copies of translucent colours round
		copies := 2 + 2*float64(len(masked))
		doc := image.Rect(0, 0, w.d.W, w.d.H)
		for yy := img.Rect.Min.Y; yy < img.Rect.Max.Y; yy++ {
			for xx := img.Rect.Min.X; xx < img.Rect.Max.X; xx++ {
				f := newTent(inv, xx, yy)
				if !image.Pt(int(math.Floor(f.sx+.5)), int(math.Floor(f.sy+.5))).In(doc) {
					continue
				}
				s := sampleLayer(l, f, gamma)
				tol, ct := 1.0, 2.0
				for id := range masked {
					lo, hi := sampleMask(w.d.Layers[id], f)
					s.lo[3], s.hi[3] = s.lo[3]*lo/255, s.hi[3]*hi/255
					tol += 1.5
				}
				got := img.NRGBAAt(xx, yy)
				if a := float64(got.A); a < s.lo[3]-tol || a > s.hi[3]+tol {
					w.c.Fail("pixels", "layer #%d alone (masks %v): alpha at (%d,%d) is %d, expected %.2f-%.2f (sampled at %.3f,%.3f)", x.SeqID, masked, xx, yy, got.A, s.lo[3], s.hi[3], f.sx, f.sy)
				}
				if got.A < 16 || s.hi[3] == 0 {
					continue
				}
				if s.exact {
					exact++
				}
				if got.A != 255 {
					ct = copies * (5 + 600/float64(got.A))
				}
				for i, v := range []uint8{got.R, got.G, got.B} {
					lo, hi := s.lo[i]-ct, s.hi[i]+ct
					if gamma != 1 {
						// stored as 16 bits of the power
						e := 6.0 / 65535 * 255 / float64(got.A)
						lo = math.Pow(math.Max(0, math.Pow(s.lo[i]/255, gamma)-e), 1/gamma)*255 - ct
						hi = math.Pow(math.Pow(s.hi[i]/255, gamma)+e, 1/gamma)*255 + ct
					}
					if float64(v) < lo || float64(v) > hi {
						w.c.Fail("pixels", "layer #%d alone (masks %v): colour at (%d,%d) is %v, channel %d expected %.2f-%.2f (sampled at %.3f,%.3f)", x.SeqID, masked, xx, yy, got, i, lo, hi, f.sx, f.sy)
					}
				}
			}
		}
		if exact > 0 {
			w.c.Probe("sampled in exact numbers")
		}
	}
}
