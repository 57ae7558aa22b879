// Package scomp simulates the compositor: building layer trees, rendering,
// invalidating, cancelling, cloning, transforming and making thumbnails.
package scomp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"strings"
	"time"

	"golang.org/x/image/math/f64"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/simio"
	"github.com/oov/psd/verifsim/vh"
	"github.com/oov/psd/verifsim/vsim"
)

var realParts = []string{"composite (builder, tiles, renderer, caches, cloner, transform, thumbnails)", "blend", "psd (decoder)", "golang.org/x/image/draw (Transform)", "context, image (standard library)"}
var stubParts = []string{"goroutine scheduling, GOMAXPROCS, sync, map order, channels (simulator)", "the byte stream (simulated readers)", "github.com/oov/downscale (not available offline; sequential box filter)", "log"}

// world is one document and the options its trees are built with.
type world struct {
	c     *vh.Ctx
	d     *psdgen.Doc
	b     []byte
	m     *psdgen.Map
	tile  int
	mat   f64.Aff3
	gamma float64
	enc   int // 0: no detector, 1: detector
}

func docOpt(dim, layers int) psdgen.Opt {
	return psdgen.Opt{Modes: []int{psdgen.RGB}, Depths: []int{8}, Plain: true, Comp: true, Folders: true, AlphaRuns: true, NoReal: true, MaxDim: dim, MaxLayers: layers, Methods: []int{0, 1, 1, 2}, MaxPos: 9, NoShort: true}
}

func procs(c *vh.Ctx) {
	vsim.SetProcs([]int{1, 2, 3, 4, 8, 16}[c.Sched.Int(6)])
}

func newWorld(c *vh.Ctx, dim, layers int, tweak ...func(*psdgen.Doc)) *world {
	psd.Debug = nil
	w := &world{c: c}
	o := docOpt(dim, layers)
	if c.Gen.P(1, 12) {
		o.Deep, o.MaxLayers = true, layers+8
	}
	// now and then far more of something
	large := 0
	if c.Gen.P(1, 30) {
		large = 1 + c.Gen.Int(3)
	}
	switch large {
	case 1, 2:
		o.Deep = false
		o.MaxDim, o.MaxLayers, o.MaxPos = c.Gen.Range(20, 140), 3, 40
	case 3:
		o.MaxDim, o.MaxLayers = 6, 60
	}
	for n := 3; n > 0; n-- {
		w.d = psdgen.Generate(c.Gen, o)
		if visible(w.d) || c.Gen.P(1, 4) {
			break
		}
	}
	for _, f := range tweak {
		f(w.d)
	}
	w.b, w.m = psdgen.Encode(w.d, c.Gen)
	c.DigestBytes(w.b)
	w.tile = []int{2, 3, 1, 4, 5, 7, 8, 16, 64}[vh.Pick(c.Gen, 5, 4, 2, 4, 2, 2, 2, 1, 1)]
	if large == 1 {
		w.tile = []int{64, 16, 32, 30, 65, 100}[vh.Pick(c.Gen, 4, 2, 2, 1, 1, 1)]
	} else if large == 2 && w.tile < 5 {
		w.tile += 4
	}
	if large > 0 {
		c.Probe([]string{"", "large tiles", "large", "many layers"}[large])
	}
	c.Digest(uint64(w.tile))
	c.Desc(func() string { return fmt.Sprintf("tile size %d, document %s", w.tile, w.d.String()) })
	procs(c)
	return w
}

// visible tells whether a layer has pixels within the document.
func visible(d *psdgen.Doc) bool {
	for _, l := range d.Layers {
		if l.Div() == 0 && l.Rect.Overlaps(image.Rect(0, 0, d.W, d.H)) {
			return true
		}
	}
	return false
}

// nameEncoded tells whether the name of l is in the encoding to be detected.
func (w *world) nameEncoded(l *psdgen.Layer) bool {
	return !(l.HasLuni && l.Luni != "" || l.Name == "") && l.Div() != 3
}

func (w *world) options() *composite.Options {
	o := &composite.Options{TileSize: w.tile, TransformMatrix: w.mat, Gamma: w.gamma}
	switch w.enc {
	case 1:
		o.LayerNameEncodingDetector = func([]byte) encoding.Encoding { return charmap.Windows1252 }
	case 2: // sees from one of the names that need it which encoding it is
		var sure string
		for _, l := range w.d.Layers {
			if w.nameEncoded(l) && len(l.Name) > len(sure) {
				sure = l.Name
			}
		}
		o.LayerNameEncodingDetector = func(b []byte) encoding.Encoding {
			if bytes.Contains(b, []byte(sure)) {
				return charmap.Windows1252
			}
			return charmap.KOI8R
		}
	}
	return o
}

// build makes a tree, with the reader, schedule and GOMAXPROCS of the run.
func (w *world) build() *composite.Tree {
	r := simio.New(w.b, 0, simio.RandomSpec(w.c.Fault), w.c.Fault, w.c)
	t, err := w.newTree(context.Background(), r)
	if err != nil {
		w.c.Fail("refused", "New refuses a well-formed document: %v", err)
	}
	return t
}

func (w *world) newTree(ctx context.Context, r *simio.Reader) (t *composite.Tree, err error) {
	w.c.Call("New", func() { t, err = composite.New(ctx, r.R, w.options()) })
	if (t == nil) == (err == nil) {
		w.c.Fail("neither", "New returns tree %v and error %v", t != nil, err)
	}
	return t, err
}

// fresh makes a tree with one worker and an ideal reader.
func (w *world) fresh() *composite.Tree {
	old := vsim.Procs()
	vsim.SetProcs(1)
	r := simio.New(w.b, 0, simio.Perfect(), w.c.Fault, w.c)
	t, err := w.newTree(context.Background(), r)
	if err != nil {
		w.c.Fail("refused", "New refuses a well-formed document: %v", err)
	}
	vsim.SetProcs(old)
	return t
}

// layers lists all layers of a tree below its root.
func layers(t *composite.Tree) []*composite.Layer {
	var out []*composite.Layer
	return gather(out, &t.Root)
}

func gather(out []*composite.Layer, l *composite.Layer) []*composite.Layer {
	for i := range l.Children {
		out = append(out, &l.Children[i])
		out = gather(out, &l.Children[i])
	}
	return out
}

// attr is what a client may change.
type attr struct {
	seq     int
	visible bool
	opacity int
	blend   psd.BlendMode
	mask    bool
}

type state []attr

func getAttr(l *composite.Layer) attr {
	return attr{l.SeqID, l.Visible, l.Opacity, l.BlendMode, l.MaskEnabled}
}

func (a attr) put(l *composite.Layer) {
	l.Visible, l.Opacity, l.BlendMode, l.MaskEnabled = a.visible, a.opacity, a.blend, a.mask
}

func getState(t *composite.Tree) state {
	var s state
	for _, l := range layers(t) {
		s = append(s, getAttr(l))
	}
	return s
}

func (s state) apply(t *composite.Tree) {
	for i, l := range layers(t) {
		s[i].put(l)
	}
}

func (s state) String() string {
	var b strings.Builder
	for _, a := range s {
		fmt.Fprintf(&b, "#%d{%v %d %s %v}", a.seq, a.visible, a.opacity, a.blend, a.mask)
	}
	return b.String()
}

var leafModes = []psd.BlendMode{
	psd.BlendModeNormal, psd.BlendModeMultiply, psd.BlendModeDarken, psd.BlendModeColorBurn, psd.BlendModeLinearBurn,
	psd.BlendModeDarkerColor, psd.BlendModeLighten, psd.BlendModeScreen, psd.BlendModeColorDodge, psd.BlendModeLinearDodge,
	psd.BlendModeLighterColor, psd.BlendModeOverlay, psd.BlendModeSoftLight, psd.BlendModeHardLight, psd.BlendModeLinearLight,
	psd.BlendModeVividLight, psd.BlendModePinLight, psd.BlendModeHardMix, psd.BlendModeDifference, psd.BlendModeExclusion,
	psd.BlendModeSubtract, psd.BlendModeDivide, psd.BlendModeHue, psd.BlendModeSaturation, psd.BlendModeColor, psd.BlendModeLuminosity,
	psd.BlendModeDissolve,
}

// mutate changes one attribute of the layer.
func mutate(s *vsim.Stream, l *composite.Layer) string {
	switch vh.Pick(s, 4, 3, 3, 2) {
	case 0:
		l.Visible = !l.Visible
		return fmt.Sprintf("#%d visible=%v", l.SeqID, l.Visible)
	case 1:
		o := []int{0, 255, 128, 1, s.Int(256)}[vh.Pick(s, 1, 2, 2, 1, 3)]
		if o == l.Opacity {
			o = 255 - o
		}
		l.Opacity = o
		return fmt.Sprintf("#%d opacity=%d", l.SeqID, o)
	case 2:
		m := leafModes[s.Int(len(leafModes))]
		if l.Folder && s.P(1, 2) {
			m = psd.BlendModePassThrough
			if l.BlendMode == m {
				m = psd.BlendModeNormal
			}
		}
		l.BlendMode = m
		return fmt.Sprintf("#%d blend=%s", l.SeqID, m)
	}
	l.MaskEnabled = !l.MaskEnabled
	return fmt.Sprintf("#%d mask=%v", l.SeqID, l.MaskEnabled)
}

// ---- images ----

func newDest(s *vsim.Stream, r image.Rectangle) *image.NRGBA {
	switch s.Int(4) {
	case 1:
		r = r.Inset(-s.Range(1, 5))
	case 2:
		r = image.Rect(r.Min.X+s.Int(3), r.Min.Y+s.Int(3), r.Max.X+s.Range(-2, 3), r.Max.Y+s.Range(-2, 3))
	}
	m := image.NewNRGBA(r)
	if s.P(3, 4) {
		x := s.N(1 << 32)
		for i := range m.Pix {
			x = vsim.Mix(x)
			m.Pix[i] = byte(x)
		}
	}
	return m
}

func copyOf(m *image.NRGBA) *image.NRGBA {
	n := image.NewNRGBA(m.Rect)
	copy(n.Pix, m.Pix)
	return n
}

// diff compares two images; the colour of fully transparent pixels does not
// matter.
func diff(got, want *image.NRGBA) string { return diffBy(got, want, false) }

// diffNear lets colours of translucent pixels be rounded.
func diffNear(got, want *image.NRGBA) string { return diffBy(got, want, true) }

func diffBy(got, want *image.NRGBA, round bool) string {
	if got == nil {
		return "there is none"
	}
	if got.Rect != want.Rect {
		return fmt.Sprintf("bounds %v, expected %v", got.Rect, want.Rect)
	}
	n := 0
	var first string
	for y := got.Rect.Min.Y; y < got.Rect.Max.Y; y++ {
		for x := got.Rect.Min.X; x < got.Rect.Max.X; x++ {
			g, w := got.NRGBAAt(x, y), want.NRGBAAt(x, y)
			if g == w || g.A == 0 && w.A == 0 {
				continue
			}
			if round && g.A == w.A && g.A != 255 {
				if t := 5 + 600/int(g.A); near(g.R, w.R, t) && near(g.G, w.G, t) && near(g.B, w.B, t) {
					continue
				}
			}
			if n == 0 {
				first = fmt.Sprintf("pixel (%d,%d) is %v, expected %v", x, y, g, w)
			}
			n++
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%s; %d of %d pixels differ", first, n, got.Rect.Dx()*got.Rect.Dy())
}

// renderFresh renders a new tree in state st into a copy of base.
func (w *world) renderFresh(st state, base *image.NRGBA) *image.NRGBA {
	t := w.fresh()
	if st != nil {
		st.apply(t)
	}
	return w.renderOne(t, base)
}

// renderOne renders with one worker into a copy of base.
func (w *world) renderOne(t *composite.Tree, base *image.NRGBA) *image.NRGBA {
	old := vsim.Procs()
	vsim.SetProcs(1)
	m := copyOf(base)
	var err error
	w.c.Call("Render", func() { err = t.Renderer.Render(context.Background(), m) })
	if err != nil {
		w.c.Fail("error", "Render without cancellation returns %v", err)
	}
	vsim.SetProcs(old)
	return m
}

// ---- cancellation ----

type canceller struct {
	ctx    context.Context
	cancel context.CancelFunc
	at     int64 // step of the cancellation, 0: not yet
	ended  bool
}

// expiring is a context with a deadline; it is over when the context in it is.
type expiring struct{ context.Context }

func (e expiring) Deadline() (time.Time, bool) { return time.Unix(1<<32, 0), true }

func (e expiring) Err() error {
	if e.Context.Err() == nil {
		return nil
	}
	return context.DeadlineExceeded
}

// cancelAfter returns a context that is cancelled after n steps (before it is
// used if n is 0).
func cancelAfter(c *vh.Ctx, n int64) *canceller {
	k := &canceller{}
	ctx, cancel := context.WithCancel(context.Background())
	k.ctx, k.cancel = ctx, cancel
	what := "cancelled"
	if c.Fault.P(1, 3) {
		// it ends as a deadline does
		k.ctx, what = expiring{ctx}, "deadline"
	}
	if n == 0 {
		k.fire()
		cancel()
		c.Hit(what + " before")
		return k
	}
	c.Go(nil, "canceller", func() {
		vsim.WaitSteps(n)
		if !k.fire() {
			return
		}
		cancel()
		vsim.Poke()
		c.Hit(what + " at a step")
	})
	return k
}

// The canceller's own bookkeeping is not part of what is simulated.
//
//go:norace
func (k *canceller) fire() bool {
	if k.ended {
		return false
	}
	k.at = vsim.Steps()
	return true
}

// fired tells whether the context was cancelled.
//
//go:norace
func (k *canceller) fired() bool { return k.at != 0 }

// end is called when the cancellable call has returned; it gives the number
// of steps the call went on after the cancellation.
//
//go:norace
func (k *canceller) end() int64 {
	k.ended = true
	if k.at == 0 {
		return 0
	}
	return vsim.Steps() - k.at
}

func isAbort(err error) bool {
	return errors.Is(err, composite.ErrAborted) || errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}
