// Package oracle compares what the decoder reports with the model document.
package oracle

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"math"
	"sort"

	"github.com/oov/psd"
	psdColor "github.com/oov/psd/color"

	"github.com/oov/psd/verifsim/psdgen"
	"github.com/oov/psd/verifsim/vsim"
)

// Config compares a configuration; it returns "" or what differs.
func Config(d *psdgen.Doc, c *psd.Config) string {
	if c.Version != d.Version || c.Channels != d.Channels || c.Depth != d.Depth || int(c.ColorMode) != d.Mode {
		return fmt.Sprintf("header: got version %d channels %d depth %d mode %d, stored %d %d %d %d", c.Version, c.Channels, c.Depth, c.ColorMode, d.Version, d.Channels, d.Depth, d.Mode)
	}
	if c.Rect != image.Rect(0, 0, d.W, d.H) {
		return fmt.Sprintf("size: got %v, stored %dx%d", c.Rect, d.W, d.H)
	}
	if c.PSB() != d.PSB() {
		return "PSB() is wrong"
	}
	if !bytes.Equal(c.ColorModeData, d.ModeData) {
		return fmt.Sprintf("color mode data: got %d bytes, stored %d or contents differ", len(c.ColorModeData), len(d.ModeData))
	}
	if len(c.Res) != len(d.Res) {
		return fmt.Sprintf("image resources: got %d, stored %d", len(c.Res), len(d.Res))
	}
	for _, r := range d.Res {
		g, ok := c.Res[r.ID]
		if !ok {
			return fmt.Sprintf("image resource %d is missing", r.ID)
		}
		if g.Name != r.Name || !bytes.Equal(g.Data, r.Data) {
			return fmt.Sprintf("image resource %d: got name %q data %x, stored %q %x", r.ID, g.Name, clip(g.Data), r.Name, clip(r.Data))
		}
	}
	if d.Mode == psdgen.Indexed {
		pal := c.Palette()
		if len(pal) != 256 {
			return fmt.Sprintf("palette has %d colours", len(pal))
		}
		for i := range pal {
			if pal[i] != paletteColor(d, i) {
				return fmt.Sprintf("palette[%d] = %v, stored %v", i, pal[i], paletteColor(d, i))
			}
		}
	} else if c.Palette() != nil {
		return "palette of a document without palette"
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

func paletteColor(d *psdgen.Doc, i int) color.Color {
	c := color.NRGBA{d.ModeData[i], d.ModeData[i+256], d.ModeData[i+512], 255}
	for _, r := range d.Res {
		if r.ID == 0x417 && int(r.Data[0])<<8|int(r.Data[1]) == i {
			c.A = 0
		}
	}
	return c
}

// Options of a decode.
type Options struct {
	NoLayers, NoMerged bool
}

// PSD compares a decoded document.
func PSD(d *psdgen.Doc, p *psd.PSD, o Options) string {
	if s := Config(d, &p.Config); s != "" {
		return s
	}
	n := 0
	if s := tree(d, d.Tree(), p.Layer, o, "layer", &n); s != "" {
		return s
	}
	if s := infos("document", d.Infos, p.AdditinalLayerInfo); s != "" {
		return s
	}
	if o.NoMerged {
		if p.Picker != nil || p.Data != nil || p.Channel != nil {
			return "skipped merged image is present"
		}
		return ""
	}
	if len(p.Channel) != d.Channels {
		return fmt.Sprintf("%d channels decoded, stored %d", len(p.Channel), d.Channels)
	}
	var all []byte
	for i, pl := range d.Planes {
		ch, ok := p.Channel[i]
		if !ok {
			return fmt.Sprintf("channel %d is missing", i)
		}
		if s := channel(fmt.Sprintf("merged channel %d", i), pl, &ch, p.Config.Rect, d.Depth); s != "" {
			return s
		}
		all = append(all, pl...)
	}
	if !bytes.Equal(all, p.Data) {
		return "merged image data: " + firstDiff(p.Data, all)
	}
	pl := append([][]byte{}, d.Planes...)
	alpha := []byte(nil)
	if nc := psdgen.ModeChannels(d.Mode); d.HasAlpha() && d.Mode != psdgen.Bitmap && d.Mode != psdgen.Indexed {
		alpha = pl[nc]
	}
	return pixels("merged image", p.Picker, p.Config.Rect, func(x, y int) color.Color { return Pixel(d, pl, alpha, p.Config.Rect, x, y) })
}

func firstDiff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %d bytes, stored %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d: got %02x, stored %02x", i, len(got), got[i], want[i])
		}
	}
	return "equal"
}

func infos(what string, want []psdgen.Info, got map[psd.AdditionalInfoKey][]byte) string {
	seen := map[string]bool{}
	for _, in := range want {
		seen[in.Key] = true
		g, ok := got[psd.AdditionalInfoKey(in.Key)]
		if !ok {
			return fmt.Sprintf("%s: additional information %q is missing", what, in.Key)
		}
		if !bytes.Equal(g, in.Data) {
			return fmt.Sprintf("%s: additional information %q: %s", what, in.Key, firstDiff(g, in.Data))
		}
	}
	for _, k := range infoKeys(got) {
		switch k {
		case "luni", "clbl", "lsct", "lsdk":
			continue
		}
		if !seen[k] {
			return fmt.Sprintf("%s: additional information %q is not in the document", what, k)
		}
	}
	return ""
}

func infoKeys(m map[psd.AdditionalInfoKey][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, string(k))
	}
	sort.Strings(l)
	return l
}

func tree(d *psdgen.Doc, want []*psdgen.Node, got []psd.Layer, o Options, what string, n *int) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%s has %d children, stored %d", what, len(got), len(want))
	}
	for i, w := range want {
		g := &got[i]
		name := fmt.Sprintf("%s/%d(#%d)", what, i, w.Index)
		if s := Layer(d, w.Index, g, o, name); s != "" {
			return s
		}
		if s := tree(d, w.Children, g.Layer, o, name, n); s != "" {
			return s
		}
	}
	return ""
}

// Layer compares one layer (not its children).
func Layer(d *psdgen.Doc, index int, g *psd.Layer, o Options, name string) string {
	l := d.Layers[index]
	if g.SeqID != index {
		return fmt.Sprintf("%s: SeqID %d, stored %d", name, g.SeqID, index)
	}
	if g.Rect != l.Rect {
		return fmt.Sprintf("%s: Rect %v, stored %v", name, g.Rect, l.Rect)
	}
	if string(g.BlendMode) != l.Blend || int(g.Opacity) != l.Opacity || g.Clipping != (l.Clipping != 0) || int(g.Flags) != l.Flags {
		return fmt.Sprintf("%s: blend %q opacity %d clipping %v flags %d, stored %q %d %d %d", name, g.BlendMode, g.Opacity, g.Clipping, g.Flags, l.Blend, l.Opacity, l.Clipping, l.Flags)
	}
	if g.Visible() != (l.Flags&2 == 0) || g.TransparencyProtected() != (l.Flags&1 != 0) {
		return name + ": visibility or protection is wrong"
	}
	if g.MBCSName != l.Name {
		return fmt.Sprintf("%s: MBCSName %q, stored %q", name, g.MBCSName, l.Name)
	}
	if l.HasLuni && g.UnicodeName != l.Luni || !l.HasLuni && g.UnicodeName != "" {
		return fmt.Sprintf("%s: UnicodeName %q, stored %q", name, g.UnicodeName, l.Luni)
	}
	if l.HasLuni && l.Luni != "" && g.Name != l.Luni || !l.HasLuni && g.Name != l.Name {
		return fmt.Sprintf("%s: Name %q, stored %q %q", name, g.Name, l.Name, l.Luni)
	}
	if g.BlendClippedElements != (!l.HasClbl || l.Clbl) {
		return fmt.Sprintf("%s: BlendClippedElements %v", name, g.BlendClippedElements)
	}
	div := l.Div()
	sd := g.SectionDividerSetting
	bl, sub := l.Blend, 0
	if l.DivKey != "" && l.DivLen >= 12 {
		bl = l.DivBlend
	}
	if l.DivKey != "" && l.DivLen >= 16 {
		sub = l.DivSub
	}
	if sd.Type != div || string(sd.BlendMode) != bl || sd.SubType != sub {
		return fmt.Sprintf("%s: section divider %d %q %d, stored %d %q %d", name, sd.Type, sd.BlendMode, sd.SubType, div, bl, sub)
	}
	if g.Folder() != (div == 1 || div == 2) || g.FolderIsOpen() != (div == 1) || g.HasImage() != (div == 0) {
		return name + ": kind of layer is wrong"
	}
	if s := mask(l.Mask, &g.Mask); s != "" {
		return name + ": " + s
	}
	if s := infos(name, l.Infos, g.AdditionalLayerInfo); s != "" {
		return s
	}
	if o.NoLayers {
		if g.Picker != nil || g.Channel != nil {
			return name + ": skipped layer image is present"
		}
		return ""
	}
	if len(g.Channel) != len(l.Chans) {
		return fmt.Sprintf("%s: %d channels, stored %d", name, len(g.Channel), len(l.Chans))
	}
	for _, c := range l.Chans {
		ch, ok := g.Channel[c.ID]
		if !ok {
			return fmt.Sprintf("%s: channel %d is missing", name, c.ID)
		}
		if s := channel(fmt.Sprintf("%s channel %d", name, c.ID), c.Data, &ch, c.Rect, d.Depth); s != "" {
			return s
		}
	}
	nc := psdgen.ModeChannels(d.Mode)
	pl := make([][]byte, nc)
	for i := range pl {
		c := l.Find(i)
		if c == nil {
			if g.Picker == nil {
				return name + ": no image"
			}
			return ""
		}
		pl[i] = c.Data
	}
	var alpha []byte
	if c := l.Find(-1); c != nil {
		alpha = c.Data
		if alpha == nil {
			alpha = []byte{}
		}
	}
	return pixels(name+" image", g.Picker, l.Rect, func(x, y int) color.Color { return Pixel(d, pl, alpha, l.Rect, x, y) })
}

func mask(w *psdgen.Mask, g *psd.Mask) string {
	if w == nil {
		if *g != (psd.Mask{}) {
			return fmt.Sprintf("mask %+v, none stored", *g)
		}
		return ""
	}
	want := psd.Mask{Rect: w.Rect, DefaultColor: w.Default, Flags: w.Flags, UserMaskDensity: w.UD, VectorMaskDensity: w.VD, UserMaskFeather: w.UF, VectorMaskFeather: w.VF}
	if w.HasReal {
		want.RealRect, want.RealBackgroundColor, want.RealFlags = w.RealRect, w.RealBg, w.RealFlags
	}
	if w.NoFlags { // the densities have no meaning then
		want.UserMaskDensity, want.VectorMaskDensity = g.UserMaskDensity, g.VectorMaskDensity
	}
	if *g != want {
		return fmt.Sprintf("mask %+v, stored %+v", *g, want)
	}
	if g.Enabled() != (w.Flags&2 == 0) || g.RealEnabled() != (want.RealFlags&2 == 0) {
		return "mask switch is wrong"
	}
	return ""
}

func channel(name string, want []byte, g *psd.Channel, r image.Rectangle, depth int) string {
	if !bytes.Equal(g.Data, want) {
		return name + ": " + firstDiff(g.Data, want)
	}
	if g.Picker == nil {
		return name + ": no picker"
	}
	row := psdgen.RowBytes(r.Dx(), depth)
	return pixels(name+" picker", g.Picker, r, func(x, y int) color.Color {
		switch depth {
		case 1:
			return psdColor.Gray1{Y: bit(want, row, r, x, y)}
		case 8:
			return color.Gray{Y: want[(y-r.Min.Y)*row+x-r.Min.X]}
		case 16:
			return color.Gray16{Y: u16(want, row, r, x, y)}
		}
		return psdColor.Gray32{Y: f32(want, row, r, x, y)}
	})
}

func bit(b []byte, row int, r image.Rectangle, x, y int) bool {
	x -= r.Min.X
	return b[(y-r.Min.Y)*row+x/8]>>(7-uint(x%8))&1 == 0
}
func u8(b []byte, row int, r image.Rectangle, x, y int) uint8 {
	return b[(y-r.Min.Y)*row+x-r.Min.X]
}
func u16(b []byte, row int, r image.Rectangle, x, y int) uint16 {
	return binary.BigEndian.Uint16(b[(y-r.Min.Y)*row+(x-r.Min.X)*2:])
}
func f32(b []byte, row int, r image.Rectangle, x, y int) float32 {
	return math.Float32frombits(binary.BigEndian.Uint32(b[(y-r.Min.Y)*row+(x-r.Min.X)*4:]))
}

// Pixel is the stored colour at a point.
func Pixel(d *psdgen.Doc, pl [][]byte, alpha []byte, r image.Rectangle, x, y int) color.Color {
	row := psdgen.RowBytes(r.Dx(), d.Depth)
	switch d.Mode {
	case psdgen.Bitmap:
		return psdColor.Gray1{Y: bit(pl[0], row, r, x, y)}
	case psdgen.Indexed:
		return paletteColor(d, int(u8(pl[0], row, r, x, y)))
	}
	switch d.Depth {
	case 8:
		v := func(i int) uint8 { return u8(pl[i], row, r, x, y) }
		a := uint8(255)
		if alpha != nil {
			a = u8(alpha, row, r, x, y)
		}
		switch d.Mode {
		case psdgen.Gray:
			return psdColor.NGrayA{Y: v(0), A: a}
		case psdgen.RGB:
			return color.NRGBA{v(0), v(1), v(2), a}
		case psdgen.CMYK:
			return psdColor.NCMYKA{C: v(0), M: v(1), Y: v(2), K: v(3), A: a}
		}
	case 16:
		v := func(i int) uint16 { return u16(pl[i], row, r, x, y) }
		a := uint16(65535)
		if alpha != nil {
			a = u16(alpha, row, r, x, y)
		}
		switch d.Mode {
		case psdgen.Gray:
			return psdColor.NGrayA32{Y: v(0), A: a}
		case psdgen.RGB:
			return color.NRGBA64{v(0), v(1), v(2), a}
		case psdgen.CMYK:
			return psdColor.NCMYKA80{C: v(0), M: v(1), Y: v(2), K: v(3), A: a}
		}
	case 32:
		v := func(i int) float32 { return f32(pl[i], row, r, x, y) }
		a := float32(1)
		if alpha != nil {
			a = f32(alpha, row, r, x, y)
		}
		switch d.Mode {
		case psdgen.Gray:
			return psdColor.NGrayA64{Y: v(0), A: a}
		case psdgen.RGB:
			return psdColor.NRGBA128{R: v(0), G: v(1), B: v(2), A: a}
		}
	}
	return nil
}

func pixels(name string, img image.Image, r image.Rectangle, want func(x, y int) color.Color) string {
	if img == nil {
		return name + " is missing"
	}
	if r.Empty() {
		if !img.Bounds().Empty() {
			return fmt.Sprintf("%s: bounds %v, stored %v", name, img.Bounds(), r)
		}
		return ""
	}
	if img.Bounds() != r {
		return fmt.Sprintf("%s: bounds %v, stored %v", name, img.Bounds(), r)
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			g, w := img.At(x, y), want(x, y)
			if g == w {
				continue
			}
			if fmt.Sprintf("%T", g) != fmt.Sprintf("%T", w) {
				r1, g1, b1, a1 := g.RGBA()
				r2, g2, b2, a2 := w.RGBA()
				if r1 == r2 && g1 == g2 && b1 == b2 && a1 == a2 {
					continue
				}
			}
			return fmt.Sprintf("%s: pixel (%d,%d) is %T%v, stored %T%v", name, x, y, g, g, w, w)
		}
	}
	return ""
}

// ---- digests ----

// Hash is a running digest.
type Hash uint64

func (h *Hash) U(v uint64) { *h = Hash(vsim.Mix(uint64(*h) ^ v)) }
func (h *Hash) B(b []byte) {
	h.U(uint64(len(b)))
	x := uint64(*h)
	for _, v := range b {
		x = (x ^ uint64(v)) * 1099511628211
	}
	*h = Hash(x)
}
func (h *Hash) S(s string) { h.B([]byte(s)) }
func (h *Hash) R(r image.Rectangle) {
	h.U(uint64(r.Min.X))
	h.U(uint64(r.Min.Y))
	h.U(uint64(r.Max.X))
	h.U(uint64(r.Max.Y))
}

const maxPixels = 1 << 16

// Image reads every pixel (a sample of big images).
func (h *Hash) Image(img image.Image) {
	if img == nil {
		h.U(1)
		return
	}
	h.Pixels(img)
}

// Pixels reads the pixels of img.
func (h *Hash) Pixels(img image.Image) {
	r := img.Bounds()
	h.R(r)
	h.U(2)
	if r.Empty() {
		return
	}
	w, ht := r.Dx(), r.Dy()
	sx, sy := 1, 1
	for (w/sx+1)*(ht/sy+1) > maxPixels {
		if w/sx > ht/sy {
			sx *= 2
		} else {
			sy *= 2
		}
	}
	at := func(x, y int) {
		a, b, c, d := img.At(x, y).RGBA()
		*h = Hash(vsim.Mix(uint64(*h) ^ (uint64(a)<<48 | uint64(b)<<32 | uint64(c)<<16 | uint64(d))))
	}
	for y := r.Min.Y; y < r.Max.Y; y += sy {
		for x := r.Min.X; x < r.Max.X; x += sx {
			at(x, y)
		}
		if sx > 1 {
			at(r.Max.X-1, y)
		}
	}
	if sy > 1 {
		for x := r.Min.X; x < r.Max.X; x += sx {
			at(x, r.Max.Y-1)
		}
		at(r.Max.X-1, r.Max.Y-1)
	}
}

func channels(h *Hash, m map[int]psd.Channel, px bool) {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		h.U(uint64(k))
		h.B(m[k].Data)
		if px {
			h.Image(m[k].Picker)
		}
	}
}

func layerHash(h *Hash, l *psd.Layer, px bool) {
	h.U(uint64(l.SeqID))
	h.S(l.Name)
	h.S(l.UnicodeName)
	h.S(l.MBCSName)
	h.R(l.Rect)
	h.S(string(l.BlendMode))
	h.S(fmt.Sprint(l.Opacity, l.Clipping, l.BlendClippedElements, l.Flags, l.SectionDividerSetting))
	h.S(fmt.Sprintf("%+v", l.Mask))
	for _, k := range infoKeys(l.AdditionalLayerInfo) {
		h.S(k)
		h.B(l.AdditionalLayerInfo[psd.AdditionalInfoKey(k)])
	}
	channels(h, l.Channel, px)
	if px {
		h.Image(l.Picker)
	} else if l.Picker != nil {
		h.R(l.Picker.Bounds())
	}
	h.U(uint64(len(l.Layer)))
	for i := range l.Layer {
		layerHash(h, &l.Layer[i], px)
	}
}

// ConfigHash is the digest of a configuration.
func ConfigHash(h *Hash, c *psd.Config) {
	h.S(fmt.Sprint(c.Version, c.Rect, c.Channels, c.Depth, c.ColorMode))
	h.B(c.ColorModeData)
	var ks []int
	for k := range c.Res {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		h.U(uint64(k))
		h.S(c.Res[k].Name)
		h.B(c.Res[k].Data)
	}
}

// Digest identifies everything a decoded document shows. With px, every pixel
// is read through the images.
func Digest(p *psd.PSD, px bool) uint64 {
	var h Hash
	ConfigHash(&h, &p.Config)
	channels(&h, p.Channel, px)
	for i := range p.Layer {
		layerHash(&h, &p.Layer[i], px)
	}
	for _, k := range infoKeys(p.AdditinalLayerInfo) {
		h.S(k)
		h.B(p.AdditinalLayerInfo[psd.AdditionalInfoKey(k)])
	}
	h.B(p.Data)
	if px {
		h.Image(p.Picker)
	}
	return uint64(h)
}

// Sizes checks that every channel holds as many bytes as its rectangle needs
// and that every layer has an image if the layers were decoded ("" if so).
func Sizes(p *psd.PSD, layers bool) string {
	for i, ch := range sorted(p.Channel) {
		if s := size(fmt.Sprintf("merged channel %d", i), ch, p.Config.Rect, p.Config.Depth); s != "" {
			return s
		}
	}
	if p.Channel != nil && len(p.Data) != psdgen.RowBytes(p.Config.Rect.Dx(), p.Config.Depth)*p.Config.Rect.Dy()*p.Config.Channels {
		return fmt.Sprintf("merged data has %d bytes for %v depth %d channels %d", len(p.Data), p.Config.Rect, p.Config.Depth, p.Config.Channels)
	}
	return layerSizes(p.Layer, p.Config.Depth, layers)
}

func sorted(m map[int]psd.Channel) []psd.Channel {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var l []psd.Channel
	for _, k := range ks {
		l = append(l, m[k])
	}
	return l
}

func size(name string, c psd.Channel, r image.Rectangle, depth int) string {
	if want := psdgen.RowBytes(r.Dx(), depth) * r.Dy(); len(c.Data) != want {
		return fmt.Sprintf("%s has %d bytes, its rectangle %v at depth %d needs %d", name, len(c.Data), r, depth, want)
	}
	if c.Picker == nil {
		return name + " has no image"
	}
	if c.Picker.Bounds() != r {
		return fmt.Sprintf("%s has bounds %v instead of %v", name, c.Picker.Bounds(), r)
	}
	return ""
}

func layerSizes(l []psd.Layer, depth int, decoded bool) string {
	for i := range l {
		y := &l[i]
		if y.Picker == nil && decoded {
			return fmt.Sprintf("layer #%d has no image", y.SeqID)
		}
		var ks []int
		for k := range y.Channel {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			r := y.Rect
			switch k {
			case -2:
				r = y.Mask.Rect
			case -3:
				r = y.Mask.RealRect
			}
			if s := size(fmt.Sprintf("layer #%d channel %d", y.SeqID, k), y.Channel[k], r, depth); s != "" {
				return s
			}
		}
		if s := layerSizes(y.Layer, depth, decoded); s != "" {
			return s
		}
	}
	return ""
}

// Merged compares the merged image alone.
func Merged(d *psdgen.Doc, img image.Image) string {
	pl := append([][]byte{}, d.Planes...)
	alpha := []byte(nil)
	if nc := psdgen.ModeChannels(d.Mode); d.HasAlpha() && d.Mode != psdgen.Bitmap && d.Mode != psdgen.Indexed {
		alpha = pl[nc]
	}
	r := image.Rect(0, 0, d.W, d.H)
	return pixels("merged image", img, r, func(x, y int) color.Color { return Pixel(d, pl, alpha, r, x, y) })
}
