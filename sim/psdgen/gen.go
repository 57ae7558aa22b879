package psdgen

import (
	"encoding/binary"
	"fmt"
	"image"
	"math"
	"strings"

	"github.com/oov/psd/verifsim/vsim"
)

// Opt restricts what is generated.
type Opt struct {
	Modes     []int // allowed modes; nil: all supported ones
	Depths    []int
	AnyMode   bool // also modes the library does not decode
	MaxLayers int
	MaxDim    int
	BigDim    int  // now and then a document of this size
	NoZIP     bool // merged image not ZIP compressed
	Plain     bool // RGB 8 bit as drawing programs write it (for the compositor)
	Folders   bool
	Blends    []string
	MaxPos    int // layer offsets reach this far outside
	NoReal    bool
	Methods   []int
	AlphaRuns bool // alpha channels with fully transparent areas
	NoShort   bool
	Deep      bool // many groups in groups
	Comp      bool // for the compositor: more groups, clipping, pass-through; nothing it does not look at
}

// Generate makes a well-formed document.
func Generate(s *vsim.Stream, o Opt) *Doc {
	d := &Doc{Version: 1}
	if s.P(1, 3) {
		d.Version = 2
	}
	modes := o.Modes
	if modes == nil {
		modes = []int{RGB, Gray, CMYK, Indexed, Bitmap}
		if o.AnyMode {
			modes = append(modes, Multichannel, Duotone, Lab)
		}
	}
	d.Mode = modes[s.Int(len(modes))]
	depths := []int{8, 16, 32}
	switch d.Mode {
	case Bitmap:
		depths = []int{1}
	case Indexed, Duotone:
		depths = []int{8}
	case CMYK, Multichannel, Lab:
		depths = []int{8, 16}
	}
	if o.Depths != nil && d.Mode != Bitmap {
		depths = o.Depths
	}
	d.Depth = depths[s.Int(len(depths))]
	md := o.MaxDim
	if md == 0 {
		md = 24
	}
	if o.BigDim > 0 && s.P(1, 24) {
		md = o.BigDim
	}
	d.W, d.H = s.Range(1, md), s.Range(1, md)
	big := 0 // now and then one thing is far larger than all else
	if !o.Comp && !o.Plain && md >= 16 && s.P(1, 40) {
		big = 1 + s.Int(7)
	}
	switch big {
	case 1:
		// (the packed rows of a PSD are shorter than 64 KB)
		d.W, d.H = s.Range(300, Min(30000, 30000*8/d.Depth)), s.Range(1, 2)
		if d.PSB() && s.P(1, 3) {
			d.W = s.Range(60000, 70000)
		}
		if s.P(1, 3) && (d.Depth <= 16 || d.PSB()) { // as wide as it may be
			d.W, d.H = 30000, 1
			if d.PSB() && d.Depth <= 8 && s.P(1, 5) {
				d.W = 300000
			}
		}
	case 2:
		d.W, d.H = s.Range(1, 2), s.Range(300, 30000)
		if s.P(1, 3) {
			d.W, d.H = 1, 30000
			if d.PSB() && d.Depth <= 8 && s.P(1, 10) {
				d.H = 300000
			}
		}
	}
	huge := func() []byte {
		n := s.Range(30000, 140000)
		if s.P(1, 6) {
			n = 1<<20 + s.Range(-1, 3000)
		}
		b := make([]byte, n)
		s.Fill(b)
		return b
	}
	nc := ModeChannels(d.Mode)
	d.Channels = nc
	if big == 3 && d.Mode != Bitmap && d.Mode != Multichannel {
		d.Channels = s.Range(nc, 56)
		if s.P(1, 3) {
			d.Channels = 56
		}
	} else if d.Mode == Multichannel {
		d.Channels = s.Range(1, 4)
	} else if d.Mode != Bitmap && s.P(1, 2) {
		d.Channels += 1 + Min(s.Int(4), s.Int(4))
	}
	switch d.Mode {
	case Indexed:
		d.ModeData = make([]byte, 768)
		s.Fill(d.ModeData)
	case Duotone:
		d.ModeData = make([]byte, s.Range(1, 60))
		s.Fill(d.ModeData)
	default:
		if s.P(1, 8) {
			d.ModeData = make([]byte, s.Int(130))
			s.Fill(d.ModeData)
		}
	}
	if !o.Comp {
		d.genRes(s)
	}
	if big == 4 {
		d.insertRes(s, Res{Sig: "8BIM", ID: 0x3e7, Name: genName(s, 255), Data: huge()})
	}
	if (d.Mode == Gray || d.Mode == RGB || d.Mode == CMYK) && o.MaxLayers > 0 {
		if big == 5 {
			d.W, d.H = s.Range(1, 3), s.Range(1, 3)
			o.MaxLayers = 300
		}
		d.genLayers(s, o)
		if l := len(d.Layers); l > 0 && big == 6 {
			if l := d.Layers[s.Int(l)]; !l.NoExtra {
				l.Infos = append(l.Infos, Info{Sig: "8BIM", Key: "lrFX", Data: huge()})
				l.assemble(s)
			}
		}
	}
	if big == 6 && len(d.Layers) == 0 || big == 7 {
		d.HasSection, d.HasGlobal = true, true
		d.Infos = append(d.Infos, Info{Sig: "8BIM", Key: "Anno", Data: huge()})
		if big == 7 && s.P(1, 2) {
			d.Infos = nil
			d.Global = huge()
		}
	}
	if !d.HasSection && s.P(1, 3) {
		d.HasSection = true
	}
	if d.HasSection {
		if s.P(1, 2) {
			d.HasGlobal = true
			if s.P(1, 2) && len(d.Global) == 0 {
				d.Global = make([]byte, s.Int(20))
				s.Fill(d.Global)
			}
			for n := s.Int(4); n > 0; n-- {
				d.Infos = addInfo(s, d.Infos, d.PSB(), docKeys)
			}
		}
		// padding, shorter than any length field
		d.SectionPad = s.Int(4)
		if d.PSB() && s.P(1, 3) {
			d.SectionPad = s.Int(8)
		}
	}
	d.Planes = make([][]byte, d.Channels)
	for i := range d.Planes {
		d.Planes[i] = genPlane(s, d.W, d.H, d.Depth)
	}
	methods := o.Methods
	if methods == nil {
		methods = []int{Raw, RLE, RLE, ZIP, ZIPPred}
	}
	d.Method = methods[s.Int(len(methods))]
	if o.NoZIP && d.Method > RLE {
		d.Method -= 2
	}
	if d.Method == ZIPPred && d.Depth == 1 {
		d.Method = ZIP
	}
	return d
}

// Min returns the smaller one.
func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func genBytes(s *vsim.Stream, max int) []byte {
	b := make([]byte, s.Int(max+1))
	s.Fill(b)
	return b
}

func genName(s *vsim.Stream, max int) string {
	n := s.Int(8)
	if s.P(1, 6) {
		n = s.Int(max + 1)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+n)%26)
	}
	if n > 0 && s.P(1, 4) {
		s.Fill(b)
	}
	return string(b)
}

func (d *Doc) genRes(s *vsim.Stream) {
	n := 0
	if s.P(2, 3) {
		n = s.Int(6)
	}
	used := map[int]bool{0x417: true, 0x41d: true}
	for i := 0; i < n; i++ {
		r := Res{Sig: []string{"8BIM", "8BIM", "8BIM", "MeSa", "PHUT", "AgHg", "DCSR"}[s.Int(7)], ID: 0x3e8 + s.Int(200), Name: genName(s, 255), Data: genBytes(s, 40)}
		if s.P(1, 10) {
			r.ID = s.Int(65536)
		}
		if s.P(1, 16) {
			r.Data = make([]byte, s.Int(5000))
			s.Fill(r.Data)
		}
		if used[r.ID] {
			continue
		}
		used[r.ID] = true
		d.Res = append(d.Res, r)
	}
	if d.Mode == Indexed && s.P(1, 2) {
		idx := s.Int(256)
		if s.P(1, 5) {
			idx = s.Int(65536) // above 255: there is no transparent colour
		}
		d.insertRes(s, Res{Sig: "8BIM", ID: 0x417, Data: binary.BigEndian.AppendUint16(nil, uint16(idx))})
	}
	if d.Channels > ModeChannels(d.Mode) && ModeChannels(d.Mode) > 0 && s.P(1, 2) {
		var b []byte
		for i := ModeChannels(d.Mode); i < d.Channels; i++ {
			v := uint32(s.Int(3))
			b = binary.BigEndian.AppendUint32(b, v)
		}
		d.insertRes(s, Res{Sig: "8BIM", ID: 0x41d, Data: b})
	}
}

func (d *Doc) insertRes(s *vsim.Stream, r Res) {
	i := s.Int(len(d.Res) + 1)
	l := append([]Res{}, d.Res[:i]...)
	d.Res = append(append(l, r), d.Res[i:]...)
}

var layerKeys = []string{"lyid", "shmd", "fxrp", "lclr", "knko", "infx", "lspf", "lfx2", "tsly", "lnsr", "iOpa", "PlLd", "TySh", "lyvr", "vmsk", "FMsk", "LMsk", "lnk2", "FXid", "Alph"}
var docKeys = []string{"Patt", "Pat2", "FMsk", "cinf", "Mtrn", "Mt16", "Mt32", "LMsk", "lnk2", "FEid", "FXid", "PxSD", "Txt2", "Alph"}

func addInfo(s *vsim.Stream, l []Info, psb bool, keys []string) []Info {
	k := keys[s.Int(len(keys))]
	for _, in := range l {
		if in.Key == k {
			return l
		}
	}
	in := Info{Sig: "8BIM", Key: k, Data: genBytes(s, 24)}
	if s.P(1, 6) {
		in.Sig = "8B64"
	}
	switch s.Int(3) {
	case 0:
		in.Pad = (4 - len(in.Data)%4) % 4
	case 1:
		in.Pad = len(in.Data) % 2
	}
	return append(l, in)
}

// genPlane makes one plane of samples.
func genPlane(s *vsim.Stream, w, h, depth int) []byte {
	n := RowBytes(w, depth) * h
	b := make([]byte, n)
	style := s.Int(5)
	switch style {
	case 0: // constant
		v := byte(s.Int(256))
		for i := range b {
			b[i] = v
		}
	case 1: // noise
		s.Fill(b)
	case 2: // runs
		x := uint64(s.N(1 << 20))
		for i := 0; i < n; {
			x = vsim.Mix(x)
			l := int(x>>8)%40 + 1
			for ; l > 0 && i < n; l-- {
				b[i] = byte(x)
				i++
			}
		}
	case 3: // position dependent: every sample differs from its neighbours
		k := s.Int(251) + 1
		for i := range b {
			b[i] = byte(i*k + i/256)
		}
	case 4: // rows alternate between runs and noise
		s.Fill(b)
		row := RowBytes(w, depth)
		for y := 0; y < h; y += 2 {
			for x := 1; x < row; x++ {
				b[y*row+x] = b[y*row]
			}
		}
	}
	if depth == 32 {
		for i := 0; i+4 <= n; i += 4 {
			v := float32(b[i])/255 + float32(b[i+1])/65025
			switch b[i+2] % 16 {
			case 0:
				v = -v
			case 1:
				v *= 7
			}
			binary.BigEndian.PutUint32(b[i:], math.Float32bits(v))
		}
	}
	return b
}

func genRect(s *vsim.Stream, d *Doc, o Opt, emptyOK bool) image.Rectangle {
	pos := o.MaxPos
	if pos == 0 {
		pos = 10
	}
	if emptyOK && (!o.Comp && s.P(1, 8) || o.Comp && s.P(1, 20)) {
		if s.P(1, 2) {
			x, y := s.Range(-pos, d.W), s.Range(-pos, d.H)
			r := image.Rectangle{image.Pt(x, y), image.Pt(x, y)}
			switch s.Int(3) {
			case 0:
				r.Max.X += s.Int(d.W + 1)
			case 1:
				r.Max.Y += s.Int(d.H + 1)
			}
			return r
		}
		return image.Rectangle{}
	}
	x0, y0 := 0, 0
	w, h := d.W, d.H
	if s.P(4, 5) {
		x0, y0 = s.Range(0, d.W-1), s.Range(0, d.H-1)
		w, h = s.Range(1, d.W), s.Range(1, d.H)
		if s.P(1, 3) {
			x0 -= s.Int(pos + 1)
			y0 -= s.Int(pos + 1)
		}
	}
	if !o.Plain && s.P(1, 40) {
		x0 += []int{-100000, 100000, 1 << 30, -1 << 30}[s.Int(4)]
	}
	return image.Rect(x0, y0, x0+w, y0+h)
}

var allBlends = []string{"norm", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl", "over", "sLit", "hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum ", "diss", "pass"}

func (d *Doc) genLayers(s *vsim.Stream, o Opt) {
	n := 0
	if o.Comp {
		n = 1 + s.Int(o.MaxLayers)
	} else if s.P(7, 8) {
		n = s.Int(o.MaxLayers + 1)
	}
	d.genLevel(s, o, n, 0)
	if len(d.Layers) == 0 {
		return
	}
	d.HasSection = true
	d.NegCount = s.P(1, 3)
	d.LayerPad = s.Int(4)
	switch {
	case d.Depth == 16 && s.P(1, 2):
		d.LayerKey = "Lr16"
	case d.Depth == 32 && s.P(1, 2):
		d.LayerKey = "Lr32"
	case d.Depth == 8 && s.P(1, 12):
		d.LayerKey = "Layr"
	}
}

func (d *Doc) genLevel(s *vsim.Stream, o Opt, n, depth int) {
	for n > 0 {
		if o.Folders && n >= 2 && (depth < 3 && (!o.Comp && s.P(1, 4) || o.Comp && s.P(2, 5)) || o.Deep && depth < 8 && s.P(2, 3)) {
			d.Layers = append(d.Layers, d.genLayer(s, o, 3))
			in := s.Int(n - 1)
			if o.Deep && s.P(2, 3) {
				in = n - 2
			}
			d.genLevel(s, o, in, depth+1)
			d.Layers = append(d.Layers, d.genLayer(s, o, 1+s.Int(2)))
			n -= 2 + in
			continue
		}
		d.Layers = append(d.Layers, d.genLayer(s, o, 0))
		n--
	}
}

var alphabets = []string{"Layer %d", "レイヤー%d", "Ünïcödé %d", "🎨%d", "", "a\x00b%d"}

func (d *Doc) genLayer(s *vsim.Stream, o Opt, div int) *Layer {
	l := &Layer{Blend: "norm", Opacity: 255}
	if s.P(1, 2) {
		bl := o.Blends
		if bl == nil {
			bl = allBlends
		}
		l.Blend = bl[s.Int(len(bl))]
	}
	if s.P(1, 3) {
		l.Opacity = s.Int(256)
	}
	if div == 0 && s.P(1, 4) || o.Comp && div != 3 && s.P(1, 6) {
		l.Clipping = 1
	}
	if s.P(1, 2) {
		l.Flags = s.Int(32)
	}
	if div == 0 {
		l.Rect = genRect(s, d, o, true)
	} else if s.P(1, 6) && !o.Plain {
		l.Rect = genRect(s, d, o, true)
	}
	l.Name = genName(s, 255)
	if !o.Plain && div == 0 && s.P(1, 20) {
		l.NoExtra = true
		l.Name = ""
	}
	if (s.P(1, 4) || o.Comp && div != 0 && s.P(1, 4)) && !l.NoExtra {
		l.Mask = genMask(s, d, o)
	}
	if !l.NoExtra {
		if !o.Comp && s.P(1, 2) {
			l.Ranges = make([]byte, 8*s.Int(6))
			s.Fill(l.Ranges)
		}
		if s.P(1, 2) {
			l.HasLuni = true
			a := alphabets[s.Int(len(alphabets))]
			if strings.Contains(a, "%d") {
				a = fmt.Sprintf(a, len(d.Layers))
			}
			l.Luni = a
			if s.P(1, 3) {
				l.LuniPad = s.Int(4)
			}
		}
		if s.P(1, 8) {
			l.ExtraPad = s.Range(1, 5)
		}
		if s.P(1, 3) {
			l.HasClbl = true
			l.Clbl = s.P(1, 2)
		}
		if div != 0 || s.P(1, 12) {
			l.DivKey = "lsct"
			if s.P(1, 6) {
				l.DivKey = "lsdk"
			}
			l.DivType = div
			l.DivLen = []int{4, 12, 16}[s.Int(3)]
			bl := o.Blends
			if bl == nil {
				bl = allBlends
			}
			l.DivBlend = "pass"
			if s.P(1, 2) {
				l.DivBlend = bl[s.Int(len(bl))]
			}
			l.DivSub = s.Int(2)
			if o.Comp && l.DivLen == 4 {
				l.DivLen = 12
			}
		}
		for n := s.Int(4); n > 0 && !o.Comp; n-- {
			l.Infos = addInfo(s, l.Infos, d.PSB(), layerKeys)
		}
		l.assemble(s)
	}
	// channels
	nc := ModeChannels(d.Mode)
	var ids []int
	for i := 0; i < nc; i++ {
		ids = append(ids, i)
	}
	if s.P(2, 3) {
		ids = append([]int{-1}, ids...)
	}
	if l.Mask != nil && (o.Plain || s.P(5, 6)) {
		ids = append(ids, -2)
		if l.Mask.HasReal && s.P(1, 2) {
			ids = append(ids, -3)
		}
	}
	if l.Rect.Empty() && s.P(1, 6) {
		// some programs store no channels for layers without pixels
		k := 0
		for _, id := range ids {
			if id < -1 || s.P(1, 4) {
				ids[k] = id
				k++
			}
		}
		ids = ids[:k]
	}
	if !o.Plain && s.P(1, 24) {
		ids = append(ids, nc+s.Int(3))
	}
	if !o.Plain && s.P(1, 4) { // any order
		for i := len(ids) - 1; i > 0; i-- {
			j := s.Int(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	for _, id := range ids {
		c := &Chan{ID: id, Rect: l.Rect}
		switch id {
		case -2:
			c.Rect = l.Mask.Rect
		case -3:
			c.Rect = l.Mask.RealRect
		}
		c.Data = genPlane(s, c.Rect.Dx(), c.Rect.Dy(), d.Depth)
		if id == -1 && o.AlphaRuns && len(c.Data) > 0 {
			switch s.Int(4) {
			case 0:
				for i := range c.Data {
					c.Data[i] = 255
				}
			case 1:
				a, b := s.Int(len(c.Data)), s.Int(len(c.Data)+1)
				for i := range c.Data {
					if i >= a && i < b || a > b && (i >= a || i < b) {
						c.Data[i] = 0
					}
				}
			}
		}
		if (id == -2 || id == -3) && o.Plain && len(c.Data) > 0 {
			switch s.Int(5) {
			case 0:
				for i := range c.Data {
					c.Data[i] = byte(l.Mask.Default)
				}
			case 2: // hardly different from the default
				x := uint64(s.N(1 << 20))
				v := byte(1)
				if l.Mask.Default == 255 {
					v = 254
				}
				rare := 3 + x%60
				for i := range c.Data {
					if x = vsim.Mix(x); x%rare == 0 {
						continue
					}
					if c.Data[i] = v; x>>32&3 == 0 {
						c.Data[i] = byte(l.Mask.Default)
					}
				}
			case 1:
				k := s.Int(len(c.Data))
				for i := range c.Data[:k] {
					c.Data[i] = byte(l.Mask.Default)
				}
			}
		}
		c.Method = s.Int(4)
		if o.Methods != nil {
			c.Method = o.Methods[s.Int(len(o.Methods))]
		}
		if c.Method == ZIPPred && d.Depth == 1 {
			c.Method = ZIP
		}
		if len(c.Data) == 0 {
			if !o.NoShort {
				c.Short = s.Int(3)
			}
		} else if s.P(1, 10) {
			c.Slack = make([]byte, s.Range(1, 9))
			s.Fill(c.Slack)
		}
		l.Chans = append(l.Chans, c)
	}
	return l
}

func (l *Layer) assemble(s *vsim.Stream) {
	var all []Info
	if l.HasLuni {
		b := utf16be(l.Luni)
		for i := 0; i < l.LuniPad; i++ {
			b = append(b, 0)
		}
		all = append(all, Info{Sig: "8BIM", Key: "luni", Data: b, Pad: (4 - len(b)%4) % 4})
	}
	if l.HasClbl {
		b := []byte{0, 0, 0, 0}
		if l.Clbl {
			b[0] = 1
		}
		all = append(all, Info{Sig: "8BIM", Key: "clbl", Data: b})
	}
	if l.DivKey != "" {
		b := binary.BigEndian.AppendUint32(nil, uint32(l.DivType))
		if l.DivLen >= 12 {
			b = append(b, "8BIM"...)
			b = append(b, l.DivBlend...)
		}
		if l.DivLen >= 16 {
			b = binary.BigEndian.AppendUint32(b, uint32(l.DivSub))
		}
		all = append(all, Info{Sig: "8BIM", Key: l.DivKey, Data: b})
	}
	all = append(all, l.Infos...)
	if len(all) > 1 && s.P(1, 2) {
		for i := len(all) - 1; i > 0; i-- {
			j := s.Int(i + 1)
			all[i], all[j] = all[j], all[i]
		}
	}
	l.infoAll = all
}

// SetNames gives l the names of o as far as it stores such names.
func (l *Layer) SetNames(o *Layer) {
	l.Name = o.Name
	if !l.HasLuni || !o.HasLuni {
		return
	}
	l.Luni = o.Luni
	for i := range l.infoAll {
		if l.infoAll[i].Key == "luni" {
			b := utf16be(l.Luni)
			for k := 0; k < l.LuniPad; k++ {
				b = append(b, 0)
			}
			l.infoAll[i].Data, l.infoAll[i].Pad = b, (4-len(b)%4)%4
		}
	}
}

// SetDivBlend replaces the blend mode of the section divider.
func (l *Layer) SetDivBlend(bl string) {
	l.DivBlend = bl
	for _, i := range l.infoAll {
		if i.Key == l.DivKey && l.DivLen >= 12 {
			copy(i.Data[8:], bl)
		}
	}
}

func genMask(s *vsim.Stream, d *Doc, o Opt) *Mask {
	m := &Mask{Rect: genRect(s, d, o, true), UD: 255, VD: 255}
	if s.P(1, 2) {
		m.Default = 255
	}
	if s.P(1, 3) {
		m.Flags = s.Int(16)
	}
	if s.P(1, 3) {
		m.Flags |= 16
		m.Params = s.Int(16)
		if m.Params&1 != 0 {
			m.UD = s.Int(256)
		}
		if m.Params&2 != 0 {
			m.UF = float64(s.Int(1000)) / 4
		}
		if m.Params&4 != 0 {
			m.VD = s.Int(256)
		}
		if m.Params&8 != 0 {
			m.VF = float64(s.Int(1000)) / 8
		}
	}
	if !o.NoReal && s.P(1, 3) {
		m.HasReal = true
		m.RealFlags = s.Int(16)
		m.RealBg = s.Int(2) * 255
		m.RealRect = genRect(s, d, o, true)
	}
	switch {
	case o.Plain || s.P(2, 3):
	case s.P(1, 2):
		m.cut(s)
	default:
		m.Pad = s.Int(4)
	}
	return m
}

// cut lets the record end early: the fields that are not complete are absent.
func (m *Mask) cut(s *vsim.Stream) {
	type field struct {
		n  int
		no func()
	}
	l := []field{
		{16, func() { m.Rect = image.Rectangle{} }},
		{1, func() { m.Default = 0 }},
		{1, func() { m.Flags, m.NoFlags = 0, true }},
	}
	if m.Flags&16 != 0 {
		l = append(l, field{1, func() {}})
		if m.Params&1 != 0 {
			l = append(l, field{1, func() { m.UD = 255 }})
		}
		if m.Params&2 != 0 {
			l = append(l, field{8, func() { m.UF = 0 }})
		}
		if m.Params&4 != 0 {
			l = append(l, field{1, func() { m.VD = 255 }})
		}
		if m.Params&8 != 0 {
			l = append(l, field{8, func() { m.VF = 0 }})
		}
	}
	total := 0
	for _, f := range l {
		total += f.n
	}
	real := total
	if m.HasReal {
		l = append(l, field{1, func() { m.RealFlags = 0 }}, field{1, func() { m.RealBg = 0 }}, field{16, func() { m.RealRect = image.Rectangle{} }})
		total += 18
	}
	if total == real && total < 20 {
		total = 20
	}
	n := s.Range(1, total-1)
	if s.P(1, 2) { // between two fields
		n = 0
		for i := s.Range(1, len(l)-1); i > 0; i-- {
			n += l[i-1].n
		}
	}
	if n == 20 { // what comes after the parameters is padding in a record of this size
		n = 19
	}
	if !m.HasReal && n > real {
		n = real
	}
	m.Cut = n
	at := 0
	for _, f := range l {
		if at+f.n > n {
			f.no()
			at = 1 << 20 // and so are all that follow
			continue
		}
		at += f.n
		m.Whole = at
	}
}

// String describes the document.
func (d *Doc) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "v%d mode=%d depth=%d %dx%d channels=%d modeData=%d res=%d", d.Version, d.Mode, d.Depth, d.W, d.H, d.Channels, len(d.ModeData), len(d.Res))
	if d.HasSection {
		fmt.Fprintf(&b, " section(key=%q global=%v infos=%d pad=%d)", d.LayerKey, d.HasGlobal, len(d.Infos), d.SectionPad)
	}
	fmt.Fprintf(&b, " merged=%d", d.Method)
	for i, l := range d.Layers {
		fmt.Fprintf(&b, " L%d{%v %s op=%d clip=%d fl=%d div=%d", i, l.Rect, l.Blend, l.Opacity, l.Clipping, l.Flags, l.Div())
		if l.Mask != nil {
			fmt.Fprintf(&b, " mask=%v/%d/%d", l.Mask.Rect, l.Mask.Default, l.Mask.Flags)
		}
		for _, c := range l.Chans {
			fmt.Fprintf(&b, " c%d/m%d", c.ID, c.Method)
		}
		b.WriteString("}")
	}
	return b.String()
}
