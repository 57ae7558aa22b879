package psdgen

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"math"
	"unicode/utf16"

	"github.com/oov/psd/verifsim/vsim"
)

// Field is a number in the encoded document.
type Field struct {
	Off, Size int
	Name      string
}

// Span is the image data of one channel (method included).
type Span struct {
	Layer, Chan int
	Start, End  int
	Method      int
	Size        int // uncompressed
}

// Map tells where everything is in the encoded document.
type Map struct {
	ModeDataStart int
	ResStart      int // of the image resources section (its length)
	ConfigEnd     int
	SectionStart  int
	RecStart      []int
	RecEnd        []int
	ImgStart      []int
	ImgEnd        []int
	Fields        []Field
	Spans         []Span // channel image data
	LayersStart   int
	LayersEnd     int
	SectionEnd    int
	MergedStart   int
	MergedEnd     int
}

// Pick chooses a field, giving the rare kinds the same chance as the common ones.
func (m *Map) Pick(s *vsim.Stream) Field {
	var names []string
	byName := map[string][]Field{}
	for _, f := range m.Fields {
		if byName[f.Name] == nil {
			names = append(names, f.Name)
		}
		byName[f.Name] = append(byName[f.Name], f)
	}
	l := byName[names[s.Int(len(names))]]
	return l[s.Int(len(l))]
}

type enc struct {
	b   []byte
	m   *Map
	ps  bool
	s   *vsim.Stream
	rec bool
}

func (e *enc) pos() int { return len(e.b) }
func (e *enc) field(name string, size int) {
	e.m.Fields = append(e.m.Fields, Field{len(e.b), size, name})
}
func (e *enc) u8(n string, v int) { e.field(n, 1); e.b = append(e.b, byte(v)) }
func (e *enc) u16(n string, v int) {
	e.field(n, 2)
	e.b = binary.BigEndian.AppendUint16(e.b, uint16(v))
}
func (e *enc) u32(n string, v int) {
	e.field(n, 4)
	e.b = binary.BigEndian.AppendUint32(e.b, uint32(v))
}
func (e *enc) u64(n string, v int) {
	e.field(n, 8)
	e.b = binary.BigEndian.AppendUint64(e.b, uint64(v))
}
func (e *enc) uN(n string, v int) {
	if e.ps {
		e.u64(n, v)
	} else {
		e.u32(n, v)
	}
}
func (e *enc) f64(n string, v float64) {
	e.field(n, 8)
	e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(v))
}
func (e *enc) str(n, s string) { e.field(n, len(s)); e.b = append(e.b, s...) }
func (e *enc) raw(b []byte)    { e.b = append(e.b, b...) }
func (e *enc) zero(n int) {
	for ; n > 0; n-- {
		e.b = append(e.b, 0)
	}
}

// patch reserves a length field and returns the function that fills it in.
func (e *enc) length(n string, wide bool) func() int {
	at, size := e.pos(), 4
	if wide {
		e.u64(n, 0)
		size = 8
	} else {
		e.u32(n, 0)
	}
	start := e.pos()
	return func() int {
		v := e.pos() - start
		if size == 8 {
			binary.BigEndian.PutUint64(e.b[at:], uint64(v))
		} else {
			binary.BigEndian.PutUint32(e.b[at:], uint32(v))
		}
		return v
	}
}

var wideKeys = map[string]bool{"LMsk": true, "Lr16": true, "Lr32": true, "Layr": true, "Mt16": true, "Mt32": true, "Mtrn": true, "Alph": true, "FMsk": true, "lnk2": true, "FEid": true, "FXid": true, "PxSD": true}

// Encode writes the document. s supplies the encoder's free choices (how rows
// are packed, compression level).
func Encode(d *Doc, s *vsim.Stream) ([]byte, *Map) {
	e := &enc{m: &Map{}, ps: d.PSB(), s: s}
	e.str("signature", "8BPS")
	e.u16("version", d.Version)
	e.str("reserved", "\x00\x00\x00\x00\x00\x00")
	e.u16("channels", d.Channels)
	e.u32("height", d.H)
	e.u32("width", d.W)
	e.u16("depth", d.Depth)
	e.u16("mode", d.Mode)
	e.u32("modeDataLen", len(d.ModeData))
	e.m.ModeDataStart = e.pos()
	e.raw(d.ModeData)
	e.m.ResStart = e.pos()
	end := e.length("resLen", false)
	for _, r := range d.Res {
		e.str("resSig", r.Sig)
		e.u16("resID", r.ID)
		e.u8("resNameLen", len(r.Name))
		e.raw([]byte(r.Name))
		if len(r.Name)%2 == 0 {
			e.zero(1)
		}
		e.u32("resDataLen", len(r.Data))
		e.raw(r.Data)
		e.zero(len(r.Data) % 2)
	}
	end()
	e.m.ConfigEnd = e.pos()
	e.m.SectionStart = e.pos()
	if !d.HasSection {
		e.uN("sectionLen", 0)
	} else {
		end := e.length("sectionLen", e.ps)
		if d.LayerKey == "" && len(d.Layers) > 0 {
			e.layers(d)
		} else {
			e.uN("layerInfoLen", 0)
		}
		if d.HasGlobal || len(d.Infos) > 0 || d.LayerKey != "" {
			e.u32("globalLen", len(d.Global))
			e.raw(d.Global)
		}
		at := 0
		if d.LayerKey != "" && len(d.Infos) > 0 {
			at = s.Int(len(d.Infos) + 1)
		}
		for i := 0; i <= len(d.Infos); i++ {
			if i == at && d.LayerKey != "" {
				e.str("infoSig", "8BIM")
				e.str("infoKey", d.LayerKey)
				e.layers(d)
				e.zero((4 - e.pos()%4) % 4)
			}
			if i < len(d.Infos) {
				e.info(d.Infos[i])
			}
		}
		e.zero(d.SectionPad)
		end()
	}
	e.m.SectionEnd = e.pos()
	e.m.MergedStart = e.pos()
	e.u16("mergedMethod", d.Method)
	if d.DataW > 0 {
		e.plane(d.Method, d.Planes, d.DataW, d.DataH, d.Depth)
	} else {
		e.plane(d.Method, d.Planes, d.W, d.H, d.Depth)
	}
	e.m.MergedEnd = e.pos()
	return e.b, e.m
}

func (e *enc) info(in Info) {
	e.str("infoSig", in.Sig)
	e.str("infoKey", in.Key)
	if e.ps && wideKeys[in.Key] {
		e.u64("infoLen", len(in.Data))
	} else {
		e.u32("infoLen", len(in.Data))
	}
	switch {
	case (in.Key == "lsct" || in.Key == "lsdk") && len(in.Data) >= 4:
		e.field("divType", 4)
		if len(in.Data) >= 12 {
			e.m.Fields = append(e.m.Fields, Field{len(e.b) + 4, 4, "divSig"}, Field{len(e.b) + 8, 4, "divKey"})
		}
	case in.Key == "luni" && len(in.Data) >= 4:
		e.field("luniLen", 4)
	}
	e.raw(in.Data)
	e.zero(in.Pad)
}

func (e *enc) layers(d *Doc) {
	e.m.LayersStart = e.pos()
	end := e.length("layerInfoLen", e.ps)
	n := len(d.Layers)
	if d.NegCount {
		n = -n
	}
	e.u16("layerCount", n)
	lens := make([][]int, len(d.Layers))
	for i, l := range d.Layers {
		e.m.RecStart = append(e.m.RecStart, e.pos())
		e.u32("top", l.Rect.Min.Y)
		e.u32("left", l.Rect.Min.X)
		e.u32("bottom", l.Rect.Max.Y)
		e.u32("right", l.Rect.Max.X)
		e.u16("layerChannels", len(l.Chans))
		for _, c := range l.Chans {
			e.u16("channelID", c.ID)
			lens[i] = append(lens[i], e.pos())
			e.uN("channelLen", 0)
		}
		e.str("blendSig", "8BIM")
		e.str("blendKey", l.Blend)
		e.u8("opacity", l.Opacity)
		e.u8("clipping", l.Clipping)
		e.u8("flags", l.Flags)
		e.zero(1)
		if l.NoExtra {
			e.u32("extraLen", 0)
			e.m.RecEnd = append(e.m.RecEnd, e.pos())
			continue
		}
		end := e.length("extraLen", false)
		e.mask(l.Mask)
		e.u32("rangesLen", len(l.Ranges))
		e.raw(l.Ranges)
		e.u8("nameLen", len(l.Name))
		e.raw([]byte(l.Name))
		e.zero((4 - (len(l.Name)+1)%4) % 4)
		for _, in := range l.infoAll {
			e.info(in)
		}
		e.zero(l.ExtraPad)
		end()
		e.m.RecEnd = append(e.m.RecEnd, e.pos())
	}
	for i, l := range d.Layers {
		e.m.ImgStart = append(e.m.ImgStart, e.pos())
		for j, c := range l.Chans {
			at := e.pos()
			if c.Short != 2 {
				e.u16("channelMethod", c.Method)
			}
			if c.Short == 0 {
				e.plane(c.Method, [][]byte{c.Data}, c.Rect.Dx(), c.Rect.Dy(), d.Depth)
				e.raw(c.Slack)
			}
			e.m.Spans = append(e.m.Spans, Span{i, j, at, e.pos(), c.Method, len(c.Data)})
			if e.ps {
				binary.BigEndian.PutUint64(e.b[lens[i][j]:], uint64(e.pos()-at))
			} else {
				binary.BigEndian.PutUint32(e.b[lens[i][j]:], uint32(e.pos()-at))
			}
		}
		e.m.ImgEnd = append(e.m.ImgEnd, e.pos())
	}
	e.zero(d.LayerPad)
	end()
	e.m.LayersEnd = e.pos()
}

func (e *enc) mask(m *Mask) {
	if m == nil {
		e.u32("maskLen", 0)
		return
	}
	end := e.length("maskLen", false)
	start := e.pos()
	e.u32("maskTop", m.Rect.Min.Y)
	e.u32("maskLeft", m.Rect.Min.X)
	e.u32("maskBottom", m.Rect.Max.Y)
	e.u32("maskRight", m.Rect.Max.X)
	e.u8("maskDefault", m.Default)
	e.u8("maskFlags", m.Flags)
	if m.Flags&16 != 0 {
		e.u8("maskParams", m.Params)
		if m.Params&1 != 0 {
			e.u8("maskUD", m.UD)
		}
		if m.Params&2 != 0 {
			e.f64("maskUF", m.UF)
		}
		if m.Params&4 != 0 {
			e.u8("maskVD", m.VD)
		}
		if m.Params&8 != 0 {
			e.f64("maskVF", m.VF)
		}
	}
	if m.HasReal {
		e.u8("realFlags", m.RealFlags)
		e.u8("realBg", m.RealBg)
		e.u32("realTop", m.RealRect.Min.Y)
		e.u32("realLeft", m.RealRect.Min.X)
		e.u32("realBottom", m.RealRect.Max.Y)
		e.u32("realRight", m.RealRect.Max.X)
	} else if e.pos()-start < 20 {
		e.zero(20 - (e.pos() - start))
	}
	if m.Cut > 0 {
		// the record ends early; what is left of the field it ends in means nothing
		e.b = e.b[:start+m.Cut]
		fs := e.m.Fields
		for len(fs) > 0 && fs[len(fs)-1].Off >= len(e.b) {
			fs = fs[:len(fs)-1]
		}
		if f := &fs[len(fs)-1]; f.Off+f.Size > len(e.b) {
			f.Size = len(e.b) - f.Off
		}
		e.m.Fields = fs
		for i := start + m.Whole; i < len(e.b); i++ {
			e.b[i] = e.s.Byte()
		}
	}
	e.zero(m.Pad)
	end()
}

// plane writes planes with one method.
func (e *enc) plane(method int, planes [][]byte, w, h, depth int) {
	row := RowBytes(w, depth)
	switch method {
	case Raw:
		for _, p := range planes {
			e.raw(p)
		}
	case RLE:
		lens := e.pos()
		n := h * len(planes)
		for i := 0; i < n; i++ {
			if e.ps {
				e.u32("rowLen", 0)
			} else {
				e.u16("rowLen", 0)
			}
		}
		i := 0
		for _, p := range planes {
			for y := 0; y < h; y++ {
				at := e.pos()
				e.packbits(p[y*row : (y+1)*row])
				l := e.pos() - at
				if e.ps {
					binary.BigEndian.PutUint32(e.b[lens+4*i:], uint32(l))
				} else {
					binary.BigEndian.PutUint16(e.b[lens+2*i:], uint16(l))
				}
				i++
			}
		}
	case ZIP, ZIPPred:
		var all []byte
		for _, p := range planes {
			q := append([]byte{}, p...)
			if method == ZIPPred {
				predict(q, w, h, depth)
			}
			all = append(all, q...)
		}
		var bb bytes.Buffer
		level := []int{6, 0, 1, 9, -2}[e.s.Int(5)]
		zw, _ := zlib.NewWriterLevel(&bb, level)
		zw.Write(all)
		zw.Close()
		e.raw(bb.Bytes())
	}
}

// predict applies horizontal prediction.
func predict(b []byte, w, h, depth int) {
	switch depth {
	case 8:
		for y := 0; y < h; y++ {
			r := b[y*w : (y+1)*w]
			for i := w - 1; i > 0; i-- {
				r[i] -= r[i-1]
			}
		}
	case 16:
		for y := 0; y < h; y++ {
			r := b[y*w*2 : (y+1)*w*2]
			for i := w - 1; i > 0; i-- {
				v := binary.BigEndian.Uint16(r[i*2:]) - binary.BigEndian.Uint16(r[i*2-2:])
				binary.BigEndian.PutUint16(r[i*2:], v)
			}
		}
	case 32:
		// the bytes of a row are stored plane by plane, then byte-wise differences
		for y := 0; y < h; y++ {
			r := b[y*w*4 : (y+1)*w*4]
			q := make([]byte, len(r))
			for i := 0; i < w; i++ {
				for k := 0; k < 4; k++ {
					q[k*w+i] = r[i*4+k]
				}
			}
			for i := len(q) - 1; i > 0; i-- {
				q[i] -= q[i-1]
			}
			copy(r, q)
		}
	}
}

// packbits packs one row in one of the many ways the format allows.
func (e *enc) packbits(row []byte) {
	style := e.s.Int(4)
	i := 0
	for i < len(row) {
		run := 1
		for i+run < len(row) && run < 128 && row[i+run] == row[i] {
			run++
		}
		if style == 3 && e.s.P(1, 6) {
			e.b = append(e.b, 0x80) // no-op
		}
		if run >= 2 && style != 1 {
			e.b = append(e.b, byte(257-run), row[i])
			i += run
			continue
		}
		// literal
		n := 1
		for i+n < len(row) && n < 128 {
			if style != 1 && i+n+1 < len(row) && row[i+n] == row[i+n+1] {
				break
			}
			n++
		}
		if style == 2 {
			n = e.s.Range(1, n)
		}
		e.b = append(e.b, byte(n-1))
		e.b = append(e.b, row[i:i+n]...)
		i += n
	}
	if style == 3 && e.s.P(1, 6) {
		e.b = append(e.b, 0x80) // a no-op at the end of the row
	}
}

func utf16be(s string) []byte {
	u := utf16.Encode([]rune(s))
	b := binary.BigEndian.AppendUint32(nil, uint32(len(u)))
	for _, c := range u {
		b = binary.BigEndian.AppendUint16(b, c)
	}
	return b
}
