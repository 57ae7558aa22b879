// Package psdgen is the reference model of the PSD and PSB formats: documents
// are generated as values, encoded by an independent encoder, and what the
// decoder reports is compared with the value.
package psdgen

import "image"

// Color modes.
const (
	Bitmap       = 0
	Gray         = 1
	Indexed      = 2
	RGB          = 3
	CMYK         = 4
	Multichannel = 7
	Duotone      = 8
	Lab          = 9
)

// Compression methods.
const (
	Raw     = 0
	RLE     = 1
	ZIP     = 2
	ZIPPred = 3
)

// Res is one image resource block.
type Res struct {
	Sig  string
	ID   int
	Name string
	Data []byte
}

// Info is one additional layer information block.
type Info struct {
	Sig  string
	Key  string
	Data []byte
	Pad  int // zero bytes after the block
}

// Mask is the layer mask data.
type Mask struct {
	Rect      image.Rectangle
	Default   int
	Flags     int
	Params    int // bit flags, valid if Flags&16 != 0
	UD, VD    int
	UF, VF    float64
	HasReal   bool
	RealFlags int
	RealBg    int
	RealRect  image.Rectangle
	Cut       int  // length of the record if it ends early
	Whole     int  // how much of that is complete fields
	NoFlags   bool // ... before the flags
	Pad       int  // zero bytes after the record
}

// Chan is one channel of a layer.
type Chan struct {
	ID     int
	Rect   image.Rectangle
	Method int
	Data   []byte // uncompressed
	Short  int    // 0: complete; 1: two bytes only; 2: no bytes (empty rectangles only)
	Slack  []byte // bytes after the compressed data
}

// Layer is one layer record.
type Layer struct {
	Rect     image.Rectangle
	Chans    []*Chan
	Blend    string
	Opacity  int
	Clipping int
	Flags    int
	NoExtra  bool
	ExtraPad int // zero bytes at the end of the extra data
	Mask     *Mask
	Ranges   []byte
	Name     string // Pascal string
	HasLuni  bool
	Luni     string
	LuniPad  int
	HasClbl  bool
	Clbl     bool
	DivKey   string // "", lsct or lsdk
	DivType  int
	DivLen   int // 4, 12 or 16
	DivBlend string
	DivSub   int
	Infos    []Info // other blocks
	infoAll  []Info
	perm     []int
}

// Doc is a document.
type Doc struct {
	Version    int
	Channels   int
	W, H       int
	Depth      int
	Mode       int
	ModeData   []byte
	Res        []Res
	HasSection bool
	Layers     []*Layer
	LayerKey   string // "" or the additional information block the layers are in
	NegCount   bool
	HasGlobal  bool
	Global     []byte
	Infos      []Info // document level
	LayerPad   int
	SectionPad int

	Method int
	Planes [][]byte
	DataW  int // size of the planes if it is not that of the header
	DataH  int
}

// PSB tells whether this is a large document.
func (d *Doc) PSB() bool { return d.Version == 2 }

// ModeChannels is the number of colour channels.
func ModeChannels(mode int) int {
	switch mode {
	case Bitmap, Gray, Indexed, Duotone:
		return 1
	case RGB, Lab:
		return 3
	case CMYK:
		return 4
	}
	return 0
}

// RowBytes is the number of bytes of a row.
func RowBytes(w, depth int) int { return (w*depth + 7) / 8 }

// HasAlpha tells whether the merged image has a transparency channel.
func (d *Doc) HasAlpha() bool {
	if d.Channels <= ModeChannels(d.Mode) {
		return false
	}
	for _, r := range d.Res {
		if r.ID == 0x041D {
			for i := 0; i+4 <= len(r.Data); i += 4 {
				if r.Data[i] == 0 && r.Data[i+1] == 0 && r.Data[i+2] == 0 && r.Data[i+3] == 0 {
					return true
				}
			}
			return false
		}
	}
	return true
}

// Supported tells whether the library says it decodes the merged image.
func (d *Doc) Supported() bool {
	switch d.Mode {
	case Bitmap:
		return d.Depth == 1
	case Indexed:
		return d.Depth == 8
	case Gray, RGB:
		return d.Depth == 8 || d.Depth == 16 || d.Depth == 32
	case CMYK:
		return d.Depth == 8 || d.Depth == 16
	}
	return false
}

// Node is a layer in the expected tree.
type Node struct {
	Index    int
	L        *Layer
	Children []*Node
}

// Tree returns the expected layer tree: bottom to top, folders hold the layers
// between the bounding divider and the folder record.
func (d *Doc) Tree() []*Node {
	var stack [][]*Node
	var cur []*Node
	for i, l := range d.Layers {
		t := 0
		if l.DivKey != "" {
			t = l.DivType
		}
		switch t {
		case 3:
			stack = append(stack, cur)
			cur = nil
		case 1, 2:
			n := &Node{Index: i, L: l, Children: cur}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
		default:
			cur = append(cur, &Node{Index: i, L: l})
		}
	}
	return cur
}

// Find returns the channel with that ID.
func (l *Layer) Find(id int) *Chan {
	for _, c := range l.Chans {
		if c.ID == id {
			return c
		}
	}
	return nil
}

// Div is the section divider type (0 for layers).
func (l *Layer) Div() int {
	if l.DivKey == "" {
		return 0
	}
	return l.DivType
}
