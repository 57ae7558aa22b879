package psdgen

import (
	"fmt"
	"image"

	"github.com/oov/psd/verifsim/vsim"
)

// Mangle makes a document malformed before it is encoded, as a broken writer
// does: what is encoded contradicts itself although all lengths fit. It returns
// what was done.
func Mangle(d *Doc, s *vsim.Stream) []string {
	var log []string
	for n := 1 + Min(s.Int(3), s.Int(3)); n > 0; n-- {
		var l *Layer
		if len(d.Layers) > 0 {
			l = d.Layers[s.Int(len(d.Layers))]
		}
		op := s.Int(13)
		if l == nil {
			op = 9 + op%4
		}
		switch op {
		case 0, 1, 2: // a block the decoder looks into has another size
			if l.NoExtra {
				continue
			}
			key := []string{"luni", "clbl", "lsct", "lsdk"}[s.Int(4)]
			at := -1
			for i := range l.infoAll {
				if l.infoAll[i].Key == key {
					at = i
				}
			}
			if at < 0 {
				l.infoAll = append(l.infoAll, Info{Sig: "8BIM", Key: key})
				at = len(l.infoAll) - 1
			}
			b := make([]byte, s.Int(18))
			copy(b, []byte{0, 0, 0, byte(s.Int(5)), '8', 'B', 'I', 'M', 'p', 'a', 's', 's', 0, 0, 0, 1})
			copy(b, l.infoAll[at].Data)
			if s.P(1, 4) {
				s.Fill(b)
			}
			l.infoAll[at].Data, l.infoAll[at].Pad = b, 0
			if s.P(1, 2) {
				l.infoAll[at].Pad = (4 - len(b)%4) % 4
			}
			log = append(log, fmt.Sprintf("%s of %d bytes", key, len(b)))
		case 3: // both divider blocks
			if l.NoExtra {
				continue
			}
			for _, k := range []string{"lsct", "lsdk"} {
				l.infoAll = append(l.infoAll, Info{Sig: "8BIM", Key: k, Data: []byte{0, 0, 0, byte(s.Int(5))}})
			}
			log = append(log, "two dividers")
		case 4: // a layer moved: the groups do not match any more
			i, j := s.Int(len(d.Layers)), s.Int(len(d.Layers))
			d.Layers[i], d.Layers[j] = d.Layers[j], d.Layers[i]
			log = append(log, fmt.Sprintf("layers %d and %d swapped", i, j))
		case 5: // the data of a channel has another size than its rectangle
			if len(l.Chans) == 0 {
				continue
			}
			c := l.Chans[s.Int(len(l.Chans))]
			r := c.Rect
			r.Max.X = r.Min.X + s.Int(r.Dx()+3)
			r.Max.Y = r.Min.Y + s.Int(r.Dy()+3)
			c.Rect, c.Data, c.Short, c.Slack = r, genPlane(s, r.Dx(), r.Dy(), d.Depth), 0, nil
			log = append(log, fmt.Sprintf("channel %d is %dx%d", c.ID, r.Dx(), r.Dy()))
		case 6: // channels
			if len(l.Chans) == 0 {
				continue
			}
			i := s.Int(len(l.Chans))
			switch s.Int(3) {
			case 0:
				l.Chans = append(l.Chans[:i], l.Chans[i+1:]...)
				log = append(log, "channel missing")
			case 1:
				c := *l.Chans[i]
				l.Chans = append(l.Chans, &c)
				log = append(log, fmt.Sprintf("channel %d twice", c.ID))
			case 2:
				c := *l.Chans[i]
				c.ID = s.Range(-5, 9)
				l.Chans[i] = &c
				log = append(log, fmt.Sprintf("channel %d", c.ID))
			}
		case 7: // a rectangle
			r := image.Rectangle{image.Pt(s.Range(-20, 20), s.Range(-20, 20)), image.Pt(s.Range(-20, 20), s.Range(-20, 20))}
			if l.Mask != nil && s.P(1, 2) {
				l.Mask.Rect = r
				log = append(log, fmt.Sprintf("mask %v", r))
			} else {
				l.Rect = r
				log = append(log, fmt.Sprintf("layer %v", r))
			}
		case 8: // a channel without its data
			if len(l.Chans) == 0 {
				continue
			}
			c := l.Chans[s.Int(len(l.Chans))]
			c.Short = 1 + s.Int(2)
			log = append(log, fmt.Sprintf("channel %d empty", c.ID))
		case 9: // colour mode data
			d.ModeData = make([]byte, []int{0, 1, 4, 767, 768, 769, 256, 3}[s.Int(8)])
			s.Fill(d.ModeData)
			log = append(log, fmt.Sprintf("colour data of %d bytes", len(d.ModeData)))
		case 10: // planes
			if len(d.Planes) == 0 {
				continue
			}
			i := s.Int(len(d.Planes))
			if s.P(1, 2) {
				d.Planes = d.Planes[:i]
			} else {
				d.Planes = append(d.Planes, d.Planes[i])
			}
			if s.P(1, 2) {
				d.Channels = len(d.Planes)
			}
			log = append(log, fmt.Sprintf("%d planes", len(d.Planes)))
		case 11: // what the planes hold is not what the header says
			w, h := s.Range(1, d.W+2), s.Range(1, d.H+2)
			for i := range d.Planes {
				d.Planes[i] = genPlane(s, w, h, d.Depth)
			}
			d.DataW, d.DataH = w, h
			log = append(log, fmt.Sprintf("planes are %dx%d", w, h))
		case 12: // the resources the decoder looks into have another size
			id := []int{0x417, 0x41d}[s.Int(2)]
			b := make([]byte, s.Int(14))
			if s.P(1, 2) {
				s.Fill(b)
			}
			var l []Res
			for _, r := range d.Res {
				if r.ID != id {
					l = append(l, r)
				}
			}
			d.Res = l
			d.insertRes(s, Res{Sig: "8BIM", ID: id, Data: b})
			log = append(log, fmt.Sprintf("resource %#x of %d bytes", id, len(b)))
		}
	}
	return log
}
