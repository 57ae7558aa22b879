// Package downscale stands in for github.com/oov/downscale, which is not
// available offline: a sequential box filter with the same signature.
package downscale

import (
	"context"
	"image"
)

// NRGBAFast scales src down to dest.
func NRGBAFast(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error {
	dw, dh := dest.Rect.Dx(), dest.Rect.Dy()
	sw, sh := src.Rect.Dx(), src.Rect.Dy()
	if dw <= 0 || dh <= 0 || sw <= 0 || sh <= 0 {
		return nil
	}
	for y := 0; y < dh; y++ {
		if err := ctx.Err(); err != nil {
			return err
		}
		y0, y1 := y*sh/dh, (y+1)*sh/dh
		if y1 <= y0 {
			y1 = y0 + 1
		}
		for x := 0; x < dw; x++ {
			x0, x1 := x*sw/dw, (x+1)*sw/dw
			if x1 <= x0 {
				x1 = x0 + 1
			}
			var r, g, b, a, n uint32
			for sy := y0; sy < y1 && sy < sh; sy++ {
				for sx := x0; sx < x1 && sx < sw; sx++ {
					p := src.Pix[sy*src.Stride+sx*4:]
					pa := uint32(p[3])
					r += uint32(p[0]) * pa
					g += uint32(p[1]) * pa
					b += uint32(p[2]) * pa
					a += pa
					n++
				}
			}
			d := dest.Pix[y*dest.Stride+x*4:]
			if a > 0 {
				d[0], d[1], d[2], d[3] = byte(r/a), byte(g/a), byte(b/a), byte(a/n)
			}
		}
	}
	return nil
}
