// Package downscale is a stand-in for github.com/oov/downscale, which is not
// available offline.  NRGBAFast is an area-average (box) downscale in
// premultiplied space; the real package computes the same quantity.
package downscale

import (
	"context"
	"errors"
	"image"
)

var ErrAborted = errors.New("downscale: aborted")

// NRGBAFast scales src into the whole of dest.
func NRGBAFast(ctx context.Context, dest, src *image.NRGBA) error {
	dr, sr := dest.Rect, src.Rect
	dw, dh, sw, sh := dr.Dx(), dr.Dy(), sr.Dx(), sr.Dy()
	if dw <= 0 || dh <= 0 || sw <= 0 || sh <= 0 {
		return nil
	}
	if dw > sw || dh > sh {
		return errors.New("downscale: upscale is not supported")
	}
	for y := 0; y < dh; y++ {
		if ctx.Err() != nil {
			return ErrAborted
		}
		for x := 0; x < dw; x++ {
			var r, g, b, a, area uint64
			y0, y1 := y*sh, (y+1)*sh
			x0, x1 := x*sw, (x+1)*sw
			for yy := y0 / dh; yy*dh < y1; yy++ {
				wy := uint64(min(y1, (yy+1)*dh) - max(y0, yy*dh))
				for xx := x0 / dw; xx*dw < x1; xx++ {
					w := wy * uint64(min(x1, (xx+1)*dw)-max(x0, xx*dw))
					i := src.PixOffset(sr.Min.X+xx, sr.Min.Y+yy)
					pa := uint64(src.Pix[i+3]) * w
					r += uint64(src.Pix[i]) * pa
					g += uint64(src.Pix[i+1]) * pa
					b += uint64(src.Pix[i+2]) * pa
					a += pa
					area += w
				}
			}
			o := dest.PixOffset(dr.Min.X+x, dr.Min.Y+y)
			if a == 0 {
				dest.Pix[o], dest.Pix[o+1], dest.Pix[o+2], dest.Pix[o+3] = 0, 0, 0, 0
				continue
			}
			dest.Pix[o] = uint8(r / a)
			dest.Pix[o+1] = uint8(g / a)
			dest.Pix[o+2] = uint8(b / a)
			dest.Pix[o+3] = uint8(a / area)
		}
	}
	return nil
}
