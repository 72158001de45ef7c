package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
)

// form is a mode/depth/channel count combination.
type form struct {
	Mode, Depth, Channels int
}

func (f form) String() string { return fmt.Sprintf("m%dd%dc%d", f.Mode, f.Depth, f.Channels) }

var forms = []form{
	{3, 8, 3}, {3, 8, 4}, {3, 8, 5}, {3, 16, 3}, {3, 16, 4}, {3, 16, 6}, {3, 32, 3}, {3, 32, 4}, {3, 32, 5},
	{1, 8, 1}, {1, 8, 2}, {1, 8, 3}, {1, 16, 1}, {1, 16, 2}, {1, 16, 3}, {1, 32, 1}, {1, 32, 2}, {1, 32, 3},
	{4, 8, 4}, {4, 8, 5}, {4, 8, 6}, {4, 16, 4}, {4, 16, 5}, {4, 16, 7},
	{2, 8, 1}, {2, 8, 2}, {0, 1, 1}, {0, 1, 2},
}

// plane makes the samples of a plane; the kind decides how compressible it is.
func plane(kind, w, h, depth, seed int) []byte {
	rb := psdw.RowBytes(w, depth)
	b := make([]byte, rb*h)
	for y := 0; y < h; y++ {
		for x := 0; x < rb; x++ {
			var v byte
			switch kind {
			case 0: // all different in both directions
				v = byte(x*37 + y*101 + seed*59 + (x*y)%7 + 1)
			case 1: // constant rows
				v = byte(y*83 + seed*31 + 5)
			case 2: // runs and literals alternate
				if (x/5+y)%2 == 0 {
					v = byte(seed + y)
				} else {
					v = byte(x*x + seed*7 + y*3)
				}
			case 3: // extremes
				v = []byte{0, 0xff, 0x80, 0x7f, 1}[(x+2*y+seed)%5]
			}
			b[y*rb+x] = v
		}
	}
	return b
}

const kinds = 4

func newDoc(f form, w, h, comp int, psb bool, kind int) *psdw.Doc {
	d := &psdw.Doc{PSB: psb, W: w, H: h, Channels: f.Channels, Depth: f.Depth, Mode: f.Mode, Comp: comp, Loc: psdw.LocEmpty}
	for i := 0; i < f.Channels; i++ {
		d.Planes = append(d.Planes, plane(kind, w, h, f.Depth, i+1))
	}
	if f.Mode == 2 {
		d.ModeData = make([]byte, 768)
		for i := range d.ModeData {
			d.ModeData[i] = byte(i*7 + i/256*3)
		}
	}
	return d
}

func be32(vs ...uint32) []byte {
	var b bytes.Buffer
	for _, v := range vs {
		binary.Write(&b, binary.BigEndian, v)
	}
	return b.Bytes()
}

// stdLayer is a layer with image data.
func stdLayer(f form, r psdw.Rect, comp, kind, seed int, alpha bool) psdw.Layer {
	l := psdw.Layer{Rect: r, BlendMode: "norm", Opacity: 255, Name: fmt.Sprint("L", seed)}
	if alpha {
		l.Chans = append(l.Chans, psdw.Chan{ID: -1, Comp: comp, Data: plane(kind, r.W(), r.H(), f.Depth, seed+50)})
	}
	for i := 0; i < psdref.ModeChannels(f.Mode); i++ {
		l.Chans = append(l.Chans, psdw.Chan{ID: int16(i), Comp: comp, Data: plane(kind, r.W(), r.H(), f.Depth, seed+i)})
	}
	return l
}

// decodeDoc decodes and compares with the document.
func decodeDoc(c *mc.Case, d *psdw.Doc, o *psd.DecodeOptions) *psd.PSD {
	if !d.Representable() {
		c.Skip()
	}
	b, lo := d.Write()
	r := bytes.NewReader(b)
	p, read, err := psd.Decode(r, o)
	if err != nil {
		c.Detail("file: % x", clip(b))
		c.Fail("decode error: %v", err)
	}
	opt := psdref.Opt{}
	want := lo.End
	if o != nil {
		opt.NoLayerImage, opt.NoMerged = o.SkipLayerImage, o.SkipMergedImage
		if o.SkipMergedImage {
			want = lo.LayersEnd
		}
	}
	if err := psdref.CheckDoc(d, p, opt); err != nil {
		c.Detail("file: % x", clip(b))
		c.Fail("%v", err)
	}
	if d.Comp != psdw.ZIP && d.Comp != psdw.ZIPPred || opt.NoMerged {
		if read != want {
			c.Detail("file: % x", clip(b))
			c.Fail("reported %d bytes read, want %d", read, want)
		}
	}
	c.Validated(1)
	c.ObsBytes(p.Data)
	return p
}

func clip(b []byte) []byte {
	if len(b) > 3000 {
		return b[:3000]
	}
	return b
}

func ints(a, b int) []int {
	var r []int
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}
