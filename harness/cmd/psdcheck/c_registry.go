package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"reflect"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
)

// registryCase decodes a document through the standard library's registry.
func registryCase(c *mc.Case, d *psdw.Doc, bad bool) {
	b, _ := d.Write()
	want := "psd"
	if d.PSB {
		want = "psb"
	}
	m, name, err := image.Decode(bytes.NewReader(b))
	if err != nil || name != want {
		c.Fail("image.Decode: format %q error %v", name, err)
	}
	cfg, name, err := image.DecodeConfig(bytes.NewReader(b))
	if err != nil || name != want {
		c.Fail("image.DecodeConfig: format %q error %v", name, err)
	}
	if cfg.Width != d.W || cfg.Height != d.H {
		c.Fail("configuration says %dx%d, the document is %dx%d", cfg.Width, cfg.Height, d.W, d.H)
	}
	if m.Bounds() != image.Rect(0, 0, d.W, d.H) {
		c.Fail("bounds %v", m.Bounds())
	}
	p, _, err := psd.Decode(bytes.NewReader(b), nil)
	if err != nil {
		c.Fail("Decode: %v", err)
	}
	if e := psdref.CheckMerged(d, p); e != nil {
		c.Fail("%v", e)
	}
	probe := []color.Color{color.White, color.Black, color.Transparent, color.NRGBA{1, 2, 3, 4}, color.NRGBA{200, 100, 50, 128}, color.RGBA64{0x1234, 0x2345, 0x3456, 0x4567}}
	mm := m.ColorModel()
	for _, pc := range probe {
		x, y := cfg.ColorModel.Convert(pc), mm.Convert(pc)
		if !psdref.SameColor(x, y) {
			c.Fail("the configuration's color model converts %v to %v, the image's to %v", pc, x, y)
		}
	}
	var typ reflect.Type
	for y := 0; y < d.H; y++ {
		for x := 0; x < d.W; x++ {
			at := m.At(x, y)
			if !psdref.SameColor(at, p.Picker.At(x, y)) {
				c.Fail("pixel %d,%d: %v, want %v", x, y, at, p.Picker.At(x, y))
			}
			if typ == nil {
				typ = reflect.TypeOf(at)
			}
			if reflect.TypeOf(at) != typ {
				c.Fail("pixel %d,%d is a %T, another one a %v", x, y, at, typ)
			}
			if d.Mode == 2 {
				r0, g0, b0, a0 := at.RGBA()
				r1, g1, b1, a1 := mm.Convert(at).RGBA()
				if r0 != r1 || g0 != g1 || b0 != b1 || a0 != a1 {
					c.Fail("pixel %d,%d: %v is not a color of the palette", x, y, at)
				}
				continue
			}
			if cv := mm.Convert(at); !psdref.SameColor(cv, at) {
				c.Fail("pixel %d,%d: the image's color model changes %#v to %#v", x, y, at, cv)
			}
		}
	}
	if d.Mode != 2 {
		for _, pc := range probe {
			if t := reflect.TypeOf(mm.Convert(pc)); t != typ {
				c.Fail("the color model yields %v but pixels are %v", t, typ)
			}
		}
	}
	// drawing the image with the standard library gives the same colors
	dst := image.NewRGBA64(m.Bounds())
	draw.Draw(dst, dst.Rect, m, image.Point{}, draw.Src)
	for y := 0; y < d.H; y++ {
		for x := 0; x < d.W; x++ {
			r0, g0, b0, a0 := m.At(x, y).RGBA()
			if r0 > a0 || g0 > a0 || b0 > a0 || a0 > 0xffff {
				c.Fail("pixel %d,%d: %#v is not premultiplied: %d %d %d %d", x, y, m.At(x, y), r0, g0, b0, a0)
			}
			q := dst.RGBA64At(x, y)
			if uint32(q.R) != r0 || uint32(q.G) != g0 || uint32(q.B) != b0 || uint32(q.A) != a0 {
				c.Fail("pixel %d,%d: drawn as %v, want %d %d %d %d", x, y, q, r0, g0, b0, a0)
			}
		}
	}
	c.Validated(1)
	c.ObsBytes(dst.Pix)
}

func init() {
	reg("C13",
		mc.Scenario{Name: "registry-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", forms)
			w := mc.Pick(c, "w", []int{1, 2, 5, 8, 9})
			d := newDoc(f, w, mc.Pick(c, "h", []int{1, 3, 4}), c.Choose(4, "comp"), c.Bool("psb"), c.Choose(kinds, "kind"))
			if f.Mode == 2 && c.Bool("transparent") {
				d.Resources = []psdw.Res{{ID: 0x417, Data: []byte{0, byte(d.Planes[0][0])}}}
			}
			switch c.Choose(3, "ids") {
			case 1:
				d.Resources = append(d.Resources, psdw.Res{ID: 0x41d, Data: be32(3)})
			case 2:
				d.Resources = append(d.Resources, psdw.Res{ID: 0x41d, Data: be32(0)})
			}
			registryCase(c, d, false)
		}},
		mc.Scenario{Name: "registry-layers", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// layers do not disturb, whatever their pixel data is
			d := *docs[c.Choose(len(docs), "doc")]
			d.Layers = append([]psdw.Layer{}, d.Layers...)
			d.Comp = c.Choose(4, "comp")
			if len(d.Layers) > 0 && c.Bool("odd") {
				l := d.Layers[0]
				l.Chans = append([]psdw.Chan{}, l.Chans...)
				l.Chans[0].Comp = 7 // not a known method
				d.Layers[0] = l
				// only the merged image is asked for
				b, _ := d.Write()
				m, _, err := image.Decode(bytes.NewReader(b))
				if err != nil {
					c.Fail("image.Decode: %v", err)
				}
				_ = m
				c.Validated(1)
				return
			}
			registryCase(c, &d, false)
		}},
		mc.Scenario{Name: "registry-unsupported", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// what cannot be decoded is refused by both entry points
			f := mc.Pick(c, "form", []form{{3, 1, 3}, {4, 32, 4}, {4, 1, 4}, {1, 1, 1}, {9, 8, 3}, {7, 8, 3}, {8, 8, 1}, {3, 8, 2}, {4, 8, 3}, {5, 8, 1}})
			d := newDoc(f, 3, 2, c.Choose(4, "comp"), c.Bool("psb"), 0)
			b, _ := d.Write()
			if _, _, err := image.Decode(bytes.NewReader(b)); err == nil {
				c.Fail("image.Decode accepts it")
			}
			if _, _, err := image.DecodeConfig(bytes.NewReader(b)); err == nil {
				c.Fail("image.DecodeConfig accepts it")
			}
			c.Validated(2)
		}},
		mc.Scenario{Name: "registry-prefix", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// only PSD and PSB signatures are claimed
			b, _ := newDoc(form{3, 8, 3}, 2, 2, 0, false, 0).Write()
			i := c.Choose(6, "pos")
			v := c.Choose(256, "value")
			same := b[i] == byte(v)
			psb := i == 5 && v == 2
			b = append([]byte{}, b...)
			b[i] = byte(v)
			_, name, err := image.DecodeConfig(bytes.NewReader(b))
			switch {
			case same && (err != nil || name != "psd"):
				c.Fail("%q %v", name, err)
			case psb && name != "psb":
				c.Fail("%q %v", name, err)
			case !same && !psb && err == nil:
				c.Fail("accepted as %q", name)
			}
			c.Validated(1)
		}},
	)
	reg("C04",
		mc.Scenario{Name: "large-blocks", Bound: -1, Quick: true, Workers: 2, Fn: func(c *mc.Case) {
			n := mc.Pick(c, "size", []int{65535, 65536, 1 << 20, 1<<20 + 1, 1<<20 - 1, 3<<20 + 5})
			d := newDoc(form{1, 8, 1}, 1, 1, 0, c.Bool("psb"), 0)
			big := make([]byte, n)
			for i := range big {
				big[i] = byte(i*7 + i>>8 + i>>16)
			}
			d.Loc = psdw.LocMain
			switch c.Choose(3, "where") {
			case 0:
				d.Resources = []psdw.Res{{ID: 0x3ed, Data: big}, {ID: 0x3ee, Data: []byte{1}}}
			case 1:
				l := stdLayer(form{1, 8, 1}, rects[0], 0, 0, 1, true)
				l.Infos = []psdw.Info{{Key: mc.Pick(c, "key", []string{"Patt", "FMsk"}), Data: big}, {Key: "zzzz", Data: []byte{1}}}
				d.Layers = []psdw.Layer{l}
			case 2:
				d.Infos = []psdw.Info{{Key: mc.Pick(c, "key", []string{"Patt", "FMsk"}), Data: big}, {Key: "zzzz", Data: []byte{1}}}
			}
			if c.Bool("cut") {
				b, _ := d.Write()
				k := bytes.Index(b, big[:64])
				for _, m := range []int{k, k + 1, k + n/2, k + n - 1} {
					if _, _, err := psd.Decode(bytes.NewReader(b[:m]), nil); err == nil {
						c.Fail("cut at %d of %d: no error", m, len(b))
					}
				}
				return
			}
			decodeDoc(c, d, nil)
		}},
	)
	_ = fmt.Sprint
}
