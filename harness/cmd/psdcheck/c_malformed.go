package main

import (
	"bytes"
	"fmt"
	"image"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

// use touches everything a program can read from a decoded document.
func use(p *psd.PSD) {
	walkImage(p.Picker)
	p.Config.Palette()
	for i := 0; i < len(p.Channel); i++ {
		walkImage(p.Channel[i].Picker)
	}
	useLayers(p.Layer)
}

func useLayers(ls []psd.Layer) {
	for i := range ls {
		l := &ls[i]
		_ = l.String()
		_, _, _, _, _ = l.Visible(), l.Folder(), l.FolderIsOpen(), l.HasImage(), l.TransparencyProtected()
		_ = l.BlendMode.String()
		if l.HasImage() {
			for _, ch := range l.Channel {
				walkImage(ch.Picker)
			}
		}
		useLayers(l.Layer)
	}
}

func walkImage(m image.Image) {
	if m == nil {
		return
	}
	m.ColorModel()
	r := m.Bounds()
	if r.Empty() {
		return
	}
	for _, pt := range []image.Point{r.Min, {r.Max.X - 1, r.Max.Y - 1}, {r.Min.X, r.Max.Y - 1}, {r.Max.X - 1, r.Min.Y}} {
		m.At(pt.X, pt.Y).RGBA()
	}
	if r.Dx() < 64 && r.Dy() < 64 {
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.At(x, y).RGBA()
			}
		}
	}
}

// tryDecode decodes arbitrary bytes and uses the result; every panic is a violation.
func tryDecode(c *mc.Case, b []byte, what func() string, full bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Detail("file: % x", clip(b))
			c.Fail("%s: panic: %v", what(), r)
		}
	}()
	p, n, err := psd.Decode(bytes.NewReader(b), nil)
	if err == nil {
		if p == nil {
			c.Fail("%s: neither a document nor an error", what())
		}
		use(p)
	} else if p != nil {
		c.Fail("%s: a document was returned together with error %v", what(), err)
	}
	if n < 0 {
		c.Fail("%s: %d bytes read", what(), n)
	}
	c.Obs(err == nil)
	c.Validated(1)
	if !full {
		return
	}
	if cfg, _, err := psd.DecodeConfig(bytes.NewReader(b)); err == nil {
		cfg.Palette()
	}
	if p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipLayerImage: true, SkipMergedImage: true}); err == nil {
		use(p)
	}
	if m, _, err := image.Decode(bytes.NewReader(b)); err == nil {
		walkImage(m)
	}
	image.DecodeConfig(bytes.NewReader(b))
	c.Validated(4)
}

// justDecode decodes b without looking at the result.
func justDecode(c *mc.Case, b []byte, o *psd.DecodeOptions, what func() string) (p *psd.PSD, err error) {
	defer func() {
		if e := recover(); e != nil {
			c.Detail("file: % x", clip(b))
			c.Fail("%s: panic: %v", what(), e)
		}
	}()
	p, _, err = psd.Decode(bytes.NewReader(b), o)
	c.Validated(1)
	return p, err
}

// moreDocs are documents whose optional blocks have unusual lengths.
func malformedDocs() []*psdw.Doc {
	ds := richDocs()
	for _, d := range ds {
		if d.PSB && d.Comp == psdw.RLE {
			d.Comp = psdw.Raw
		}
		for i := range d.Layers {
			for k := range d.Layers[i].Chans {
				// the 32 bit scanline sizes of PSB files may ask for a lot of memory, see "packbits"
				if c := &d.Layers[i].Chans[k]; d.PSB && c.Comp == psdw.RLE {
					c.Comp = psdw.ZIP
				}
			}
			// so that a shifted mask never covers a huge area
			if m := &d.Layers[i].Mask; m.Present && m.HasReal {
				m.UD, m.VD, m.UF, m.VF = 0, 0, 0, 0
				m.RealRect = psdw.Rect{T: 0, L: 0, B: 1, R: 1}
			}
		}
	}
	d := newDoc(form{1, 8, 1}, 2, 2, psdw.Raw, true, 0)
	d.Resources = []psdw.Res{{ID: 0x41d, Data: be32(5, 0)}, {ID: 0x417, Data: []byte{0, 1}}}
	l := stdLayer(form{1, 8, 1}, psdw.Rect{T: 0, L: 0, B: 2, R: 2}, 2, 0, 1, true)
	l.Infos = []psdw.Info{{Key: "lsdk", Data: psdw.SectionDivider(0, "norm", 1)}, {Key: "luni", Data: psdw.UnicodeName("ab")}}
	d.Layers = []psdw.Layer{l}
	d.Loc = psdw.LocLayr
	ds = append(ds, d)
	return ds
}

// maxSide is the length of the longest side that the format allows.
const maxSide = 300000

var extremes = []int32{-1 << 31, -1<<31 + 1, -300001, -300000, -150001, -1, 0, 1, 3, 150000, 300000, 300001, 1 << 24, 1<<30 + 7, 1<<31 - 2, 1<<31 - 1}

func init() {
	ds := malformedDocs()
	type base struct {
		b     []byte
		guard map[int]bool
		wide  map[int]bool
	}
	var bases []base
	for _, d := range ds {
		g := map[int]bool{}
		for o := range d.Fields32() {
			g[o] = true
		}
		b, _ := d.Write()
		bases = append(bases, base{b, g, d.Fields64()})
	}
	// values a byte may take: sizes stay below what makes the decoder reserve a lot of memory
	vals := func(bs base, o int, all bool) []int {
		if o >= 14 && o < 22 && (o-14)%4 < 3 {
			return []int{1} // width and height
		}
		var vs []int
		if bs.guard[o] {
			if bs.wide[o] {
				return []int{0x80, 0xff} // the upper half of a 64 bit size: negative
			}
			return nil
		}
		if bs.wide[o-1] || bs.wide[o-2] || bs.wide[o-3] {
			return nil
		}
		if bs.guard[o-1] {
			return []int{1}
		}
		if all {
			for v := 0; v < 256; v++ {
				vs = append(vs, v)
			}
			return vs
		}
		v := int(bs.b[o])
		return []int{0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, (v + 1) & 0xff, (v - 1) & 0xff, '8', v ^ 1}
	}
	reg("C10",
		mc.Scenario{Name: "byte-changes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			di := c.Choose(len(bases), "doc")
			bs := bases[di]
			o := c.Choose(len(bs.b), "offset")
			b := append([]byte{}, bs.b...)
			vs := vals(bs, o, c.Thorough() || di == 1 || di == 7 || di >= 10)
			for _, v := range vs {
				b[o] = byte(v)
				tryDecode(c, b, func() string { return fmt.Sprintf("byte %d of document %d set to %#x", o, di, v) }, v < 8 || v > 250)
			}
			c.Visited(len(vs), len(vs))
		}},
		mc.Scenario{Name: "cuts-and-insertions", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			di := c.Choose(len(bases), "doc")
			bs := bases[di]
			o := 30 + c.Choose(len(bs.b)-30, "offset")
			// removing or inserting bytes shifts sizes: only in front of no 32 bit field's low bytes
			for n := 1; n <= 4 && o+n <= len(bs.b); n++ {
				b := append(append([]byte{}, bs.b[:o]...), bs.b[o+n:]...)
				tryDecode(c, b, func() string { return fmt.Sprintf("%d bytes removed at %d of document %d", n, o, di) }, true)
			}
			for n := 0; n <= o; n += 1 + o/8 {
				tryDecode(c, bs.b[:o-n], func() string { return fmt.Sprintf("document %d cut at %d", di, o-n) }, true)
			}
		}},
		mc.Scenario{Name: "dimension-limits", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// the format ends at 30000 and, for PSB, at 300000 pixels
			psb := c.Bool("psb")
			max := 30000
			if psb {
				max = 300000
			}
			other := max
			if c.Bool("small") {
				other = 1
			}
			v := mc.Pick(c, "value", []int{0, 1, 30000, 30001, 32768, 65536, 299999, 300000, 300001, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})
			wide := c.Bool("width")
			d := newDoc(form{1, 8, 1}, 1, 1, 0, psb, 0)
			b, _ := d.Write()
			wh := be32(uint32(other), uint32(v)) // height, width
			if !wide {
				wh = be32(uint32(v), uint32(other))
			}
			copy(b[14:], wh)
			cfg, n, err := psd.DecodeConfig(bytes.NewReader(b))
			c.Validated(1)
			c.Obs(v, wide, err == nil)
			if v < 1 || v > max {
				if err == nil {
					c.Fail("PSB %v: a document with side %d was accepted", psb, v)
				}
				if p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true}); err == nil || p != nil {
					c.Fail("PSB %v: a document with side %d was decoded", psb, v)
				}
				if _, _, err := psd.DecodeConfig(bytes.NewReader(b[:30])); err == nil {
					c.Fail("PSB %v: a header with side %d was accepted", psb, v)
				}
				return
			}
			want := image.Rect(0, 0, other, v)
			if wide {
				want = image.Rect(0, 0, v, other)
			}
			if err != nil || cfg.Rect != want || n == 0 {
				c.Fail("PSB %v, side %d: %v, rectangle %v, want %v", psb, v, err, cfg.Rect, want)
			}
		}},
		mc.Scenario{Name: "layer-extents", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// rectangles of layers and masks with extreme coordinates; their pixels, if any, take
			// little memory or can not be had at all
			where := c.Choose(4, "where") // layer, mask, real mask, layer without channels
			t := c.Choose(len(extremes), "top")
			l := c.Choose(len(extremes), "left")
			psb := c.Bool("psb")
			f := form{1, 8, 1}
			n := 0
			for _, bottom := range extremes {
				for _, right := range extremes {
					r := psdw.Rect{T: extremes[t], L: extremes[l], B: bottom, R: right}
					w, h := r.W(), r.H()
					if w <= maxSide && h <= maxSide && w*h > 1<<22 {
						continue // possible, with gigabytes of pixels
					}
					for _, comp := range []int{psdw.Raw, psdw.RLE, psdw.ZIP, psdw.ZIPPred} {
						d := newDoc(f, 2, 2, 0, psb, 0)
						d.Loc = psdw.LocMain
						ly := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, false)
						ly.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: 0, L: 0, B: 1, R: 1}, HasReal: true, RealRect: psdw.Rect{T: 0, L: 0, B: 1, R: 1}}
						ch := psdw.Chan{Comp: comp, Empty: 2}
						if comp == psdw.Raw {
							ch.Empty = 1
						}
						switch where {
						case 0:
							ly.Rect = r
							ly.Chans = []psdw.Chan{ch}
						case 1:
							ly.Mask.Rect = r
							ch.ID = -2
							ly.Chans = append(ly.Chans, ch)
						case 2:
							ly.Mask.RealRect = r
							ch.ID = -3
							ly.Chans = append(ly.Chans, ch)
						case 3:
							ly.Rect = r
							ly.Chans = nil
						}
						d.Layers = []psdw.Layer{ly}
						b, _ := d.Write()
						what := func() string { return fmt.Sprintf("rectangle %v, compression %d", r, comp) }
						if comp == 0 && !(w > maxSide || h > maxSide) {
							// the pixels that the decoder made up can be looked at
							tryDecode(c, b, what, w*h < 1<<12)
							n++
							continue
						}
						tooLong := w > maxSide && h > 0 || h > maxSide && w > 0
						p, err := justDecode(c, b, nil, what)
						if tooLong && err == nil {
							c.Fail("%s: decoded, although no document has sides of that length", what())
						}
						if (p == nil) == (err == nil) {
							c.Fail("%s: document %v, error %v", what(), p != nil, err)
						}
						if _, err := justDecode(c, b, &psd.DecodeOptions{SkipLayerImage: true}, what); err != nil {
							c.Fail("%s: without layer images: %v", what(), err)
						}
						n++
					}
				}
			}
			c.Visited(n, n)
		}},
		mc.Scenario{Name: "header-limits", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every value of the signature's bytes, the version, the channel count and the depth
			d := newDoc(form{3, 8, 3}, 1, 1, 0, c.Bool("psb"), 0)
			b, _ := d.Write()
			field := c.Choose(7, "field")
			lo := 0
			ok := func(v int) bool { return false }
			switch {
			case field < 4:
				orig := int(b[field])
				ok = func(v int) bool { return v == orig }
			case field == 4:
				orig := int(b[5])
				ok = func(v int) bool { return v == orig }
			case field == 5:
				ok = func(v int) bool { return v >= 1 && v <= 56 }
			case field == 6:
				ok = func(v int) bool { return v == 1 || v == 8 || v == 16 || v == 32 }
			}
			n := 256
			if field >= 4 {
				n = 65536
				lo = map[int]int{4: 4, 5: 12, 6: 22}[field]
			}
			for v := 0; v < n; v++ {
				h := append([]byte{}, b...)
				if n == 256 {
					h[field] = byte(v)
				} else {
					h[lo], h[lo+1] = byte(v>>8), byte(v)
				}
				if field == 4 && (v == 1 || v == 2) && !ok(v) {
					continue // the other file type: a different layout
				}
				cfg, _, err := psd.DecodeConfig(bytes.NewReader(h))
				if (err == nil) != ok(v) {
					c.Fail("header field %d = %d: error %v", field, v, err)
				}
				if err == nil && (field == 5 && cfg.Channels != v || field == 6 && cfg.Depth != v) {
					c.Fail("header field %d = %d: reported as %d channels, depth %d", field, v, cfg.Channels, cfg.Depth)
				}
				if err != nil {
					if p, _, err := psd.Decode(bytes.NewReader(h), nil); err == nil || p != nil {
						c.Fail("header field %d = %d: document decoded", field, v)
					}
				}
			}
			c.Validated(n)
		}},
		mc.Scenario{Name: "header-grid", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every colour mode, depth, channel count and palette size; well formed otherwise
			mode := mc.Pick(c, "mode", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x7fff, 0x8000, 0xffff})
			depth := mc.Pick(c, "depth", []int{1, 8, 16, 32, 0, 2, 64})
			ch := mc.Pick(c, "channels", []int{0, 1, 2, 3, 4, 5, 6, 56, 57})
			layers := c.Choose(6, "layers")
			d := &psdw.Doc{PSB: c.Bool("psb"), W: 9, H: 2, Channels: ch, Depth: depth, Mode: mode, Loc: psdw.LocMain}
			nd := mc.Pick(c, "modedata", []int{0, 3, 766, 768, 1000})
			d.ModeData = make([]byte, nd)
			switch c.Choose(6, "resources") {
			case 1:
				d.Resources = []psdw.Res{{ID: 0x41d, Data: []byte{0, 0, 0}}}
			case 2:
				d.Resources = []psdw.Res{{ID: 0x41d, Data: be32(1, 0)}}
			case 3:
				d.Resources = []psdw.Res{{ID: 0x417, Data: nil}}
			case 4:
				d.Resources = []psdw.Res{{ID: 0x417, Data: []byte{1, 2, 3}}}
			case 5:
				d.Resources = []psdw.Res{{ID: 0x41d, Data: nil}}
			}
			for i := 0; i < ch; i++ {
				d.Planes = append(d.Planes, plane(0, 9, 2, depth, i))
			}
			if layers > 0 {
				l := psdw.Layer{Rect: psdw.Rect{T: 0, L: 0, B: 2, R: 3}, BlendMode: "norm", Opacity: 255}
				for _, id := range [][]int16{nil, {0}, {-1, 0, 1, 2, 3, 4, 5}, {0, 0, -1, -1}, {-1}, {1, 300, -4}}[layers] {
					l.Chans = append(l.Chans, psdw.Chan{ID: id, Data: plane(0, 3, 2, depth, 1)})
				}
				d.Layers = []psdw.Layer{l}
			}
			b, _ := d.Write()
			tryDecode(c, b, func() string { return "document" }, true)
		}},
		mc.Scenario{Name: "blocks", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// the blocks the decoder interprets, with every length
			key := mc.Pick(c, "key", []string{"luni", "lsct", "lsdk", "clbl", "zzzz", "Lr16", "Lr32", "Layr"})
			n := c.Choose(21, "len")
			fill := mc.Pick(c, "fill", []int{0, 1, 2, 3, 0xff})
			where := c.Choose(3, "where")
			f := form{3, 8, 3}
			d := newDoc(f, 2, 2, 0, c.Bool("psb"), 0)
			d.Loc = psdw.LocMain
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(fill)
				if (key == "luni" || key == "lsct" || key == "lsdk") && i < 3 {
					data[i] = 0
				}
				if len(key) == 4 && key[0] == 'L' && i >= 2 {
					data[i] = 0
				}
			}
			l := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, true)
			in := []psdw.Info{{Key: key, Data: data, Pad: c.Choose(2, "pad")}}
			switch where {
			case 0:
				l.Infos = in
			case 1:
				d.Infos = in
				d.HasGlobal = true
			case 2:
				l.Infos = in
				d.Layers = append(d.Layers, stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, true))
			}
			d.Layers = append(d.Layers, l)
			b, _ := d.Write()
			tryDecode(c, b, func() string { return "document" }, true)
		}},
		mc.Scenario{Name: "known-resources", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every documented image resource, with short contents
			i := c.Choose(100, "id")
			id := 1000 + i
			if i >= 90 {
				id = []int{2000, 2997, 2998, 2999, 3000, 4000, 7000, 7001, 8000, 10000}[i-90]
			}
			f := mc.Pick(c, "form", []form{{1, 8, 1}, {3, 8, 4}, {2, 8, 1}, {4, 16, 5}})
			d := newDoc(f, 2, 1, 0, false, 0)
			sig := mc.Pick(c, "sig", []string{"8BIM", "MeSa"})
			for n := 0; n < 9; n++ {
				for _, fill := range []byte{0, 1, 0x7f, 0xff} {
					data := bytes.Repeat([]byte{fill}, n)
					d.Resources = []psdw.Res{{Sig: sig, ID: id, Name: "a"[:n&1], Data: data}}
					b, _ := d.Write()
					tryDecode(c, b, func() string { return fmt.Sprintf("resource %d with %d bytes %d", id, n, fill) }, true)
				}
			}
			c.Visited(36, 36)
		}},
		mc.Scenario{Name: "known-infos", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every documented additional layer information block, with short contents
			key := mc.Pick(c, "key", []string{
				"SoCo", "GdFl", "PtFl", "brit", "levl", "curv", "expA", "vibA", "hue ", "hue2", "blnc", "blwh", "phfl", "mixr", "clrL", "nvrt",
				"post", "thrs", "grdm", "selc", "lrFX", "tySh", "luni", "lyid", "lfx2", "Patt", "Pat2", "Pat3", "Anno", "clbl", "infx", "knko",
				"lspf", "lclr", "fxrp", "lsct", "brst", "vmsk", "vsms", "TySh", "ffxi", "lnsr", "shpa", "shmd", "lyvr", "tsly", "lmgm", "vmgm",
				"plLd", "lnkD", "lnk2", "lnk3", "CgEd", "Txt2", "pths", "anFX", "FMsk", "SoLd", "vstk", "vscg", "sn2P", "vogk", "Mtrn", "Mt16",
				"Mt32", "LMsk", "FXid", "FEid", "PxSD", "Alph", "lsdk", "SoLE", "artb", "artd", "abdd", "cinf", "extd", "pixd"})
			d := newDoc(form{3, 8, 3}, 2, 1, 0, c.Bool("psb"), 0)
			where := c.Choose(2, "where")
			l := stdLayer(form{3, 8, 3}, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, true)
			for n := 0; n < 9; n++ {
				for _, fill := range []byte{0, 1, 0x7f, 0xff} {
					data := bytes.Repeat([]byte{fill}, n)
					if key == "luni" || key == "lsct" || key == "lsdk" {
						for i := 0; i < n && i < 3; i++ {
							data[i] = 0
						}
					}
					in := []psdw.Info{{Key: key, Data: data}}
					if where == 0 {
						l.Infos = in
					} else {
						d.Infos = in
						d.HasGlobal = true
					}
					d.Layers = []psdw.Layer{l}
					b, _ := d.Write()
					tryDecode(c, b, func() string { return fmt.Sprintf("block %q with %d bytes %d", key, n, fill) }, true)
				}
			}
			c.Visited(36, 36)
		}},
		mc.Scenario{Name: "size-fields", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every 32 bit field off by a little, or zero
			di := c.Choose(len(bases), "doc")
			bs := bases[di]
			o := c.Choose(len(bs.b)-4, "offset")
			if !bs.guard[o] || o == 14 || o == 18 {
				c.Skip()
			}
			b := append([]byte{}, bs.b...)
			v := int(b[o+2])<<8 | int(b[o+3])
			for _, w := range []int{0, 1, 2, 3, v - 4, v - 3, v - 2, v - 1, v + 1, v + 2, v + 3, v + 4, v + 8, v * 2, 0xfffe, 0xffff} {
				if w < 0 {
					continue
				}
				b[o+2], b[o+3] = byte(w>>8), byte(w)
				tryDecode(c, b, func() string { return fmt.Sprintf("32 bit field at %d of document %d set to %d", o, di, w) }, true)
			}
			c.Visited(16, 16)
		}},
		mc.Scenario{Name: "two-byte-changes", Bound: -1, Quick: false, Fn: func(c *mc.Case) {
			di := mc.Pick(c, "doc", []int{0, 3, 5, len(bases) - 3, len(bases) - 1})
			bs := bases[di]
			o := c.Choose(len(bs.b), "offset")
			vs := vals(bs, o, false)
			b := append([]byte{}, bs.b...)
			n := 0
			for o2 := o + 1; o2 < len(b) && o2 < o+120; o2++ {
				for _, v2 := range vals(bs, o2, false) {
					b[o2] = byte(v2)
					for _, v := range vs {
						b[o] = byte(v)
						tryDecode(c, b, func() string {
							return fmt.Sprintf("bytes %d and %d of document %d set to %#x and %#x", o, o2, di, v, v2)
						}, false)
						n++
					}
					b[o] = bs.b[o]
				}
				b[o2] = bs.b[o2]
			}
			c.Visited(n, n)
		}},
		mc.Scenario{Name: "packbits", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every PackBits row of up to 4 bytes from a menu, for several row widths
			menu := []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff}
			w := c.Choose(5, "width") // 0 is not a document
			if w == 0 {
				c.Skip()
			}
			n := c.Choose(5, "len")
			row := make([]byte, n)
			for i := range row {
				row[i] = mc.Pick(c, "b", menu)
			}
			for _, first := range []bool{true, false} {
				good := psdw.PackRow(make([]byte, w))
				packed := [][]byte{row, good}
				if !first {
					packed = [][]byte{good, row}
				}
				d := newDoc(form{1, 8, 1}, w, 2, psdw.RLE, c.Bool("psb"), 0)
				d.Packed = packed
				b, _ := d.Write()
				tryDecode(c, b, func() string { return "document" }, false)
			}
		}},
	)
}
