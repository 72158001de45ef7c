package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
)

// layered forms: documents that can have layers.
var layerForms = []form{{3, 8, 3}, {3, 8, 4}, {3, 16, 3}, {3, 32, 3}, {1, 8, 1}, {1, 8, 2}, {1, 16, 1}, {1, 32, 1}, {4, 8, 4}, {4, 8, 5}, {4, 16, 4}}

var rects = []psdw.Rect{
	{0, 0, 2, 3}, {0, 0, 1, 1}, {-5, -3, -1, 4}, {1, 2, 1, 6}, {1, 2, 6, 2}, {0, 0, 0, 0}, {-2147483, -40000, -2147481, -39997},
	{3, 1, 11, 10}, {100, 200, 117, 209}, {0, -1, 33, 16},
}

var locs = []int{psdw.LocMain, psdw.Loc16, psdw.Loc32, psdw.LocLayr}

var blendKeys = []string{
	"pass", "norm", "diss", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl", "over", "sLit", "hLit",
	"vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum ", "abcd",
}

func allComps(c *mc.Case, label string) int { return c.Choose(4, label) }

// locDev picks where the layers are stored, the main section being the default.
func locDev(c *mc.Case) int { return mc.DevPick(c, "loc", locs) }

func layerDoc(f form, psb bool, ls ...psdw.Layer) *psdw.Doc {
	d := newDoc(f, 2, 2, psdw.Raw, psb, 0)
	d.Loc = psdw.LocMain
	d.Layers = ls
	return d
}

func init() {
	reg("C02",
		mc.Scenario{Name: "layer-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", layerForms)
			r := mc.Pick(c, "rect", rects)
			comp := allComps(c, "comp")
			psb := c.Bool("psb")
			d := layerDoc(f, psb, stdLayer(f, r, comp, c.Choose(kinds, "kind"), 3, c.Bool("alpha")))
			d.Loc = mc.Pick(c, "loc", locs)
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "layer-dims", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", []form{{3, 8, 3}, {1, 16, 1}, {3, 32, 3}, {4, 16, 4}})
			comp := allComps(c, "comp")
			psb := c.Bool("psb")
			w := mc.Pick(c, "w", []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 127, 128, 129, 257})
			h := mc.Pick(c, "h", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 33})
			r := psdw.Rect{T: -3, L: 2, B: int32(h) - 3, R: int32(w) + 2}
			d := layerDoc(f, psb, stdLayer(f, r, comp, (w+h)%kinds, 3, true))
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "mixed-compression", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every channel of two layers has its own compression method and filler
			f := mc.Pick(c, "form", []form{{1, 8, 1}, {1, 16, 2}, {1, 32, 1}})
			a := stdLayer(f, psdw.Rect{T: -2, L: 1, B: 3, R: 4}, 0, 2, 3, true)
			b := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 4, R: 2}, 0, 0, 9, true)
			for _, l := range []*psdw.Layer{&a, &b} {
				for i := range l.Chans {
					l.Chans[i].Comp = c.Choose(4, "comp")
					l.Chans[i].Extra = mc.Pick(c, "extra", []int{0, 3})
				}
			}
			decodeDoc(c, layerDoc(f, c.Bool("psb"), a, b), nil)
		}},
		mc.Scenario{Name: "channel-sets", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every order of the channels, with and without transparency and masks
			f := mc.Pick(c, "form", []form{{3, 8, 3}, {1, 8, 1}, {4, 8, 4}, {1, 16, 1}})
			r := psdw.Rect{T: 1, L: 2, B: 4, R: 7}
			l := stdLayer(f, r, c.Choose(2, "comp"), 0, 3, false)
			l.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: -1, L: -2, B: 2, R: 2}, Color: 255, HasReal: true, RealRect: psdw.Rect{T: -4, L: -6, B: -1, R: -3}, RealColor: 9}
			ex := []int16{-1, -2, -3}
			for _, id := range ex {
				if c.Bool(fmt.Sprint("has", id)) {
					cr := l.ChanRect(id)
					l.Chans = append(l.Chans, psdw.Chan{ID: id, Comp: c.Choose(2, "comp"), Data: plane(0, cr.W(), cr.H(), f.Depth, int(id)+70)})
				}
			}
			// enumerate orders by repeated selection
			var out []psdw.Chan
			rest := l.Chans
			if len(rest) > 5 && !c.Thorough() {
				k := c.Choose(len(rest), "rot")
				out = append(append(out, rest[k:]...), rest[:k]...)
			} else {
				for len(rest) > 0 {
					k := c.Choose(len(rest), "ord")
					out = append(out, rest[k])
					rest = append(append([]psdw.Chan{}, rest[:k]...), rest[k+1:]...)
				}
			}
			l.Chans = out
			decodeDoc(c, layerDoc(f, c.Bool("psb"), l), nil)
		}},
		mc.Scenario{Name: "extra-channels", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// spot channels and channels of unknown meaning besides the colors
			f := mc.Pick(c, "form", layerForms)
			l := stdLayer(f, psdw.Rect{T: -1, L: 2, B: 3, R: 5}, c.Choose(4, "comp"), 0, 3, c.Bool("alpha"))
			n := psdref.ModeChannels(f.Mode)
			k := mc.Pick(c, "n", []int{1, 2, 5, 52})
			var ex []psdw.Chan
			for i := 0; i < k; i++ {
				id := int16(n + i)
				if i == 4 {
					id = 32767
				}
				ex = append(ex, psdw.Chan{ID: id, Comp: i % 4, Data: plane(i%kinds, 3, 4, f.Depth, i+70)})
			}
			if c.Bool("first") {
				l.Chans = append(ex, l.Chans...)
			} else {
				l.Chans = append(l.Chans, ex...)
			}
			decodeDoc(c, layerDoc(f, c.Bool("psb"), l, stdLayer(f, rects[0], 0, 0, 4, false)), nil)
		}},
		mc.Scenario{Name: "layer-extremes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", []form{{1, 8, 1}, {1, 16, 1}})
			wh := mc.Pick(c, "dim", [][2]int32{{30000, 1}, {1, 30000}, {300, 300}, {4097, 5}, {32769, 2}, {70000, 1}, {1, 70000}, {2, 65537}})
			psb := c.Bool("psb")
			kind := c.Choose(kinds, "kind")
			if psdw.RowBytes(int(wh[0]), f.Depth) > 60000 && !psb {
				c.Skip() // the packed length of a row has 16 bits
			}
			r := psdw.Rect{T: -3, L: 2, B: wh[1] - 3, R: wh[0] + 2}
			decodeDoc(c, layerDoc(f, psb, stdLayer(f, r, c.Choose(4, "comp"), kind, 3, true), stdLayer(f, rects[0], 0, 0, 4, false)), nil)
		}},
		mc.Scenario{Name: "empty-channels", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// channels without image data anywhere between channels that have some
			f := form{1, 8, 1}
			var ls []psdw.Layer
			for i := 0; i < 2; i++ {
				l := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 3, R: 3}, c.Choose(4, "comp"), 2, 3+i, true)
				for k := range l.Chans {
					l.Chans[k].Empty = c.Choose(3, "empty")
				}
				ls = append(ls, l)
			}
			nl := stdLayer(f, psdw.Rect{}, psdw.Raw, 0, 8, true)
			ls = append(ls, nl, psdw.Layer{BlendMode: "norm"})
			decodeDoc(c, layerDoc(f, c.Bool("psb"), ls...), nil)
		}},
		mc.Scenario{Name: "record-fields", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			l := stdLayer(f, rects[0], 0, 0, 3, false)
			switch c.Choose(4, "field") {
			case 0:
				l.Opacity = byte(c.Choose(256, "opacity"))
			case 1:
				l.Flags = byte(c.Choose(256, "flags"))
			case 2:
				l.BlendMode = mc.Pick(c, "blend", blendKeys)
			case 3:
				l.Clipping = mc.Pick(c, "clip", []byte{0, 1, 255, 128})
			}
			l.NoExtra = c.Bool("noextra")
			o := stdLayer(f, rects[1], 1, 0, 4, true)
			o.Opacity, o.Flags, o.Clipping, o.BlendMode = 7, 10, 1, "mul "
			ls := []psdw.Layer{o, l, o}
			if c.Bool("single") {
				ls = []psdw.Layer{l}
			}
			d := layerDoc(f, c.Bool("psb"), ls...)
			d.NegCount = c.Bool("neg")
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "names", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			l := stdLayer(f, rects[0], 0, 0, 3, false)
			n := mc.Pick(c, "len", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 127, 128, 254, 255})
			l.Name = strings.Repeat("aZ\x82\xa0", 64)[:n]
			us := mc.Pick(c, "unicode", []string{"-", "", "a", "ab", "abc", "\u65e5\u672c\u8a9e", "\U0001F600x", "a\x00", strings.Repeat("\u3042", 300)})
			bl := c.Choose(4, "clbl")
			var infos []psdw.Info
			if us != "-" {
				infos = append(infos, psdw.Info{Key: "luni", Data: psdw.UnicodeName(us), Pad: c.Choose(2, "pad") * 2})
			}
			if bl > 0 {
				infos = append(infos, psdw.Info{Key: "clbl", Data: [][]byte{{0, 0, 0, 0}, {1, 0, 0, 0}, {255}}[bl-1]})
			}
			if c.Bool("swap") && len(infos) == 2 {
				infos[0], infos[1] = infos[1], infos[0]
			}
			l.Infos = infos
			o := stdLayer(f, rects[1], 1, 0, 4, true)
			decodeDoc(c, layerDoc(f, c.Bool("psb"), l, o), nil)
		}},
		mc.Scenario{Name: "combinations", Bound: 2, Quick: true, Fn: combinations},
		mc.Scenario{Name: "combinations-deep", Bound: 3, Quick: false, Fn: combinations},
	)

	reg("C03",
		mc.Scenario{Name: "divider-sequences", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			max := 9
			if c.Thorough() {
				max = 11
			}
			n := c.Choose(max+1, "n")
			f := form{1, 8, 1}
			d := layerDoc(f, false)
			for i := 0; i < n; i++ {
				t := c.Choose(4, "t")
				l := psdw.Layer{BlendMode: "norm", Opacity: byte(i), Name: fmt.Sprint(i)}
				if t != 0 {
					l.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(t, "", -1)}}
				} else if i%3 == 2 {
					l.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(0, "", -1)}}
				}
				d.Layers = append(d.Layers, l)
			}
			if n == 0 {
				d.Loc = psdw.LocNone
			}
			treeCase(c, d)
		}},
		mc.Scenario{Name: "two-lists", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// layers stored in two places: all of them, or an error
			f := form{1, 8, 1}
			psb := c.Bool("psb")
			keys := []string{"", "Lr16", "Lr32", "Layr"}
			ka, kb := c.Choose(4, "first"), 1+c.Choose(3, "second")
			na, nb := 1+c.Choose(2, "na"), 1+c.Choose(2, "nb")
			d := newDoc(f, 1, 1, 0, psb, 0)
			d.HasGlobal = true
			other := newDoc(f, 1, 1, 0, psb, 0)
			var names []string
			mk := func(dst *[]psdw.Layer, n int, p string) {
				for i := 0; i < n; i++ {
					l := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 2}, 0, 0, i, true)
					l.Name = p + fmt.Sprint(i)
					names = append(names, l.Name)
					*dst = append(*dst, l)
				}
			}
			d.Loc = psdw.LocNone
			if ka == 0 {
				d.Loc = psdw.LocMain
				mk(&d.Layers, na, "a")
			} else {
				first := newDoc(f, 1, 1, 0, psb, 0)
				mk(&first.Layers, na, "a")
				d.Infos = append(d.Infos, first.LayerBlock(keys[ka]))
			}
			if c.Bool("between") {
				d.Infos = append(d.Infos, psdw.Info{Key: "Patt", Data: []byte{1, 2}, Pad: 2})
			}
			mk(&other.Layers, nb, "b")
			d.Infos = append(d.Infos, other.LayerBlock(keys[kb]))
			b, _ := d.Write()
			p, _, err := psd.Decode(bytes.NewReader(b), nil)
			c.Validated(1)
			c.Obs(ka == 0, err == nil)
			if err != nil {
				if p != nil {
					c.Fail("a document together with error %v", err)
				}
				return
			}
			var got []string
			for i := range p.Layer {
				got = append(got, p.Layer[i].MBCSName)
			}
			if fmt.Sprint(got) != fmt.Sprint(names) {
				c.Fail("layers %v, want %v", got, names)
			}
		}},
		mc.Scenario{Name: "divider-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// all short sequences with every encoding of the divider data
			f := form{3, 8, 3}
			d := layerDoc(f, c.Bool("psb"))
			d.Loc = mc.Pick(c, "loc", locs)
			n := c.Choose(5, "n")
			key := mc.Pick(c, "key", []string{"lsct", "lsdk"})
			fm := c.Choose(3, "form")
			for i := 0; i < n; i++ {
				t := c.Choose(4, "t")
				l := psdw.Layer{BlendMode: blendKeys[i], Opacity: byte(i), Name: fmt.Sprint(i)}
				data := psdw.SectionDivider(t, []string{"", "pass", "mul "}[fm], []int{-1, -1, 1}[fm])
				if t != 0 || i%2 == 0 {
					l.Infos = []psdw.Info{{Key: "shmd", Data: []byte{1, 2}}, {Key: key, Data: data}, {Key: "lnsr", Data: []byte("layr")}}
				}
				d.Layers = append(d.Layers, l)
			}
			if n == 0 {
				d.Loc = psdw.LocNone
			}
			treeCase(c, d)
		}},
		mc.Scenario{Name: "nesting", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			depth := mc.Pick(c, "depth", []int{1, 2, 3, 8, 9, 10, 17, 40, 200})
			sib := c.Choose(3, "siblings")
			d := layerDoc(form{1, 8, 1}, false)
			add := func(t int) {
				l := psdw.Layer{BlendMode: "norm", Name: fmt.Sprint(len(d.Layers))}
				if t != 0 {
					l.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(t, "pass", 0)}}
				}
				d.Layers = append(d.Layers, l)
			}
			for i := 0; i < depth; i++ {
				for k := 0; k < sib; k++ {
					add(0)
				}
				add(3)
			}
			add(0)
			for i := 0; i < depth; i++ {
				add(1 + i%2)
				for k := 0; k < sib; k++ {
					add(0)
				}
			}
			treeCase(c, d)
		}},
		mc.Scenario{Name: "wide", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			n := mc.Pick(c, "n", []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100, 255, 256, 257, 3000})
			d := layerDoc(form{1, 8, 1}, c.Bool("psb"))
			d.NegCount = c.Bool("neg")
			for i := 0; i < n; i++ {
				l := psdw.Layer{BlendMode: "norm", Opacity: byte(i), Name: fmt.Sprint(i)}
				if i%5 == 1 && i+3 < n {
					l.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", 0)}}
				}
				if i%5 == 4 && i-3 >= 0 {
					l.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "", 0)}}
				}
				d.Layers = append(d.Layers, l)
			}
			treeCase(c, d)
		}},
	)

	reg("C05",
		mc.Scenario{Name: "mask-fields", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := psdw.Mask{Present: true, Rect: psdw.Rect{T: 1, L: -2, B: 3, R: 2}, Color: 255}
			m.Flags = byte(c.Choose(32, "flags"))
			if m.Flags&16 != 0 {
				m.Params = byte(c.Choose(16, "params"))
			}
			m.UD, m.VD, m.UF, m.VF = 17, 200, 2.5, math.Pi
			m.HasReal = c.Bool("real")
			m.RealFlags, m.RealColor, m.RealRect = 2, 128, psdw.Rect{T: -7, L: -9, B: -4, R: 5}
			m.Pad = c.Choose(5, "pad")
			if !m.HasReal {
				// bytes after the parameters are only padding when the data is 20 bytes long
				n := len(m.Bytes()) - m.Pad
				if !(n+m.Pad == 20 && m.Pad <= 2) && m.Pad != 0 {
					c.Skip()
				}
				if n == 20 && m.Pad == 0 && m.Flags&16 == 0 {
					c.Skip()
				}
			}
			maskDoc(c, m)
		}},
		mc.Scenario{Name: "mask-lengths", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// the record ends after any byte: a part that is not complete is absent
			m := psdw.Mask{Present: true, Rect: psdw.Rect{T: 1, L: -2, B: 3, R: 2}, Color: 255, HasReal: true}
			m.Flags = mc.Pick(c, "flags", []byte{0, 3, 16, 31})
			if m.Flags&16 != 0 {
				m.Params = byte(c.Choose(16, "params"))
			}
			m.UD, m.VD, m.UF, m.VF = 17, 200, 2.5, math.Pi
			m.RealFlags, m.RealColor, m.RealRect = 2, 128, psdw.Rect{T: -7, L: -9, B: -4, R: 5}
			m.Pad = 4
			m.Cut = 1 + c.Choose(len(m.Bytes()), "bytes")
			maskDoc(c, m)
		}},
		mc.Scenario{Name: "mask-values", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := psdw.Mask{Present: true, Rect: psdw.Rect{T: 1, L: -2, B: 3, R: 2}, Flags: 16, Params: 15, HasReal: true}
			rs := []psdw.Rect{{0, 0, 0, 0}, {0, 0, 2, 3}, {-1, -1, 0, 0}, {-2147483648, -2147483648, -2147483646, -2147483647}, {2147483645, 2147483646, 2147483647, 2147483647}, {-65536, 256, -65533, 259}, {5, 5, 5, 9}}
			switch c.Choose(8, "field") {
			case 0:
				m.Color = byte(c.Choose(256, "v"))
			case 1:
				m.UD = byte(c.Choose(256, "v"))
			case 2:
				m.VD = byte(c.Choose(256, "v"))
			case 3:
				m.UF = mc.Pick(c, "v", []float64{0, 1, -1, 0.1, 1e300, 250})
				m.VF = mc.Pick(c, "v2", []float64{0, 1, -1, 0.1, 1e300, 250})
			case 4:
				m.Rect = mc.Pick(c, "r", rs)
			case 5:
				m.RealRect = mc.Pick(c, "r", rs)
			case 6:
				m.RealColor = byte(c.Choose(256, "v"))
				m.RealFlags = byte(c.Choose(4, "v"))
			case 7:
				m.Flags = byte(c.Choose(256, "flags"))
				m.Params = byte(c.Choose(256, "params"))
			}
			maskDoc(c, m)
		}},
		mc.Scenario{Name: "mask-images", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// mask channels cover their own rectangle, whatever the layer's
			f := mc.Pick(c, "form", layerForms)
			rs := []psdw.Rect{{0, 0, 0, 0}, {0, 0, 2, 3}, {-5, -9, -3, -4}, {10, -3, 13, 6}}
			l := stdLayer(f, mc.Pick(c, "layer", rs), 1, 0, 3, true)
			l.Mask = psdw.Mask{Present: true, Rect: mc.Pick(c, "mask", rs), HasReal: true, RealRect: mc.Pick(c, "real", rs)}
			comp := c.Choose(4, "comp")
			for _, id := range []int16{-2, -3} {
				cr := l.ChanRect(id)
				l.Chans = append(l.Chans, psdw.Chan{ID: id, Comp: comp, Data: plane(0, cr.W(), cr.H(), f.Depth, int(id)+70)})
			}
			decodeDoc(c, layerDoc(f, c.Bool("psb"), l), nil)
		}},
	)
}

func maskDoc(c *mc.Case, m psdw.Mask) {
	f := form{1, 8, 1}
	a := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 3, false)
	a.Mask = m
	a.BlendRanges = make([]byte, 8*mc.Pick(c, "ranges", []int{0, 1, 5}))
	b := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 2, R: 1}, 0, 0, 5, false)
	decodeDoc(c, layerDoc(f, c.Bool("psb"), a, b), &psd.DecodeOptions{SkipMergedImage: true})
}

// treeCase decodes a document whose divider sequence may be invalid.
func treeCase(c *mc.Case, d *psdw.Doc) {
	b, _ := d.Write()
	_, _, ok := psdref.Tree(d)
	p, _, err := psd.Decode(bytes.NewReader(b), nil)
	c.Validated(1)
	c.Obs(ok)
	if !ok {
		if err == nil {
			c.Fail("a broken layer structure was accepted: %d root layers", len(p.Layer))
		}
		return
	}
	if err != nil {
		c.Fail("decode error: %v", err)
	}
	if err := psdref.CheckDoc(d, p, psdref.Opt{}); err != nil {
		c.Fail("%v", err)
	}
	c.Obs(len(p.Layer))
}

// combinations starts from a rich document and applies every set of up to Bound deviations.
func combinations(c *mc.Case) {
	f := mc.DevPick(c, "form", layerForms)
	psb := c.Dev(2, "psb") == 1
	d := newDoc(f, 3, 2, c.Dev(4, "mcomp"), psb, c.Dev(kinds, "mkind"))
	d.Loc = locDev(c)
	nl := 1 + c.Dev(3, "layers")
	for i := 0; i < nl; i++ {
		r := mc.DevPick(c, "rect", rects)
		l := stdLayer(f, r, c.Dev(4, "comp"), c.Dev(kinds, "kind"), 3+i*10, c.Dev(2, "noalpha") == 0)
		l.Opacity = mc.DevPick(c, "op", []byte{255, 0, 1, 128})
		l.Flags = mc.DevPick(c, "flags", []byte{8, 0, 2, 3, 24})
		l.Clipping = byte(c.Dev(2, "clip"))
		l.BlendMode = mc.DevPick(c, "bm", []string{"norm", "mul ", "pass"})
		l.Name = mc.DevPick(c, "name", []string{"abc", "", "a", "ab", "abcd", "abcdefgh"})
		l.NoExtra = c.Dev(2, "noextra") == 1
		switch c.Dev(4, "mask") {
		case 1:
			l.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: -1, L: -1, B: 2, R: 1}, Pad: 2}
		case 2:
			l.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: -1, L: -1, B: 2, R: 1}, HasReal: true, RealRect: psdw.Rect{T: -3, L: 0, B: 0, R: 2}}
		case 3:
			l.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: -1, L: -1, B: 2, R: 1}, Flags: 16, Params: 5, UD: 3, VD: 4, HasReal: true, RealRect: psdw.Rect{T: -3, L: 0, B: 0, R: 2}, Pad: 2}
		}
		if l.NoExtra {
			l.Mask = psdw.Mask{}
		}
		if l.Mask.Present {
			cr := l.ChanRect(-2)
			l.Chans = append(l.Chans, psdw.Chan{ID: -2, Comp: c.Dev(4, "maskcomp"), Data: plane(0, cr.W(), cr.H(), f.Depth, 99)})
		}
		l.BlendRanges = make([]byte, mc.DevPick(c, "ranges", []int{8, 0, 40, 3}))
		if c.Dev(2, "luni") == 0 {
			l.Infos = append(l.Infos, psdw.Info{Key: "luni", Data: psdw.UnicodeName("n" + fmt.Sprint(i)), Pad: c.Dev(4, "lunipad")})
		}
		switch c.Dev(4, "info") {
		case 1:
			l.Infos = append(l.Infos, psdw.Info{Key: "clbl", Data: []byte{0, 0, 0, 0}})
		case 2:
			l.Infos = append(l.Infos, psdw.Info{Key: "FMsk", Sig: "8B64", Data: []byte("8BIMabc"), Pad: 1})
		case 3:
			l.Infos = append(l.Infos, psdw.Info{Key: "lfx2"}, psdw.Info{Key: "fxrp", Data: []byte{9}})
		}
		d.Layers = append(d.Layers, l)
	}
	d.NegCount = c.Dev(2, "neg") == 1
	d.LayerPad = c.Dev(4, "layerpad")
	d.HasGlobal = c.Dev(2, "noglobal") == 0
	d.Global = make([]byte, mc.DevPick(c, "global", []int{0, 1, 13, 16}))
	if !d.HasGlobal {
		d.Global = nil
	}
	switch c.Dev(4, "docinfo") {
	case 1:
		d.Infos = []psdw.Info{{Key: "Patt", Data: []byte{1, 2, 3}, Pad: 1}}
	case 2:
		d.Infos = []psdw.Info{{Key: "lnk2", Data: []byte("8888"), Pad: 0}, {Key: "Txt2", Data: []byte{7}, Pad: 3}}
	case 3:
		d.Infos = []psdw.Info{{Key: "Alph", Sig: "8B64"}, {Key: "PxSD", Data: make([]byte, 20)}}
	}
	d.SectionPad = c.Dev(4, "sectionpad")
	switch c.Dev(3, "res") {
	case 1:
		d.Resources = []psdw.Res{{ID: 0x3ed, Name: "x", Data: []byte{1}}}
	case 2:
		d.Resources = []psdw.Res{{ID: 0x41d, Name: "", Data: be32(7)}, {Sig: "MeSa", ID: 9, Name: "ab"}}
	}
	opt := &psd.DecodeOptions{SkipLayerImage: c.Dev(2, "skiplayer") == 1, SkipMergedImage: c.Dev(2, "skipmerged") == 1}
	decodeDoc(c, d, opt)
}
