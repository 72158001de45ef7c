package main

import (
	"bytes"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

var alphaIDs = []struct {
	name string
	data []byte
}{
	{"none", nil}, {"[0]", be32(0)}, {"[0,5]", be32(0, 5)}, {"[5]", be32(5)}, {"[]", []byte{}}, {"[5,6]", be32(5, 6)},
	{"[256]", be32(256)}, {"[1<<24]", be32(1 << 24)}, {"[5,0]", be32(5, 0)},
}

func init() {
	allComp := func(c *mc.Case, f form) int {
		return mc.Pick(c, "comp", []int{psdw.Raw, psdw.RLE, psdw.ZIP, psdw.ZIPPred})
	}
	reg("C01",
		mc.Scenario{Name: "merged-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", forms)
			comp := allComp(c, f)
			psb := c.Bool("psb")
			w := mc.Pick(c, "w", []int{1, 2, 3, 5, 7, 8, 9, 16, 17})
			h := mc.Pick(c, "h", []int{1, 2, 3, 4, 5, 8, 15, 17})
			kind := 0
			if c.Thorough() {
				kind = c.Choose(kinds, "kind")
			} else {
				kind = (w + h) % kinds
			}
			decodeDoc(c, newDoc(f, w, h, comp, psb, kind), nil)
		}},
		mc.Scenario{Name: "merged-alpha-ids", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", forms)
			comp := allComp(c, f)
			a := alphaIDs[c.Choose(len(alphaIDs), "ids")]
			d := newDoc(f, 3, 2, comp, c.Bool("psb"), 0)
			if a.data != nil {
				d.Resources = append(d.Resources, psdw.Res{ID: 0x41d, Data: a.data})
			}
			if c.Bool("otherres") {
				d.Resources = append(d.Resources, psdw.Res{ID: 0x3ed, Name: "xy", Data: []byte{1, 2, 3}})
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "merged-boundaries", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", []form{{3, 8, 3}, {1, 8, 1}, {1, 16, 2}, {1, 32, 1}, {4, 16, 5}, {0, 1, 1}, {2, 8, 1}})
			comp := allComp(c, f)
			psb := c.Bool("psb")
			wh := mc.Pick(c, "dim", [][2]int{
				{31, 3}, {32, 3}, {33, 3}, {63, 2}, {64, 9}, {65, 2}, {127, 4}, {128, 4}, {129, 4}, {130, 5}, {255, 2}, {256, 2}, {257, 3}, {258, 3},
				{384, 2}, {385, 2}, {1023, 1}, {1025, 1}, {1, 63}, {1, 64}, {2, 65}, {3, 127}, {1, 129}, {5, 256}, {4, 257}, {1040, 4}, {1, 1000}, {20000, 1}, {1, 20000},
			})
			kind := c.Choose(kinds, "kind")
			decodeDoc(c, newDoc(f, wh[0], wh[1], comp, psb, kind), nil)
		}},
		mc.Scenario{Name: "color-modes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// the named color modes are those of the format
			m := mc.Pick(c, "mode", []struct {
				mode     psd.ColorMode
				n        int
				channels int
			}{{psd.ColorModeBitmap, 0, 1}, {psd.ColorModeGrayscale, 1, 1}, {psd.ColorModeIndexed, 2, 1}, {psd.ColorModeRGB, 3, 3}, {psd.ColorModeCMYK, 4, 4},
				{psd.ColorModeMultichannel, 7, -1}, {psd.ColorModeDuotone, 8, -1}, {psd.ColorModeLab, 9, -1}})
			d := newDoc(form{1, 8, 1}, 1, 1, 0, c.Bool("psb"), 0)
			d.Mode = m.n
			b, _ := d.Write()
			cfg, _, err := psd.DecodeConfig(bytes.NewReader(b))
			if err != nil {
				c.Fail("mode %d: %v", m.n, err)
			}
			if cfg.ColorMode != m.mode || cfg.PSB() != d.PSB {
				c.Fail("mode %d is reported as %d, want %d", m.n, cfg.ColorMode, m.mode)
			}
			if m.channels > 0 && m.mode.Channels() != m.channels {
				c.Fail("mode %d has %d channels, want %d", m.n, m.mode.Channels(), m.channels)
			}
			c.Validated(1)
			c.Obs(m.n)
		}},
		mc.Scenario{Name: "merged-channels", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every number of channels that a document can have
			f := mc.Pick(c, "form", []form{{3, 8, 3}, {3, 16, 3}, {3, 32, 3}, {1, 8, 1}, {1, 16, 1}, {1, 32, 1}, {4, 8, 4}, {4, 16, 4}})
			f.Channels += c.Choose(57-f.Channels, "extra")
			d := newDoc(f, 5, 3, allComp(c, f), c.Bool("psb"), 2)
			if a := alphaIDs[c.Choose(3, "ids")]; a.data != nil {
				d.Resources = append(d.Resources, psdw.Res{ID: 0x41d, Data: a.data})
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "merged-all-dims", Bound: -1, Quick: false, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", forms)
			comp := allComp(c, f)
			psb := c.Bool("psb")
			w := 1 + c.Choose(40, "w-1")
			h := 1 + c.Choose(40, "h-1")
			decodeDoc(c, newDoc(f, w, h, comp, psb, (w*3+h)%kinds), nil)
		}},
		mc.Scenario{Name: "merged-palette", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := newDoc(form{2, 8, 1}, 256, 1, c.Choose(4, "comp"), c.Bool("psb"), 0)
			for i := range d.Planes[0] {
				d.Planes[0][i] = byte(i)
			}
			tr := c.Choose(259, "transparent")
			if tr > 0 {
				v := tr - 1
				if v == 257 {
					v = 0xffff
				}
				d.Resources = []psdw.Res{{ID: 0x417, Data: []byte{byte(v >> 8), byte(v)}}}
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "merged-max-dims", Bound: -1, Quick: true, Workers: 4, Fn: func(c *mc.Case) {
			psb := c.Bool("psb")
			lim := 30000
			if psb {
				lim = 300000
			}
			w, h := 1, lim
			if c.Bool("wide") {
				w, h = lim, 1
			}
			decodeDoc(c, newDoc(form{1, 8, 1}, w, h, c.Choose(3, "comp"), psb, 2), nil)
		}},
	)
}
