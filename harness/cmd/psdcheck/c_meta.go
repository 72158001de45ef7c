package main

import (
	"fmt"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

var infoKeys = []string{
	"LMsk", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD", // 8 byte lengths in PSB
	"lfx2", "lnkD", "lnk3", "lnkE", "Patt", "Pat2", "Pat3", "shmd", "TySh", "vmsk", "LMSK", "fxid", "8BIM", "cinf", "Anno",
}

func infoData(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed + i*11)
	}
	return b
}

func init() {
	reg("C04",
		mc.Scenario{Name: "resources", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := newDoc(form{1, 8, 1}, 1, 1, 0, c.Bool("psb"), 0)
			n := c.Choose(4, "n")
			max := 6
			if n == 3 && !c.Thorough() {
				max = 3
			}
			for i := 0; i < n; i++ {
				name := "abcdefgh"[:c.Choose(max, "name")]
				d.Resources = append(d.Resources, psdw.Res{ID: []int{0x3ed, 0x40c, 0xffff}[i], Name: name, Data: infoData(c.Choose(max, "len"), i*40)})
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "resource-values", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := newDoc(form{1, 8, 1}, 1, 1, 0, false, 0)
			r := psdw.Res{Sig: mc.Pick(c, "sig", []string{"8BIM", "MeSa", "PHUT", "AgHg", "DCSR"})}
			r.ID = mc.Pick(c, "id", []int{0, 1, 255, 256, 0x3e8, 0x417, 0x41d, 0x7fff, 0x8000, 0xffff})
			r.Data = infoData(mc.Pick(c, "len", []int{4, 8, 255, 256, 257, 65535, 65536, 70001}), 3)
			r.Name = string(infoData(mc.Pick(c, "name", []int{0, 1, 2, 127, 128, 254, 255}), 65))
			d.Resources = []psdw.Res{{ID: 2, Name: "q", Data: []byte{1, 2, 3}}, r, {ID: 3, Name: "", Data: nil}}
			if r.ID == 0x417 || r.ID == 0x41d {
				d.Resources[1].Data = d.Resources[1].Data[:4]
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "layer-infos", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			l := stdLayer(f, rects[0], 0, 0, 3, false)
			key := mc.Pick(c, "key", infoKeys)
			sig := mc.Pick(c, "sig", []string{"8BIM", "8B64"})
			n := c.Choose(10, "len")
			l.Infos = []psdw.Info{{Key: key, Sig: sig, Data: infoData(n, 1), Pad: c.Choose(4, "pad")}}
			switch c.Choose(3, "around") {
			case 1:
				l.Infos = append(l.Infos, psdw.Info{Key: "shpa", Data: infoData(5, 9)})
			case 2:
				l.Infos = append([]psdw.Info{{Key: "shpa", Data: infoData(3, 9), Pad: 1}}, l.Infos...)
			}
			d := layerDoc(f, c.Bool("psb"), l, stdLayer(f, rects[1], 0, 0, 4, false))
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "document-infos", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			d := newDoc(f, 1, 1, 0, c.Bool("psb"), 0)
			d.Loc = mc.Pick(c, "loc", []int{psdw.LocNone, psdw.LocMain, psdw.Loc16, psdw.LocLayr})
			if d.Loc != psdw.LocNone {
				d.Layers = []psdw.Layer{stdLayer(f, rects[0], 0, 0, 3, false)}
			}
			d.HasGlobal = true
			d.Global = infoData(mc.Pick(c, "global", []int{0, 1, 2, 3, 14, 255, 256}), 4)
			key := mc.Pick(c, "key", infoKeys)
			n := mc.Pick(c, "len", []int{0, 1, 2, 3, 4, 7, 8, 300})
			d.Infos = []psdw.Info{{Key: key, Data: infoData(n, 1), Pad: c.Choose(4, "pad")}}
			if c.Bool("two") {
				d.Infos = append(d.Infos, psdw.Info{Key: "zzzz", Data: infoData(2, 9)})
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "info-sizes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// long blocks of layers and of the document, with something behind them
			f := form{1, 8, 1}
			d := layerDoc(f, c.Bool("psb"), stdLayer(f, rects[0], 0, 0, 3, false), stdLayer(f, rects[1], 0, 0, 4, false))
			d.Loc = mc.Pick(c, "loc", []int{psdw.LocMain, psdw.Loc16})
			x := psdw.Info{Key: mc.Pick(c, "key", []string{"FMsk", "lnk2", "TySh", "lnkE"}), Sig: mc.Pick(c, "sig", []string{"8BIM", "8B64"})}
			x.Data = infoData(mc.Pick(c, "len", []int{10, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 70001, 300000}), 1)
			x.Pad = c.Choose(4, "pad")
			small := psdw.Info{Key: "shpa", Data: infoData(5, 9), Pad: 1}
			if c.Bool("document") {
				d.HasGlobal = true
				d.Infos = []psdw.Info{x, small}
			} else {
				d.Layers[0].Infos = []psdw.Info{x, small}
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "many-blocks", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			n := mc.Pick(c, "n", []int{1, 2, 8, 16, 17, 100, 300})
			d := layerDoc(f, c.Bool("psb"), stdLayer(f, rects[0], 0, 0, 3, false), stdLayer(f, rects[1], 0, 0, 4, false))
			var infos []psdw.Info
			for i := 0; i < n; i++ {
				infos = append(infos, psdw.Info{Key: fmt.Sprintf("k%03d", i), Data: infoData(i%9, i), Pad: 3 * (i % 2)})
			}
			switch c.Choose(3, "place") {
			case 0:
				d.Layers[0].Infos = infos
			case 1:
				d.HasGlobal = true
				d.Infos = infos
			case 2:
				for i := range infos {
					d.Resources = append(d.Resources, psdw.Res{ID: 2000 + i, Name: infos[i].Key[:i%4], Data: infos[i].Data})
				}
			}
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "global-and-padding", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := form{1, 8, 1}
			d := newDoc(f, 1, 1, 0, c.Bool("psb"), 0)
			d.Loc = mc.Pick(c, "loc", []int{psdw.LocEmpty, psdw.LocNone, psdw.LocMain})
			if d.Loc == psdw.LocMain {
				d.Layers = []psdw.Layer{stdLayer(f, rects[0], 0, 0, 3, false)}
			}
			d.LayerPad = c.Choose(6, "layerpad")
			d.HasGlobal = c.Bool("hasglobal")
			if d.HasGlobal {
				d.Global = infoData(c.Choose(20, "global"), 4)
			}
			max := 4
			if d.HasGlobal && d.PSB {
				max = 8
			}
			d.SectionPad = c.Choose(max, "sectionpad")
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "fillers", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// reserved and padding bytes mean nothing, whatever they contain
			ds := richDocs()
			d := ds[c.Choose(len(ds), "doc")]
			d.Filler = mc.Pick(c, "filler", []byte{0, 1, '8', 'B', 0x80, 0xff})
			for i := range d.Layers {
				if !d.Layers[i].NoExtra {
					d.Layers[i].Name = "abcd"[:c.Choose(4, "name")]
				}
			}
			d.LayerPad = c.Choose(4, "layerpad")
			decodeDoc(c, d, nil)
		}},
		mc.Scenario{Name: "len-size", Bound: -1, Quick: true, Fn: lenSize},
	)
}
