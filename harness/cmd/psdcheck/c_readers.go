package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
)

// richDocs are small documents that together exercise every section reader.
func richDocs() []*psdw.Doc {
	var ds []*psdw.Doc
	for _, psb := range []bool{false, true} {
		for v := 0; v < 4; v++ {
			f := []form{{3, 8, 4}, {1, 16, 2}, {1, 32, 1}, {4, 8, 5}}[v]
			d := newDoc(f, 3, 4, v, psb, 2)
			d.Resources = []psdw.Res{{ID: 0x3ed, Name: "", Data: []byte{1, 2, 3}}, {Sig: "MeSa", ID: 0x400, Name: "ab", Data: nil}, {ID: 0x41d, Name: "abc", Data: be32(0)}}
			a := stdLayer(f, psdw.Rect{T: -1, L: 1, B: 2, R: 3}, v, 0, 3, true)
			a.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: 0, L: 0, B: 2, R: 2}, Flags: byte(16 * (1 - v%2)), Params: 15, UD: 1, UF: 2, VD: 3, VF: 4, HasReal: true, RealRect: psdw.Rect{T: 1, L: 1, B: 2, R: 2}, Pad: 3}
			cr := a.ChanRect(-2)
			a.Chans = append(a.Chans, psdw.Chan{ID: -2, Comp: (v + 1) % 4, Data: plane(0, cr.W(), cr.H(), f.Depth, 9), Extra: 3})
			a.Chans = append(a.Chans, psdw.Chan{ID: -3, Comp: 1, Data: plane(0, 1, 1, f.Depth, 9)})
			a.BlendRanges = make([]byte, 12)
			a.Name = "ab"
			a.Infos = []psdw.Info{{Key: "luni", Data: psdw.UnicodeName("x"), Pad: 2}, {Key: "clbl", Data: []byte{0, 0, 0, 0}}, {Key: "FMsk", Data: []byte{5}, Pad: 3}}
			dv := psdw.Layer{BlendMode: "norm", Name: "</g>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", 0)}}}
			in := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 2}, (v+2)%4, 0, 5, false)
			in.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: 0, L: 0, B: 1, R: 1}, Pad: 2}
			g := psdw.Layer{BlendMode: "pass", Name: "g", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "pass", 0)}}}
			ne := psdw.Layer{BlendMode: "norm", NoExtra: true}
			d.Layers = []psdw.Layer{a, dv, in, g, ne}
			d.Loc = []int{psdw.LocMain, psdw.Loc16, psdw.Loc32, psdw.LocMain}[v]
			d.LayerPad = v
			d.HasGlobal = true
			d.Global = make([]byte, 5*v)
			d.Infos = []psdw.Info{{Key: "Patt", Data: []byte{1, 2, 3}, Pad: 1}, {Key: "lnk2", Data: nil}}
			d.SectionPad = v % 3
			ds = append(ds, d)
		}
	}
	// without layers
	d := newDoc(form{2, 8, 1}, 5, 3, psdw.RLE, false, 0)
	d.Resources = []psdw.Res{{ID: 0x417, Data: []byte{0, 3}}}
	d.ModeData = d.ModeData[:768]
	ds = append(ds, d)
	d = newDoc(form{0, 1, 1}, 11, 5, psdw.RLE, true, 0)
	d.Loc = psdw.LocNone
	ds = append(ds, d)
	return ds
}

var docs = richDocs()

// tailDoc enumerates how the parts of the layer and mask section may end.
func tailDoc(c *mc.Case) (*psdw.Doc, *psd.DecodeOptions) {
	f := mc.Pick(c, "form", []form{{1, 8, 1}, {3, 16, 4}, {8, 8, 1}})
	o := docOptions(c)
	n := c.Choose(3, "layers")
	d := newDoc(f, 3, 2, c.Choose(2, "comp"), c.Bool("psb"), 0)
	if f.Mode == 8 {
		// a duotone document: its pixels are not supported, everything else is
		d.ModeData = infoData(c.Choose(4, "modedata"), 1)
		if !o.SkipMergedImage || n > 0 && !o.SkipLayerImage {
			c.Skip()
		}
	}
	for i := 0; i < n; i++ {
		l := stdLayer(form{f.Mode&3 | f.Mode>>3, f.Depth, f.Channels}, psdw.Rect{T: 0, L: 0, B: 1, R: 2}, 0, 0, i, false)
		if i == n-1 {
			l.Chans[len(l.Chans)-1].Extra = c.Choose(4, "extra")
		}
		d.Layers = append(d.Layers, l)
	}
	d.Loc = psdw.LocMain
	d.LayerPad = c.Choose(3, "layerpad")
	d.SectionPad = c.Choose(4, "sectionpad")
	switch c.Choose(4, "global") {
	case 1:
		d.HasGlobal = true
	case 2:
		d.HasGlobal, d.Global = true, make([]byte, 3)
	case 3:
		d.HasGlobal = true
		d.Infos = []psdw.Info{{Key: "Patt", Data: []byte{1}, Pad: 3}}
	}
	return d, o
}

func docOptions(c *mc.Case) *psd.DecodeOptions {
	return &psd.DecodeOptions{SkipLayerImage: c.Bool("skiplayer"), SkipMergedImage: c.Bool("skipmerged")}
}

func checkDecoded(c *mc.Case, d *psdw.Doc, o *psd.DecodeOptions, lo psdw.Layout, p *psd.PSD, read int, err error) {
	if err != nil {
		c.Fail("decode error: %v", err)
	}
	if err := psdref.CheckDoc(d, p, psdref.Opt{NoLayerImage: o.SkipLayerImage, NoMerged: o.SkipMergedImage}); err != nil {
		c.Fail("%v", err)
	}
	if o.SkipMergedImage {
		if read != lo.LayersEnd {
			c.Fail("reported %d bytes read, want %d", read, lo.LayersEnd)
		}
	} else if d.Comp <= psdw.RLE && read != lo.End {
		c.Fail("reported %d bytes read, want %d", read, lo.End)
	}
	c.Validated(1)
}

func scriptedCase(c *mc.Case, which []int, faults bool) {
	di := mc.Pick(c, "doc", which)
	d := docs[di]
	kind := c.Choose(3, "kind")
	o := &psd.DecodeOptions{SkipLayerImage: c.Dev(2, "skiplayer") == 1, SkipMergedImage: c.Dev(2, "skipmerged") == 1}
	b, lo := d.Write()
	s := &scripted{c: c, b: b, errors: faults}
	var r io.Reader = s
	switch kind {
	case 1:
		r = scriptedSeeker{s}
	case 2:
		r = scriptedDiscarder{s}
	}
	p, read, err := psd.Decode(r, o)
	c.Obs(err, read)
	if !faults {
		checkDecoded(c, d, o, lo, p, read, err)
		return
	}
	c.Validated(1)
	if err != nil {
		if !s.failed {
			c.Fail("error %v although every read succeeded", err)
		}
		if !errors.Is(err, errInjected) {
			c.Fail("the reader failed with %q but Decode reported %q", errInjected, err)
		}
		if p != nil {
			c.Fail("a document was returned together with error %v", err)
		}
		return
	}
	// no error reported: then nothing may be missing
	if e := psdref.CheckDoc(d, p, psdref.Opt{NoLayerImage: o.SkipLayerImage, NoMerged: o.SkipMergedImage}); e != nil {
		c.Fail("a read failed, no error was reported, and the result is wrong: %v", e)
	}
}

func init() {
	all := ints(0, len(docs)-1)
	reg("C08",
		mc.Scenario{Name: "section-tails", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d, o := tailDoc(c)
			b, lo := d.Write()
			for _, name := range readerNames {
				p, read, err := psd.Decode(mkReader(name, b), o)
				checkDecoded(c, d, o, lo, p, read, err)
			}
		}},
		mc.Scenario{Name: "reader-kinds", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			di := c.Choose(len(docs), "doc")
			name := mc.Pick(c, "reader", readerNames)
			o := docOptions(c)
			b, lo := docs[di].Write()
			p, read, err := psd.Decode(mkReader(name, b), o)
			checkDecoded(c, docs[di], o, lo, p, read, err)
			c.Obs(di, read)
		}},
		mc.Scenario{Name: "reader-kinds-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", layerForms)
			comp := c.Choose(4, "comp")
			d := layerDoc(f, c.Bool("psb"), stdLayer(f, mc.Pick(c, "rect", rects[:9]), comp, 2, 3, c.Bool("alpha")))
			d.Comp = (comp + 1) % 4
			d.LayerPad = 3
			name := mc.Pick(c, "reader", readerNames)
			b, lo := d.Write()
			o := &psd.DecodeOptions{}
			p, read, err := psd.Decode(mkReader(name, b), o)
			checkDecoded(c, d, o, lo, p, read, err)
		}},
		mc.Scenario{Name: "read-answers-1", Bound: 1, Quick: true, Fn: func(c *mc.Case) { scriptedCase(c, all, false) }},
		mc.Scenario{Name: "read-answers-2", Bound: 2, Quick: false, Fn: func(c *mc.Case) { scriptedCase(c, []int{0, 5, 8, 9}, false) }},
		mc.Scenario{Name: "config-readers", Bound: 1, Quick: true, Fn: func(c *mc.Case) {
			d := docs[c.Choose(len(docs), "doc")]
			b, lo := d.Write()
			s := &scripted{c: c, b: b}
			cfg, read, err := psd.DecodeConfig(s)
			if err != nil {
				c.Fail("error %v", err)
			}
			if e := psdref.CheckConfig(d, &cfg); e != nil {
				c.Fail("%v", e)
			}
			if read != lo.ResourcesEnd || s.pos != lo.ResourcesEnd {
				c.Fail("read %d (reported %d), want %d", s.pos, read, lo.ResourcesEnd)
			}
			c.Validated(1)
		}},
	)
	reg("C09",
		mc.Scenario{Name: "section-tails", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d, o := tailDoc(c)
			b, lo := d.Write()
			end := lo.End
			if o.SkipMergedImage {
				end = lo.LayersEnd
			}
			for n := lo.ResourcesEnd; n < end; n++ {
				p, read, err := psd.Decode(plainReader{bytes.NewReader(b[:n])}, o)
				if err == nil {
					c.Fail("prefix %d of %d: no error although bytes are missing", n, end)
				}
				if p != nil || read > n {
					c.Fail("prefix %d of %d: error %v, document %v, %d bytes reported", n, end, err, p, read)
				}
				c.Validated(1)
			}
			c.Visited(end-lo.ResourcesEnd, end-lo.ResourcesEnd)
		}},
		mc.Scenario{Name: "truncation", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every proper prefix of every document, on every kind of reader
			di := c.Choose(len(docs), "doc")
			d := docs[di]
			name := mc.Pick(c, "reader", readerNames)
			o := docOptions(c)
			b, lo := d.Write()
			end := lo.End
			if o.SkipMergedImage {
				end = lo.LayersEnd
			}
			for n := 0; n < end; n++ {
				p, read, err := psd.Decode(mkReader(name, b[:n]), o)
				c.Validated(1)
				if err != nil {
					if p != nil {
						c.Fail("prefix %d of %d: a document was returned together with error %v", n, end, err)
					}
					if read > n {
						c.Fail("prefix %d of %d: %d bytes reported", n, end, read)
					}
					continue
				}
				if e := psdref.CheckDoc(d, p, psdref.Opt{NoLayerImage: o.SkipLayerImage, NoMerged: o.SkipMergedImage}); e != nil {
					c.Fail("prefix %d of %d: no error, and %v", n, end, e)
				}
				if name != "bytes" && name != "seek1" && name != "seek3" && (d.Comp <= psdw.RLE || o.SkipMergedImage) {
					c.Fail("prefix %d of %d: no error although bytes are missing", n, end)
				}
				if !o.SkipMergedImage && n < lo.LayersEnd+2 {
					c.Fail("prefix %d of %d: no error although the merged image is missing", n, end)
				}
			}
			c.Visited(end, end)
			c.Obs(di, end)
		}},
		mc.Scenario{Name: "truncation-config", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := docs[c.Choose(len(docs), "doc")]
			name := mc.Pick(c, "reader", readerNames)
			b, lo := d.Write()
			for n := 0; n < lo.ResourcesEnd; n++ {
				_, read, err := psd.DecodeConfig(mkReader(name, b[:n]))
				c.Validated(1)
				if err == nil {
					c.Fail("prefix %d of %d: no error", n, lo.ResourcesEnd)
				}
				if read > n {
					c.Fail("prefix %d: %d bytes reported", n, read)
				}
			}
			c.Visited(lo.ResourcesEnd, lo.ResourcesEnd)
		}},
		mc.Scenario{Name: "faults-1", Bound: 1, Quick: true, Fn: func(c *mc.Case) { scriptedCase(c, all, true) }},
		mc.Scenario{Name: "faults-2", Bound: 2, Quick: false, Fn: func(c *mc.Case) { scriptedCase(c, []int{0, 5, 8}, true) }},
	)
	reg("C11",
		mc.Scenario{Name: "section-tails", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d, o := tailDoc(c)
			b, lo := d.Write()
			b = append(b, 0x38, 0x42, 0x49, 0x4d, 1, 2, 3, 4, 5, 6, 7, 8)
			end := lo.End
			if o.SkipMergedImage {
				end = lo.LayersEnd
			}
			for _, name := range readerNames {
				r := mkReader(name, b)
				p, read, err := psd.Decode(r, o)
				checkDecoded(c, d, o, lo, p, read, err)
				rest, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(rest, b[end:]) {
					c.Fail("%s: %d bytes are left in the reader, want %d (err %v)", name, len(rest), len(b)-end, err)
				}
			}
		}},
		mc.Scenario{Name: "position", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			di := c.Choose(len(docs), "doc")
			d := *docs[di]
			d.Comp = c.Choose(2, "comp")
			o := docOptions(c)
			b, lo := d.Write()
			tail := infoData(c.Choose(9, "tail"), 0xa0)
			all := append(append([]byte{}, b...), tail...)
			end := lo.End
			if o.SkipMergedImage {
				end = lo.LayersEnd
			}
			for _, name := range readerNames {
				r := mkReader(name, all)
				p, read, err := psd.Decode(r, o)
				checkDecoded(c, &d, o, lo, p, read, err)
				rest, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(rest, all[end:]) {
					c.Fail("%s: %d bytes are left in the reader, want %d (err %v)", name, len(rest), len(all)-end, err)
				}
			}
			c.Obs(di, end)
		}},
		mc.Scenario{Name: "concatenated", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// documents that follow each other in one stream
			n := 2 + c.Choose(2, "n")
			var all []byte
			var ds []*psdw.Doc
			var los []psdw.Layout
			for i := 0; i < n; i++ {
				d := *docs[c.Choose(len(docs), "doc")]
				d.Comp = i % 2
				b, lo := d.Write()
				all = append(all, b...)
				ds, los = append(ds, &d), append(los, lo)
			}
			name := mc.Pick(c, "reader", []string{"bytes", "plain", "bufio17", "onebyte"})
			r := mkReader(name, all)
			o := &psd.DecodeOptions{}
			for i, d := range ds {
				p, read, err := psd.Decode(r, o)
				if err != nil {
					c.Fail("document %d: %v", i, err)
				}
				checkDecoded(c, d, o, los[i], p, read, err)
			}
		}},
		mc.Scenario{Name: "config-position", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := docs[c.Choose(len(docs), "doc")]
			b, lo := d.Write()
			r := mkReader(mc.Pick(c, "reader", readerNames), b)
			cfg, read, err := psd.DecodeConfig(r)
			if err != nil || psdref.CheckConfig(d, &cfg) != nil {
				c.Fail("err %v", err)
			}
			rest, _ := io.ReadAll(r)
			if read != lo.ResourcesEnd || len(rest) != len(b)-lo.ResourcesEnd {
				c.Fail("read %d, left %d, want %d and %d", read, len(rest), lo.ResourcesEnd, len(b)-lo.ResourcesEnd)
			}
			c.Validated(1)
		}},
		mc.Scenario{Name: "zip-sizes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// ZIP channels of layers must not eat into what follows them
			f := mc.Pick(c, "form", []form{{3, 8, 3}, {1, 16, 1}, {1, 32, 1}})
			w := mc.Pick(c, "w", []int{1, 3, 17, 90})
			l := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 5, R: int32(w)}, psdw.ZIP+c.Choose(2, "pred"), c.Choose(kinds, "kind"), 1, true)
			for i := range l.Chans {
				l.Chans[i].Extra = c.Choose(2, "extra") * 5
			}
			d := layerDoc(f, c.Bool("psb"), l, stdLayer(f, rects[0], 0, 0, 9, false))
			d.Comp = psdw.Raw
			for _, name := range []string{"bytes", "plain", "onebyte", "bufio17", "bytesbuffer"} {
				b, lo := d.Write()
				r := mkReader(name, append(b, 1, 2, 3))
				o := &psd.DecodeOptions{}
				p, read, err := psd.Decode(r, o)
				checkDecoded(c, d, o, lo, p, read, err)
				rest, _ := io.ReadAll(r)
				if len(rest) != 3 {
					c.Fail("%s: %d bytes left, want 3", name, len(rest))
				}
			}
		}},
	)
	reg("C12",
		mc.Scenario{Name: "options", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			optionsCase(c, docs[c.Choose(len(docs), "doc")])
		}},
		mc.Scenario{Name: "options-forms", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			forms, counts := layerForms, []int{0, 1, 2, 3, 5, 40}
			if c.Thorough() {
				counts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 40, 63, 64, 65, 127, 128, 129}
			}
			f := mc.Pick(c, "form", forms)
			d := newDoc(f, 3, 2, psdw.RLE, c.Bool("psb"), 0)
			n := mc.Pick(c, "layers", counts)
			for i := 0; i < n; i++ {
				l := stdLayer(f, rects[i%6], i%2, 0, i, i%3 != 0)
				if i%7 == 3 {
					l = psdw.Layer{BlendMode: "norm", Name: "none"}
				}
				d.Layers = append(d.Layers, l)
			}
			d.Loc = mc.Pick(c, "loc", locs)
			if n == 0 {
				d.Loc = mc.Pick(c, "empty", []int{psdw.LocNone, psdw.LocEmpty})
			}
			optionsCase(c, d)
		}},
		mc.Scenario{Name: "debug-logger", Bound: -1, Quick: true, Serial: true, Fn: func(c *mc.Case) {
			// with a logger everything is as without
			psd.Debug = log.New(io.Discard, "", 0)
			defer func() { psd.Debug = nil }()
			if c.Bool("tails") {
				d, o := tailDoc(c)
				b, lo := d.Write()
				p, read, err := psd.Decode(plainReader{bytes.NewReader(b)}, o)
				checkDecoded(c, d, o, lo, p, read, err)
				return
			}
			optionsCase(c, docs[c.Choose(len(docs), "doc")])
		}},
		mc.Scenario{Name: "nil-options", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			d := docs[c.Choose(len(docs), "doc")]
			b, lo := d.Write()
			p1, r1, e1 := psd.Decode(bytes.NewReader(b), nil)
			checkDecoded(c, d, &psd.DecodeOptions{}, lo, p1, r1, e1)
			p2, r2, e2 := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{})
			checkDecoded(c, d, &psd.DecodeOptions{}, lo, p2, r2, e2)
			if r1 != r2 {
				c.Fail("read %d and %d", r1, r2)
			}
		}},
		mc.Scenario{Name: "config-before-layers", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// when the configuration callback runs nothing after the resources has been consumed
			d := docs[c.Choose(len(docs), "doc")]
			b, lo := d.Write()
			br := bytes.NewReader(b)
			at := -1
			psd.Decode(plainReader{br}, &psd.DecodeOptions{ConfigLoaded: func(psd.Config) error {
				at = len(b) - br.Len()
				return errors.New("stop")
			}})
			if at != lo.ResourcesEnd || len(b)-br.Len() != lo.ResourcesEnd {
				c.Fail("callback at offset %d, decoder stopped at %d, want %d", at, len(b)-br.Len(), lo.ResourcesEnd)
			}
			c.Validated(1)
		}},
	)
}

// optionsCase decodes with every combination of options and compares results and callbacks.
func optionsCase(c *mc.Case, d *psdw.Doc) {
	o := docOptions(c)
	hook := c.Choose(3, "configloaded")
	lhook := c.Bool("layerloaded")
	b, lo := d.Write()
	r := mkReader(mc.Pick(c, "reader", []string{"plain", "bytes", "bufio16"}), b)
	var events []string
	errHook := errors.New("from the callback")
	if hook > 0 {
		o.ConfigLoaded = func(cfg psd.Config) error {
			events = append(events, "config")
			if e := psdref.CheckConfig(d, &cfg); e != nil {
				c.Fail("config passed to the callback: %v", e)
			}
			if hook == 2 {
				return errHook
			}
			return nil
		}
	}
	var seen []psd.Layer
	if lhook {
		o.LayerImageLoaded = func(l *psd.Layer, index, total int) {
			events = append(events, fmt.Sprintf("layer%d/%d", index, total))
			if l.SeqID != index {
				c.Fail("callback %d got layer %d", index, l.SeqID)
			}
			if e := psdref.CheckLayer(d, index, l, psdref.Opt{}, "callback"); e != nil {
				c.Fail("%v", e)
			}
			seen = append(seen, *l)
		}
	}
	p, read, err := psd.Decode(r, o)
	var want []string
	if hook > 0 {
		want = append(want, "config")
	}
	if hook == 2 {
		if err != errHook || p != nil {
			c.Fail("error %v, document %v after the callback failed", err, p)
		}
	} else if lhook && !o.SkipLayerImage {
		for i := range d.Layers {
			want = append(want, fmt.Sprintf("layer%d/%d", i, len(d.Layers)))
		}
	}
	if !reflect.DeepEqual(events, want) && len(events)+len(want) > 0 {
		c.Fail("callbacks %v, want %v", events, want)
	}
	if hook != 2 {
		checkDecoded(c, d, o, lo, p, read, err)
	}
	c.Validated(1)
	c.Obs(events)
}
