package main

import (
	"bytes"
	"image"
	"strings"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

// sameTree compares the tree with the document.
func sameTree(c *mc.Case, l *composite.Layer, ns []*compref.Node) {
	if len(l.Children) != len(ns) {
		c.Fail("%q has %d children, the document has %d there", l.Name, len(l.Children), len(ns))
	}
	var base *compref.Node
	var baseL *composite.Layer
	clips := 0
	for i, n := range ns {
		k := &l.Children[i]
		mode := n.Mode
		if !n.Folder && mode == "pass" {
			mode = "norm"
		}
		masked := n.Mask != nil && !n.Mask.Disabled
		mc0 := 0
		if n.Mask != nil {
			mc0 = int(n.Mask.Color)
		}
		if k.Name != n.Name || k.SeqID != n.SeqID || k.Folder != n.Folder || (n.Folder && k.FolderOpen == n.Closed) || k.Visible == n.Hidden ||
			string(k.BlendMode) != mode || k.Opacity != int(n.Opacity) || k.Clipping != n.Clip || k.MaskEnabled != masked || (masked && k.MaskDefaultColor != mc0) ||
			k.BlendClippedElements == n.NoGroup {
			c.Fail("layer %d below %q: %+v instead of %+v", i, l.Name, *k, *n)
		}
		if !n.Clip {
			if base != nil && len(baseL.Clip) != clips {
				c.Fail("%q clips %d layers, expected %d", base.Name, len(baseL.Clip), clips)
			}
			base, baseL, clips = n, k, 0
			if k.ClippedBy != nil {
				c.Fail("%q is clipped", n.Name)
			}
		} else {
			if k.ClippedBy != baseL || len(baseL.Clip) <= clips || baseL.Clip[clips] != k {
				c.Fail("%q is not clipped by %q in order", n.Name, base.Name)
			}
			clips++
		}
		sameTree(c, k, n.Kids)
	}
	if base != nil && len(baseL.Clip) != clips {
		c.Fail("%q clips %d layers, expected %d", base.Name, len(baseL.Clip), clips)
	}
}

func treeCase(n int) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := genTree(c, n)
		for i, n := range d.All() {
			n.NoGroup = i%2 == 1
			n.Closed = i%3 == 1
		}
		t := load(c, d, &composite.Options{TileSize: 4})
		for _, t := range []*composite.Tree{t, t.Clone()} {
			r := &t.Root
			if r.SeqID != composite.SeqIDRoot || !r.Folder || !r.Visible || r.Opacity != 255 || string(r.BlendMode) != "norm" || r.Parent != nil {
				c.Fail("root %+v", *r)
			}
			sameTree(c, r, d.Nodes)
			if t.CanvasRect != full {
				c.Fail("canvas %v", t.CanvasRect)
			}
			want := image.Rectangle{}
			for _, n := range d.All() {
				if !n.Folder {
					want = want.Union(n.Rect)
				}
			}
			if !t.Rect.In(full) {
				c.Fail("the rendered area %v is not inside of the canvas", t.Rect)
			}
		}
		inside(c, "tree", &t.Root, nil)
		c.Validated(1)
	}
}

// names: the encoding detector sees the undecoded names and its answer decodes all of them.
func names(max, different int) func(c *mc.Case) {
	return func(c *mc.Case) { namesCase(c, max, different) }
}

func namesCase(c *mc.Case, max, different int) {
	type nm struct{ raw, luni string }
	menu := []nm{{"a", ""}, {"\x83\x8c\x83C\x83\x84", ""}, {"\xe9t\xe9", ""}, {"a", "\u30ec\u30a4\u30e4\u30fc"}, {"", ""}, {"\x83", "x"}, {"\xff\xfe", ""}}
	n := 1 + c.Choose(max, "layers")
	var use []nm
	folders := c.Choose(n+1, "folders") // the last ones are folders, each of which holds all before it
	p := &psdw.Doc{W: 2, H: 2, Channels: 3, Depth: 8, Mode: 3, Loc: psdw.LocMain, Planes: [][]byte{make([]byte, 4), make([]byte, 4), make([]byte, 4)}}
	for i := 0; i < folders; i++ {
		p.Layers = append(p.Layers, psdw.Layer{BlendMode: "norm", Name: "</x>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", -1)}}, Chans: emptyChans()})
	}
	for i := 0; i < n; i++ {
		m := menu[c.Choose(different, "name")]
		use = append(use, m)
		l := psdw.Layer{BlendMode: "norm", Opacity: 255, Name: m.raw, Chans: emptyChans()}
		if m.luni != "" {
			l.Infos = append(l.Infos, psdw.Info{Key: "luni", Data: psdw.UnicodeName(m.luni)})
		}
		if i >= n-folders {
			l.Infos = append(l.Infos, psdw.Info{Key: "lsct", Data: psdw.SectionDivider(1, "pass", -1)})
		}
		p.Layers = append(p.Layers, l)
	}
	b, _ := p.Write()
	encs := []encoding.Encoding{nil, encoding.Nop, japanese.ShiftJIS, charmap.Windows1252}
	e := encs[c.Choose(len(encs), "encoding")]
	calls := 0
	opt := &composite.Options{}
	if e != nil {
		opt.LayerNameEncodingDetector = func(s []byte) encoding.Encoding {
			calls++
			for _, m := range use {
				if m.luni == "" && !strings.Contains(string(s), m.raw) {
					c.Fail("the detector does not see the name %q: %q", m.raw, s)
				}
			}
			return e
		}
	}
	t, err := composite.New(bg, bytes.NewReader(b), opt)
	if err != nil {
		c.Fail("New: %v", err)
	}
	var got []string
	var f func(l *composite.Layer)
	f = func(l *composite.Layer) {
		for i := range l.Children {
			f(&l.Children[i])
			got = append(got, l.Children[i].Name)
		}
	}
	f(&t.Root)
	if len(got) != n {
		c.Fail("%d layers instead of %d", len(got), n)
	}
	for i, m := range use {
		want := m.luni
		if want == "" {
			want = m.raw
			if e != nil {
				if s, err := e.NewDecoder().String(m.raw); err == nil {
					want = s
				}
			}
		}
		if got[i] != want {
			c.Fail("name %d is %q, expected %q", i, got[i], want)
		}
	}
	if calls > 1 {
		c.Fail("the detector was called %d times", calls)
	}
	c.Validated(1)
}

func emptyChans() []psdw.Chan { return []psdw.Chan{{ID: -1}, {ID: 0}, {ID: 1}, {ID: 2}} }

func init() {
	reg("C31",
		mc.Scenario{Name: "attributes", Quick: true, Bound: 2, Fn: treeCase(3)},
		mc.Scenario{Name: "attributes-4", Quick: true, Bound: 1, Fn: treeCase(4)},
		mc.Scenario{Name: "attributes-4-deep", Bound: 2, Fn: treeCase(4)},
		mc.Scenario{Name: "attributes-deep", Bound: 2, Fn: treeCase(5)},
		mc.Scenario{Name: "shapes", Quick: true, Bound: 0, Fn: treeCase(6)},
		mc.Scenario{Name: "names", Quick: true, Bound: -1, Fn: names(3, 7)},
		mc.Scenario{Name: "names-nested", Quick: true, Bound: -1, Fn: names(5, 3)},
		mc.Scenario{Name: "unusual", Quick: true, Bound: -1, Fn: unusual},
	)
}

// unusual documents: refused or drawn, never a crash.
func unusual(c *mc.Case) {
	what := mc.Pick(c, "what", []string{"no layers", "missing red", "missing green", "missing blue", "short divider", "depth 16", "depth 32", "gray", "cmyk", "indexed", "empty folder", "empty layer", "psb", "shared options", "empty mask"})
	l := leafNode("a", 0, image.Rect(0, 0, 7, 6))
	d := &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{l}}
	switch what {
	case "no layers":
		d.Nodes = nil
	case "missing red", "missing green", "missing blue":
		l.Drop = map[string]int{"missing red": 1, "missing green": 2, "missing blue": 3}[what]
	case "short divider":
		for _, m := range []string{"norm", "mul "} {
			f := folderNode("f"+m, m, leafNode("b"+m, 1, image.Rect(1, 1, 5, 5)))
			f.Short = true
			d.Nodes = append(d.Nodes, f)
		}
	case "empty folder":
		d.Nodes = append(d.Nodes, folderNode("f", "norm"), folderNode("g", "pass"))
	case "empty layer":
		d.Nodes = append(d.Nodes, leafNode("e", 1, image.Rectangle{}))
	case "empty mask":
		l.Mask = &compref.Mask{Color: 255}
		l.Mask.Disabled = true
	}
	p := d.PSD()
	refuse := false
	set := func(depth, mode, chans int) {
		p.Depth, p.Mode, p.Channels, refuse = depth, mode, chans, true
		for i := range p.Layers {
			p.Layers[i].Chans = nil
			p.Layers[i].Rect = psdw.Rect{}
			for id := -1; id < chans; id++ {
				p.Layers[i].Chans = append(p.Layers[i].Chans, psdw.Chan{ID: int16(id)})
			}
		}
		p.Planes = nil
		for i := 0; i < chans; i++ {
			p.Planes = append(p.Planes, make([]byte, psdw.RowBytes(p.W, depth)*p.H))
		}
	}
	switch what {
	case "depth 16":
		set(16, 3, 3)
	case "depth 32":
		set(32, 3, 3)
	case "gray":
		set(8, 1, 1)
	case "cmyk":
		set(8, 4, 4)
	case "indexed":
		set(8, 2, 1)
		p.ModeData = make([]byte, 768)
	case "psb":
		p.PSB = true
	}
	b, _ := p.Write()
	opt := &composite.Options{TileSize: 4}
	before := *opt
	t, err := composite.New(bg, bytes.NewReader(b), opt)
	if refuse {
		if err == nil {
			c.Fail("%s: a document that is not supported is accepted", what)
		}
		return
	}
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	if opt.TileSize != before.TileSize || opt.TransformMatrix != before.TransformMatrix || (opt.LayerNameEncodingDetector == nil) != (before.LayerNameEncodingDetector == nil) {
		c.Fail("New changes the options of its caller")
	}
	compare(c, what, render(c, t, full), d, full, image.Point{})
}
