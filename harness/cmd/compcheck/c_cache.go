package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"reflect"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
	"verif.local/harness/sched"
)

// find looks a layer up by name.
func find(l *composite.Layer, name string) *composite.Layer {
	if l.Name == name {
		return l
	}
	for i := range l.Children {
		if r := find(&l.Children[i], name); r != nil {
			return r
		}
	}
	return nil
}

func leafNode(name string, k int, rc image.Rectangle) *compref.Node {
	return &compref.Node{Name: name, Opacity: 255, Mode: "norm", Rect: rc, At: paint(k)}
}

func folderNode(name, mode string, kids ...*compref.Node) *compref.Node {
	return &compref.Node{Name: name, Opacity: 255, Mode: mode, Folder: true, Kids: kids}
}

func with(n *compref.Node, f func(n *compref.Node)) *compref.Node { f(n); return n }

// fixed documents of the history scenarios.
var histories = []struct {
	name string
	mk   func() *compref.Doc
}{
	{"nested", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(0, 0, 7, 6)),
			folderNode("F", "norm", leafNode("b", 1, image.Rect(1, 1, 5, 4)), folderNode("G", "norm", leafNode("c", 2, image.Rect(3, 2, 7, 6)))),
		}}
	}},
	{"pass-through", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(0, 0, 7, 6)),
			folderNode("P", "pass", leafNode("b", 1, image.Rect(1, 1, 5, 4)), folderNode("Q", "pass", leafNode("c", 2, image.Rect(3, 2, 7, 6)))),
			leafNode("d", 3, image.Rect(0, 3, 3, 6)),
		}}
	}},
	{"clip", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(0, 0, 7, 6)),
			leafNode("base", 1, image.Rect(1, 0, 6, 5)),
			with(leafNode("k", 2, image.Rect(0, 1, 5, 6)), func(n *compref.Node) { n.Clip = true }),
			with(folderNode("L", "pass", leafNode("m", 3, image.Rect(2, 2, 7, 6))), func(n *compref.Node) { n.Clip = true }),
		}}
	}},
	{"clip-folder", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			folderNode("F", "norm",
				folderNode("base", "norm", leafNode("b", 1, image.Rect(1, 0, 6, 5)), leafNode("b2", 4, image.Rect(4, 3, 7, 6))),
				with(folderNode("L", "norm", leafNode("m", 3, image.Rect(2, 2, 7, 6))), func(n *compref.Node) { n.Clip = true })),
			leafNode("z", 5, image.Rect(5, 5, 6, 6)),
		}}
	}},
	{"masks", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			with(leafNode("a", 0, image.Rect(0, 0, 7, 6)), func(n *compref.Node) { n.Mask = maskMenu[1] }),
			with(folderNode("P", "pass", leafNode("b", 1, image.Rect(1, 1, 5, 4)),
				with(folderNode("N", "norm", leafNode("c", 2, image.Rect(3, 2, 7, 6))), func(n *compref.Node) { n.Mask = maskMenu[2] })),
				func(n *compref.Node) { n.Mask = maskMenu[2] }),
		}}
	}},
	{"pass-in-normal", func() *compref.Doc {
		return &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(0, 0, 7, 6)),
			folderNode("F", "norm", leafNode("b", 1, image.Rect(1, 1, 5, 4)), folderNode("Q", "pass", folderNode("R", "pass", leafNode("c", 2, image.Rect(3, 2, 7, 6)))),
				leafNode("d", 3, image.Rect(0, 3, 3, 6))),
		}}
	}},
}

var modeOf = map[string]psd.BlendMode{"norm": psd.BlendModeNormal, "mul ": psd.BlendModeMultiply, "pass": psd.BlendModePassThrough}

// change is one edit of a layer, made in the tree and in the reference.
type change struct {
	node int
	kind string
}

func changesOf(d *compref.Doc) (r []change) {
	for i, n := range d.All() {
		r = append(r, change{i, "visible"}, change{i, "opacity"})
		if n.Folder {
			r = append(r, change{i, "pass"})
		} else {
			r = append(r, change{i, "mode"})
		}
		if n.Mask != nil {
			r = append(r, change{i, "mask"})
		}
	}
	return
}

func apply(d *compref.Doc, t *composite.Tree, ch change) string {
	n := d.All()[ch.node]
	l := find(&t.Root, n.Name)
	switch ch.kind {
	case "visible":
		n.Hidden = !n.Hidden
		l.Visible = !l.Visible
	case "opacity":
		if n.Opacity == 255 {
			n.Opacity = 100
		} else {
			n.Opacity = 255
		}
		l.Opacity = int(n.Opacity)
	case "mode":
		if n.Mode == "norm" {
			n.Mode = "mul "
		} else {
			n.Mode = "norm"
		}
		l.BlendMode = modeOf[n.Mode]
	case "pass":
		if n.Mode == "pass" {
			n.Mode = "norm"
		} else {
			n.Mode = "pass"
		}
		l.BlendMode = modeOf[n.Mode]
	case "mask":
		m := *n.Mask
		m.Disabled = !m.Disabled
		n.Mask = &m
		l.MaskEnabled = !l.MaskEnabled
	}
	t.Renderer.SetDirtyByLayer(l)
	return ch.kind + " of " + n.Name
}

// legal tells whether the reference decides the document.
func legal(d *compref.Doc) bool {
	var f func(ns []*compref.Node) bool
	f = func(ns []*compref.Node) bool {
		var base *compref.Node
		for _, n := range ns {
			if !n.Clip {
				base = n
			} else if base.Folder && base.Mode == "pass" {
				return false
			}
			if !f(n.Kids) {
				return false
			}
		}
		return true
	}
	return f(d.Nodes)
}

// aborted is a context that is over.
func aborted() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}

var full = image.Rect(0, 0, cw, ch)

// check renders and compares with the reference and with a copy without caches.
func checkFresh(c *mc.Case, what string, m *image.NRGBA, d *compref.Doc, t *composite.Tree) {
	f := image.NewNRGBA(full)
	if err := t.Clone().Renderer.Render(bg, f); err != nil {
		c.Fail("Render: %v", err)
	}
	for y := 0; y < ch; y++ {
		for x := 0; x < cw; x++ {
			if a, b := m.NRGBAAt(x, y), f.NRGBAAt(x, y); a != b && !(a.A == 0 && b.A == 0) {
				c.Fail("%s: pixel (%d,%d) is %v, rendered without caches it is %v", what, x, y, a, b)
			}
		}
	}
	compare(c, what, m, d, full, image.Point{})
}

func history(depth int) func(c *mc.Case) {
	return func(c *mc.Case) {
		h := histories[c.Choose(len(histories), "document")]
		d := h.mk()
		t := load(c, d, &composite.Options{TileSize: 4})
		switch mc.Pick(c, "tree", []string{"new", "clone"}) {
		case "clone":
			t = t.Clone()
		}
		cs := changesOf(d)
		diff := image.NewNRGBA(full) // kept up to date by RenderDiff
		if c.Bool("rendered before") {
			if err := t.Renderer.RenderDiff(bg, diff); err != nil {
				c.Fail("RenderDiff: %v", err)
			}
			checkFresh(c, "first RenderDiff", diff, d, t)
		}
		what := h.name
		for i := 0; i < depth; i++ {
			what += ", " + apply(d, t, cs[c.Choose(len(cs), "change")])
			if !legal(d) {
				c.Skip()
			}
			k := 0
			if i == depth-1 {
				k = 1 + c.Choose(2, "then")
			} else {
				k = c.Choose(4, "then")
			}
			switch k {
			case 1:
				if err := t.Renderer.RenderDiff(bg, diff); err != nil {
					c.Fail("RenderDiff: %v", err)
				}
				checkFresh(c, what+": RenderDiff", diff, d, t)
			case 2:
				// a full Render takes the changes from RenderDiff: it renders to the same image
				if err := t.Renderer.Render(bg, diff); err != nil {
					c.Fail("Render: %v", err)
				}
				checkFresh(c, what+": Render", diff, d, t)
			case 3:
				what += ", aborted"
				// either it is complete or it reports that it is not
				m := image.NewNRGBA(full)
				if err := t.Renderer.RenderDiff(aborted(), diff); err == nil {
					checkFresh(c, what+": RenderDiff without error", diff, d, t)
				}
				_ = m
			}
		}
	}
}

func init() {
	reg("C25",
		mc.Scenario{Name: "history-2", Quick: true, Bound: -1, Fn: history(2)},
		mc.Scenario{Name: "abort-points", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: abortPoints(1)},
		mc.Scenario{Name: "abort-points-2", Instr: true, Tolerant: true, Bound: 2, Fn: abortPoints(2)},
		mc.Scenario{Name: "history-3", Bound: -1, Fn: history(3)},
	)
	reg("C28",
		mc.Scenario{Name: "clones", Quick: true, Bound: -1, Fn: func(c *mc.Case) { clones(c, 2) }},
		mc.Scenario{Name: "clones-3", Bound: -1, Fn: func(c *mc.Case) { clones(c, 3) }},
		mc.Scenario{Name: "structure", Quick: true, Bound: 2, Fn: structure(3)},
		mc.Scenario{Name: "structure-4", Quick: true, Bound: 1, Fn: structure(4)},
		mc.Scenario{Name: "structure-4-deep", Bound: 2, Fn: structure(4)},
		mc.Scenario{Name: "structure-6", Bound: 0, Fn: structure(6)},
	)
}

func structure(n int) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := genTree(c, n)
		t := load(c, d, &composite.Options{TileSize: 4})
		inside(c, "new tree", &t.Root, nil)
		k := t.Clone()
		inside(c, "clone", &k.Root, nil)
		kk := k.Clone()
		inside(c, "clone of a clone", &kk.Root, nil)
		// copies of trees whose layers were changed refer to the same layers
		for _, f := range []func(l *composite.Layer){
			func(l *composite.Layer) { l.Clipping = !l.Clipping },
			func(l *composite.Layer) { l.BlendClippedElements = !l.BlendClippedElements },
			func(l *composite.Layer) { l.Folder = !l.Folder },
			func(l *composite.Layer) { l.Visible = !l.Visible; l.Opacity = 0 },
			func(l *composite.Layer) {
				l.Name, l.BlendMode, l.MaskEnabled = "", psd.BlendModePassThrough, !l.MaskEnabled
			},
			func(l *composite.Layer) { l.MaskDefaultColor, l.FolderOpen = 255-l.MaskDefaultColor, !l.FolderOpen },
		} {
			var each func(l *composite.Layer)
			each = func(l *composite.Layer) {
				f(l)
				for i := range l.Children {
					each(&l.Children[i])
				}
			}
			each(&kk.Root)
			mirrors(c, "clone of a changed tree", kk, kk.Clone())
		}
		c.Validated(9)
	}
}

// clones edits two related trees alternately.
func clones(c *mc.Case, depth int) {
	h := histories[c.Choose(len(histories), "document")]
	docs := []*compref.Doc{h.mk(), h.mk()}
	t := load(c, docs[0], &composite.Options{TileSize: 4})
	warm := c.Bool("rendered before")
	if warm {
		render(c, t, full)
	}
	trees := []*composite.Tree{t, t.Clone()}
	if c.Bool("clone of a clone") {
		trees[0] = trees[1].Clone()
	}
	what := h.name
	for i := 0; i < depth; i++ {
		k := c.Choose(2, "tree")
		cs := changesOf(docs[k])
		what += fmt.Sprintf(", tree %d %s", k, apply(docs[k], trees[k], cs[c.Choose(len(cs), "change")]))
		for j := range docs {
			if !legal(docs[j]) {
				c.Skip()
			}
			checkFresh(c, fmt.Sprintf("%s: tree %d", what, j), render(c, trees[j], full), docs[j], trees[j])
		}
	}
}

// inside checks that every reference of a tree stays in the tree.
func inside(c *mc.Case, what string, root, parent *composite.Layer) {
	own := map[*composite.Layer]bool{}
	var walk func(l *composite.Layer)
	walk = func(l *composite.Layer) {
		own[l] = true
		for i := range l.Children {
			walk(&l.Children[i])
		}
	}
	walk(root)
	var f func(l, parent *composite.Layer)
	f = func(l, parent *composite.Layer) {
		if l.Parent != parent {
			c.Fail("%s: the parent of %q is not the folder that holds it", what, l.Name)
		}
		if l.ClippedBy != nil {
			if !own[l.ClippedBy] {
				c.Fail("%s: %q is clipped by a layer of another tree", what, l.Name)
			}
			ok := false
			for _, k := range l.ClippedBy.Clip {
				ok = ok || k == l
			}
			if !ok {
				c.Fail("%s: %q is clipped by %q, which does not list it", what, l.Name, l.ClippedBy.Name)
			}
		}
		for _, k := range l.Clip {
			if !own[k] || k.ClippedBy != l {
				c.Fail("%s: %q lists a clipped layer of another tree or another base", what, l.Name)
			}
		}
		for i := range l.Children {
			f(&l.Children[i], l)
		}
	}
	f(root, nil)
}

// mirrors checks that b is a complete copy of a.
func mirrors(c *mc.Case, what string, a, b *composite.Tree) {
	to := map[*composite.Layer]*composite.Layer{nil: nil}
	var pair func(x, y *composite.Layer)
	pair = func(x, y *composite.Layer) {
		to[x] = y
		if len(x.Children) != len(y.Children) {
			c.Fail("%s: %q has %d children, the original %d", what, x.Name, len(y.Children), len(x.Children))
		}
		for i := range x.Children {
			pair(&x.Children[i], &y.Children[i])
		}
	}
	pair(&a.Root, &b.Root)
	for x, y := range to {
		if x == nil {
			continue
		}
		if y.Parent != to[x.Parent] || y.ClippedBy != to[x.ClippedBy] {
			c.Fail("%s: the folder or the clipping base of %q is not the one of the original", what, x.Name)
		}
		if len(x.Clip) != len(y.Clip) {
			c.Fail("%s: %q clips %d layers, the original %d", what, x.Name, len(y.Clip), len(x.Clip))
		}
		for i := range x.Clip {
			if y.Clip[i] != to[x.Clip[i]] {
				c.Fail("%s: %q clips other layers than the original", what, x.Name)
			}
		}
		p, q := *x, *y
		for _, l := range []*composite.Layer{&p, &q} {
			l.Parent, l.Children, l.ClippedBy, l.Clip = nil, nil, nil, nil
		}
		if !reflect.DeepEqual(p, q) {
			c.Fail("%s: %+v, the original %+v", what, q, p)
		}
	}
	if a.Rect != b.Rect || a.CanvasRect != b.CanvasRect {
		c.Fail("%s: area %v, canvas %v, the original %v, %v", what, b.Rect, b.CanvasRect, a.Rect, a.CanvasRect)
	}
}

// abortPoints cancels an incremental rendering into another image at every point.
func abortPoints(depth int) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := schedDoc(c)
		t := load(c, d, &composite.Options{TileSize: 1})
		diff := image.NewNRGBA(tall)
		warm := c.Bool("rendered before")
		if warm {
			if err := t.Renderer.RenderDiff(bg, diff); err != nil {
				c.Fail("RenderDiff: %v", err)
			}
		} else {
			mustRenderTo(c, t.Clone(), diff)
		}
		what := "RenderDiff"
		cs := changesOf(d)
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{1, 2})}
		for i := 0; i < depth; i++ {
			what += ", " + apply(d, t, cs[c.Choose(len(cs), "change")])
			if !legal(d) {
				c.Skip()
			}
			other := image.NewNRGBA(tall)
			copy(other.Pix, diff.Pix)
			var err error
			controlled(c, what, s, func() {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				sched.GoLast(func() {
					sched.Current().P("cancel")
					cancel()
				})
				err = t.Renderer.RenderDiff(ctx, other)
			})
			if err == nil {
				compare(c, what+": RenderDiff", other, d, tall, image.Point{})
				copy(diff.Pix, other.Pix)
			} else if !ended(err) {
				c.Fail("RenderDiff: %v", err)
			}
			s = &sched.Sched{Delay: true, Procs: s.Procs}
		}
		if err := t.Renderer.RenderDiff(bg, diff); err != nil {
			c.Fail("RenderDiff: %v", err)
		}
		compare(c, what+", cancelled; then RenderDiff", diff, d, tall, image.Point{})
		c.Validated(1)
	}
}

var _ = bytes.NewReader
