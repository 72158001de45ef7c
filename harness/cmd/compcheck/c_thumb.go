package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/oov/downscale"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

// picture is what a layer holds, cut to its visible part.
func picture(n *compref.Node) *image.NRGBA {
	if n.Folder || n.Rect.Empty() {
		return nil
	}
	var used image.Rectangle
	for y := n.Rect.Min.Y; y < n.Rect.Max.Y; y++ {
		for x := n.Rect.Min.X; x < n.Rect.Max.X; x++ {
			if n.NoAlpha || n.At(x, y)[3] > 0 {
				used = used.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	if used.Empty() {
		return nil
	}
	m := image.NewNRGBA(used)
	for y := used.Min.Y; y < used.Max.Y; y++ {
		for x := used.Min.X; x < used.Max.X; x++ {
			p := n.At(x, y)
			if n.NoAlpha {
				p[3] = 255
			}
			if p[3] > 0 {
				m.SetNRGBA(x, y, color.NRGBA{p[0], p[1], p[2], p[3]})
			}
		}
	}
	return m
}

// thumb is the expected thumbnail, nil when there is none.
func thumb(n *compref.Node, size int) *image.NRGBA {
	src := picture(n)
	if src == nil {
		return nil
	}
	w, h := src.Rect.Dx(), src.Rect.Dy()
	d := image.Rect(0, 0, w*size/h, size)
	if w > h {
		d = image.Rect(0, 0, size, h*size/w)
	}
	dst := image.NewNRGBA(d)
	if err := downscale.NRGBAFast(bg, dst, src); err != nil {
		return nil
	}
	return dst
}

func sameImg(a, b *image.NRGBA) bool {
	if a.Rect.Size() != b.Rect.Size() {
		return false
	}
	for y := 0; y < a.Rect.Dy(); y++ {
		for x := 0; x < a.Rect.Dx(); x++ {
			p, q := a.NRGBAAt(a.Rect.Min.X+x, a.Rect.Min.Y+y), b.NRGBAAt(b.Rect.Min.X+x, b.Rect.Min.Y+y)
			d := func(a, b uint8) bool { // the difference of the premultiplied values is at most one step
				v := (int(a) - int(b)) * int(p.A)
				return v >= -255 && v <= 255
			}
			if p.A != q.A || !d(p.R, q.R) || !d(p.G, q.G) || !d(p.B, q.B) {
				return false
			}
		}
	}
	return true
}

// dots is a layer with single pixels at the given points.
func dots(name string, rc image.Rectangle, pts ...image.Point) *compref.Node {
	return &compref.Node{Name: name, Mode: "norm", Opacity: 255, Rect: rc, At: func(x, y int) [4]byte {
		for i, p := range pts {
			if p.X == x && p.Y == y {
				return [4]byte{byte(40 * i), 200, byte(x * 20), byte(255 - i)}
			}
		}
		return [4]byte{}
	}}
}

func thumbOne(c *mc.Case) {
	// all pairs of opposite corners of the visible part
	rc := image.Rect(-3, -2, 6, 5)
	x0, x1 := c.Choose(9, "x0"), c.Choose(9, "x1")
	y0, y1 := c.Choose(7, "y0"), c.Choose(7, "y1")
	if x1 < x0 || y1 < y0 {
		c.Skip()
	}
	for _, ts := range []int{2, 3, 4, 64} {
		for _, gap := range []bool{false, true} {
			a, b := image.Pt(rc.Min.X+x0, rc.Min.Y+y0), image.Pt(rc.Min.X+x1, rc.Min.Y+y1)
			n := dots("a", rc, a, b)
			if gap { // the other two corners
				n = dots("a", rc, image.Pt(b.X, a.Y), image.Pt(a.X, b.Y))
			}
			d := &compref.Doc{W: 6, H: 5, Nodes: []*compref.Node{n}}
			t := load(c, d, &composite.Options{TileSize: ts})
			for size := 1; size <= 4; size++ {
				want := thumb(n, size)
				var buf []byte
				if gap {
					buf = bytes.Repeat([]byte{77}, 9000)
				}
				got, err := t.Thumbnail(n.SeqID, size, buf)
				what := fmt.Sprintf("pixels %v and %v, tile size %d, thumbnail of size %d", a, b, ts, size)
				if want == nil || want.Rect.Empty() {
					if want == nil && err == nil {
						c.Fail("%s: no error", what)
					}
					continue
				}
				if err != nil {
					c.Fail("%s: %v", what, err)
				}
				if !sameImg(got, want) {
					c.Fail("%s: %v %v instead of %v %v", what, got.Rect, got.Pix, want.Rect, want.Pix)
				}
				c.Validated(1)
			}
		}
	}
}

// thumbPatterns: every set of visible pixels of a small layer, opaque or hardly visible.
func thumbPatterns(c *mc.Case) {
	w, h := 4, 3
	if c.Thorough() {
		h = 4
	}
	rc := image.Rect(-1, -2, w-1, h-2)
	lo := c.Choose(1<<w, "row0")
	faint := c.Bool("faint")
	n := 0
	for hi := 0; hi < 1<<(w*(h-1)); hi++ {
		set := lo | hi<<w
		nd := &compref.Node{Name: "a", Mode: "norm", Opacity: 255, Rect: rc, At: func(x, y int) [4]byte {
			i := (x - rc.Min.X) + w*(y-rc.Min.Y)
			if set>>i&1 == 0 {
				return [4]byte{9, 9, 9, 0}
			}
			if faint {
				return [4]byte{byte(i * 20), 200, 3, 1}
			}
			return [4]byte{byte(i * 20), 200, 3, byte(255 - i)}
		}}
		d := &compref.Doc{W: 6, H: 5, Nodes: []*compref.Node{nd}}
		t := load(c, d, &composite.Options{TileSize: 2 + set%3})
		for size := 1; size <= 3; size++ {
			want := thumb(nd, size)
			got, err := t.Thumbnail(nd.SeqID, size, nil)
			n++
			if want == nil || want.Rect.Empty() {
				if want == nil && err == nil {
					c.Fail("pixels %012b, size %d: no error", set, size)
				}
				continue
			}
			if err != nil {
				c.Fail("pixels %012b, size %d: %v", set, size, err)
			}
			if !sameImg(got, want) {
				c.Fail("pixels %012b, size %d: %v %v instead of %v %v", set, size, got.Rect, got.Pix, want.Rect, want.Pix)
			}
		}
	}
	c.Validated(n)
	c.Visited(n, n)
}

// sheets: documents of several layers.
func sheet(c *mc.Case) {
	max := 41
	if c.Thorough() {
		max = 91
	}
	n := c.Choose(max, "layers")
	size := 1 + c.Choose(6, "size")
	c.Detail("%d layers size %d", n, size)
	d := &compref.Doc{W: 30, H: 30}
	for i := 0; i < n; i++ {
		i := i
		switch i % 5 {
		case 3:
			d.Nodes = append(d.Nodes, folderNode(fmt.Sprint("f", i), "norm", leafNode(fmt.Sprint("l", i), i, image.Rect(i, 2*i, i+6+i%4, 2*i+9))))
		case 4:
			d.Nodes = append(d.Nodes, leafNode(fmt.Sprint("e", i), i, image.Rectangle{}))
		default:
			d.Nodes = append(d.Nodes, leafNode(fmt.Sprint("l", i), i, image.Rect(-i, i, 5+i%3, 2*i+5)))
		}
	}
	t := load(c, d, &composite.Options{TileSize: 8})
	want := map[int]*image.NRGBA{}
	for _, k := range d.All() {
		if m := thumb(k, size); m != nil {
			want[k.SeqID] = m
		}
	}
	ts, err := t.Thumbnails(bg, size)
	if err != nil {
		c.Fail("Thumbnails: %v", err)
	}
	if len(ts) != len(want) {
		c.Fail("%d thumbnails instead of %d", len(ts), len(want))
	}
	for id, m := range want {
		if ts[id] == nil || !sameImg(ts[id], m) {
			c.Fail("thumbnail of layer %d differs", id)
		}
	}
	for k := 0; k < 2; k++ {
		img, rects, err := t.ThumbnailSheet(bg, size)
		if err != nil {
			c.Fail("ThumbnailSheet: %v", err)
		}
		if len(rects) != len(want) {
			c.Fail("%d rectangles instead of %d", len(rects), len(want))
		}
		covered := image.NewAlpha(img.Rect)
		for id, r := range rects {
			m := want[id]
			if m == nil || r.Dx() != size || r.Dy() != size || !r.In(img.Rect) {
				c.Fail("layer %d has rectangle %v of %v", id, r, img.Rect)
			}
			exp := image.NewNRGBA(image.Rect(0, 0, size, size))
			ox, oy := (size-m.Rect.Dx())/2, (size-m.Rect.Dy())/2
			for y := 0; y < m.Rect.Dy(); y++ {
				for x := 0; x < m.Rect.Dx(); x++ {
					exp.SetNRGBA(ox+x, oy+y, m.NRGBAAt(x, y))
				}
			}
			if !sameImg(img.SubImage(r).(*image.NRGBA), exp) {
				c.Fail("layer %d: the sheet does not hold its thumbnail at %v", id, r)
			}
			for y := r.Min.Y; y < r.Max.Y; y++ {
				for x := r.Min.X; x < r.Max.X; x++ {
					if covered.AlphaAt(x, y).A != 0 {
						c.Fail("the rectangles of two layers overlap at %d,%d", x, y)
					}
					covered.SetAlpha(x, y, color.Alpha{255})
				}
			}
		}
		for y := 0; y < img.Rect.Dy(); y++ {
			for x := 0; x < img.Rect.Dx(); x++ {
				if covered.AlphaAt(x, y).A == 0 && img.NRGBAAt(x, y).A != 0 {
					c.Fail("the sheet is not transparent outside of the rectangles at %d,%d", x, y)
				}
			}
		}
	}
	c.Validated(3)
}

func thumbErrors(c *mc.Case) {
	d := &compref.Doc{W: 6, H: 5, Nodes: []*compref.Node{leafNode("a", 0, image.Rect(0, 0, 5, 5)), folderNode("f", "norm")}}
	t := load(c, d, nil)
	for id := -3; id < 6; id++ {
		m, err := t.Thumbnail(id, 2, nil)
		if (err == nil) != (id == d.Nodes[0].SeqID) || (m == nil) != (err != nil) {
			c.Fail("Thumbnail(%d): %v, %v", id, m, err)
		}
	}
	if ms, err := t.Thumbnails(aborted(), 2); err == nil && len(ms) != 1 {
		c.Fail("Thumbnails of a cancelled context: %d thumbnails, no error", len(ms))
	}
	if ms, _, err := t.ThumbnailSheet(aborted(), 2); err == nil && ms == nil {
		c.Fail("ThumbnailSheet of a cancelled context: nothing, no error")
	}
	_ = context.Background
}

func init() {
	reg("C30",
		mc.Scenario{Name: "trim", Quick: true, Bound: -1, Fn: thumbOne},
		mc.Scenario{Name: "patterns", Quick: true, Bound: -1, Fn: thumbPatterns},
		mc.Scenario{Name: "sheet", Quick: true, Bound: -1, Fn: sheet},
		mc.Scenario{Name: "errors", Quick: true, Bound: -1, Fn: thumbErrors},
	)
	assume("C30", "downscale is replaced by a box filter: its own quality is not decided, and layers smaller than the thumbnail have none")
	reg("C32",
		mc.Scenario{Name: "documents", Quick: true, Bound: 2, Fn: exporter(3, false)},
		mc.Scenario{Name: "shapes", Quick: true, Bound: 0, Fn: exporter(5, false)},
		mc.Scenario{Name: "again", Quick: true, Bound: 1, Fn: exporter(2, true)},
		mc.Scenario{Name: "color-forms", Quick: true, Bound: -1, Fn: exportColors},
		mc.Scenario{Name: "many-layers", Quick: true, Bound: -1, Fn: exportMany},
		mc.Scenario{Name: "faults", Quick: true, Bound: -1, Fn: exportFaults},
		mc.Scenario{Name: "documents-deep", Bound: 2, Fn: exporter(4, false)},
	)
}

// exporter runs the exporter on the document in a directory of its own.
//
// again: the directory has an earlier export, of larger pictures, already.
func exporter(n int, again bool) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := genTree(c, n)
		c.Detail("document: %s", describe(d.Nodes, ""))
		dir, err := os.MkdirTemp(os.Getenv("VERIF_BIN"), "export-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		in := filepath.Join(dir, "in.psd")
		if err := os.WriteFile(in, d.Bytes(), 0o644); err != nil {
			panic(err)
		}
		// files are named by the position in the tree
		want := map[string]*compref.Node{}
		lines := []string{}
		var walk func(ns []*compref.Node, file, name string)
		walk = func(ns []*compref.Node, file, name string) {
			for i, k := range ns {
				f, nm := file+fmt.Sprintf("%03d", i), name+k.Name
				if k.Folder {
					walk(k.Kids, f+"_", nm+"/")
				} else if !k.Rect.Empty() {
					want[f+".png"] = k
					lines = append(lines, nm+" -> "+f+".png")
				}
			}
		}
		walk(d.Nodes, "", "")
		if again {
			for name := range want {
				if err := os.WriteFile(filepath.Join(dir, name), make([]byte, 100000), 0o644); err != nil {
					panic(err)
				}
			}
		}
		cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "psdexporter"), in)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "GOMAXPROCS=2"}
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			c.Fail("the exporter fails: %v\n%s", err, errb.String())
		}
		files, _ := os.ReadDir(dir)
		for _, f := range files {
			if f.Name() != "in.psd" && want[f.Name()] == nil {
				c.Fail("unexpected file %s", f.Name())
			}
		}
		for name, k := range want {
			b, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				c.Fail("the layer %q has no file %s", k.Name, name)
			}
			br := bytes.NewReader(b)
			m, err := png.Decode(br)
			if err != nil {
				c.Fail("%s: %v", name, err)
			}
			if br.Len() > 0 {
				c.Fail("%s: %d bytes follow the picture", name, br.Len())
			}
			if m.Bounds().Size() != k.Rect.Size() {
				c.Fail("%s: size %v, the layer's is %v", name, m.Bounds().Size(), k.Rect.Size())
			}
			for y := 0; y < k.Rect.Dy(); y++ {
				for x := 0; x < k.Rect.Dx(); x++ {
					p := k.At(k.Rect.Min.X+x, k.Rect.Min.Y+y)
					if k.NoAlpha {
						p[3] = 255
					}
					got := color.NRGBAModel.Convert(m.At(m.Bounds().Min.X+x, m.Bounds().Min.Y+y)).(color.NRGBA)
					if got != (color.NRGBA{p[0], p[1], p[2], p[3]}) && !(got.A == 0 && p[3] == 0) {
						c.Fail("%s: pixel (%d,%d) is %v, the layer's is %v", name, x, y, got, p)
					}
				}
			}
		}
		got := strings.Split(strings.TrimSpace(out.String()), "\n")
		if len(lines) == 0 {
			lines = []string{""}
		}
		sort.Strings(lines)
		sort.Strings(got)
		if strings.Join(lines, "|") != strings.Join(got, "|") {
			c.Fail("the exporter lists %q, expected %q", got, lines)
		}
		c.Validated(1)
	}
}
