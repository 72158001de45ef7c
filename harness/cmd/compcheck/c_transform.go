package main

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

// mapping moves pixels to pixels.
type mapping struct {
	m    f64.Aff3
	name string
}

func (m mapping) inv(x, y int) (int, int) { // pixel of the source
	fx, fy := float64(x)+.5-m.m[2], float64(y)+.5-m.m[5]
	det := m.m[0]*m.m[4] - m.m[1]*m.m[3]
	return int(math.Floor((m.m[4]*fx - m.m[1]*fy) / det)), int(math.Floor((m.m[0]*fy - m.m[3]*fx) / det))
}

func (m mapping) rect(r image.Rectangle) image.Rectangle {
	f := func(x, y int) (int, int) {
		return int(math.Round(m.m[0]*float64(x) + m.m[1]*float64(y) + m.m[2])), int(math.Round(m.m[3]*float64(x) + m.m[4]*float64(y) + m.m[5]))
	}
	x0, y0 := f(r.Min.X, r.Min.Y)
	x1, y1 := f(r.Max.X, r.Max.Y)
	return image.Rect(x0, y0, x1, y1)
}

// after is the mapping that applies a, then b.
func after(a, b mapping) mapping {
	p, q := a.m, b.m
	return mapping{f64.Aff3{
		q[0]*p[0] + q[1]*p[3], q[0]*p[1] + q[1]*p[4], q[0]*p[2] + q[1]*p[5] + q[2],
		q[3]*p[0] + q[4]*p[3], q[3]*p[1] + q[4]*p[4], q[3]*p[2] + q[4]*p[5] + q[5]}, a.name + ", " + b.name}
}

var dihedral = []mapping{
	{f64.Aff3{1, 0, 0, 0, 1, 0}, "move"}, {f64.Aff3{-1, 0, 7, 0, 1, 0}, "flip x"}, {f64.Aff3{1, 0, 0, 0, -1, 6}, "flip y"},
	{f64.Aff3{-1, 0, 7, 0, -1, 6}, "rotate 180"}, {f64.Aff3{0, 1, 0, 1, 0, 0}, "transpose"}, {f64.Aff3{0, -1, 6, 1, 0, 0}, "rotate right"},
	{f64.Aff3{0, 1, 0, -1, 0, 7}, "rotate left"}, {f64.Aff3{0, -1, 6, -1, 0, 7}, "anti-transpose"},
}

func moved(m mapping, dx, dy int) mapping {
	m.m[2] += float64(dx)
	m.m[5] += float64(dy)
	m.name += fmt.Sprintf(" by (%d,%d)", dx, dy)
	return m
}

func compareMapped(c *mc.Case, what string, t *composite.Tree, d *compref.Doc, m mapping, slack float64) {
	want := m.rect(image.Rect(0, 0, d.W, d.H))
	if t.CanvasRect != want {
		c.Fail("%s: the canvas is %v, expected %v", what, t.CanvasRect, want)
	}
	img := image.NewNRGBA(want)
	if err := t.Renderer.Render(bg, img); err != nil {
		c.Fail("Render: %v", err)
	}
	for y := want.Min.Y; y < want.Max.Y; y++ {
		for x := want.Min.X; x < want.Max.X; x++ {
			sx, sy := m.inv(x, y)
			got, w := img.NRGBAAt(x, y), d.At(sx, sy)
			w.Err += slack
			if !within(got, w) {
				c.Fail("%s: pixel (%d,%d) is %v = premultiplied %.1f alpha %.1f, the pixel (%d,%d) it comes from is %.1f alpha %.1f (error up to %.1f)", what, x, y, got,
					scale(premul(got).C), premul(got).A*255, sx, sy, scale(w.C), w.A*255, w.Err+1.5)
			}
		}
	}
	c.Visited(want.Dx()*want.Dy(), want.Dx()*want.Dy())
	c.Validated(1)
}

// transformDocs are documents with content inside and outside of the canvas.
func transformDocs() []*compref.Doc {
	var r []*compref.Doc
	for _, h := range histories {
		r = append(r, h.mk())
	}
	return append(r,
		&compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(-6, -5, 4, 9)),
			with(leafNode("b", 1, image.Rect(2, -3, 12, 3)), func(n *compref.Node) { n.Mask = maskMenu[7] }),
		}},
		&compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			leafNode("a", 0, image.Rect(0, 0, 7, 6)),
			with(leafNode("b", 1, image.Rect(-2, -2, 9, 8)), func(n *compref.Node) { n.Mask = maskMenu[8] }),
			with(leafNode("c", 2, image.Rect(1, 1, 3, 3)), func(n *compref.Node) { n.NoAlpha = true; n.Mask = maskMenu[5] }),
		}},
		&compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
			with(leafNode("a", 0, image.Rect(0, 0, 7, 6)), func(n *compref.Node) { n.Mask = maskMenu[4] }),
			with(leafNode("b", 1, image.Rect(0, 0, 7, 6)), func(n *compref.Node) { n.Mask = maskMenu[6] }),
		}})
}

func transforms(offs []image.Point, tiles []int) func(c *mc.Case) {
	return func(c *mc.Case) {
		ds := transformDocs()
		d := ds[c.Choose(len(ds), "document")]
		o := mc.Pick(c, "offset", offs)
		m := moved(mc.Pick(c, "mapping", dihedral), o.X, o.Y)
		ts := mc.Pick(c, "tile", tiles)
		gamma := mc.Pick(c, "gamma", []float64{0, 2.2})
		slack := 1.0
		if gamma != 0 {
			slack = 4
		}
		how := mc.Pick(c, "how", []string{"New", "Transform", "two steps"})
		opt := &composite.Options{TileSize: ts, Gamma: gamma}
		switch how {
		case "New":
			opt.TransformMatrix = m.m
			compareMapped(c, "New with "+m.name, load(c, d, opt), d, m, slack)
		case "Transform":
			t := load(c, d, &composite.Options{TileSize: ts})
			nt, err := t.Transform(bg, m.m, gamma)
			if err != nil {
				c.Fail("Transform: %v", err)
			}
			compareMapped(c, "Transform by "+m.name, nt, d, m, slack)
			inside(c, "transformed tree", &nt.Root, nil)
			compareMapped(c, "the tree that was transformed", t, d, dihedral[0], 0)
		default:
			first := moved(dihedral[(c.Choose(len(dihedral), "first"))], -3, 2)
			opt.TransformMatrix = first.m
			t := load(c, d, opt)
			nt, err := t.Transform(bg, m.m, gamma)
			if err != nil {
				c.Fail("Transform: %v", err)
			}
			compareMapped(c, "New, Transform by "+first.name+", "+m.name, nt, d, after(first, m), 2*slack)
		}
	}
}

// scaled draws plainly colored rectangles through other matrices; pixels whose
// neighbourhood is inside or outside of a rectangle are decided.
func scaled(c *mc.Case) {
	r3 := math.Sqrt(3) / 2
	k := mc.Pick(c, "matrix", [][4]float64{{2, 0, 0, 2}, {3, 0, 0, 3}, {.5, 0, 0, .5}, {2, 0, 0, 1}, {1, 0, 0, .5}, {1.5, 0, 0, 1.5}, {.25, 0, 0, .75},
		{r3, -.5, .5, r3}, {1, 1, -1, 1}, {1, .5, 0, 1}, {1, 0, -.25, 1}, {0, -2, 1.5, 0}, {-1.5, 0, 0, .5}, {-.6, .8, .8, .6}})
	o := mc.Pick(c, "offset", [][2]float64{{0, 0}, {5, -9}, {-12, 3}, {.5, 0}, {-1.25, 7.5}})
	gamma := mc.Pick(c, "gamma", []float64{0, 2.2})
	viaNew := c.Bool("new")
	rc := mc.Pick(c, "rect", []image.Rectangle{image.Rect(4, 4, 20, 16), image.Rect(-8, -4, 12, 12), image.Rect(0, 0, 24, 20), image.Rect(12, 8, 40, 30)})
	mask := c.Choose(3, "mask")
	mr := image.Rect(8, 4, 16, 12)
	d := &compref.Doc{W: 24, H: 20, Nodes: []*compref.Node{{Name: "a", Mode: "norm", Opacity: 255, Rect: rc, At: func(x, y int) [4]byte { return [4]byte{200, 90, 30, 255} }}}}
	switch mask {
	case 1:
		d.Nodes[0].Mask = &compref.Mask{Rect: mr, Color: 0, At: func(x, y int) byte { return 255 }}
	case 2:
		d.Nodes[0].Mask = &compref.Mask{Rect: mr, Color: 255, At: func(x, y int) byte { return 0 }}
	}
	m := f64.Aff3{k[0], k[1], o[0], k[2], k[3], o[1]}
	var t *composite.Tree
	if viaNew {
		t = load(c, d, &composite.Options{TileSize: 8, TransformMatrix: m, Gamma: gamma})
	} else {
		var err error
		if t, err = load(c, d, &composite.Options{TileSize: 8}).Transform(bg, m, gamma); err != nil {
			c.Fail("Transform: %v", err)
		}
	}
	// the canvas is the smallest one that holds its transformed corners
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, p := range [][2]float64{{0, 0}, {24, 0}, {0, 20}, {24, 20}} {
		x, y := m[0]*p[0]+m[1]*p[1]+m[2], m[3]*p[0]+m[4]*p[1]+m[5]
		x0, y0, x1, y1 = math.Min(x0, x), math.Min(y0, y), math.Max(x1, x), math.Max(y1, y)
	}
	cv := image.Rect(int(math.Floor(x0+1e-9)), int(math.Floor(y0+1e-9)), int(math.Ceil(x1-1e-9)), int(math.Ceil(y1-1e-9)))
	if g := t.CanvasRect; !cv.In(g) || !g.In(cv.Inset(-1)) {
		c.Fail("matrix %v: canvas %v, expected %v", m, g, cv)
	}
	img := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, img); err != nil {
		c.Fail("Render: %v", err)
	}
	det := m[0]*m[4] - m[1]*m[3]
	inv := [4]float64{m[4] / det, -m[1] / det, -m[3] / det, m[0] / det}
	// how far from an edge a pixel is decided, in pixels of the source
	rx, ry := math.Max(1, math.Abs(inv[0])+math.Abs(inv[1]))+.01, math.Max(1, math.Abs(inv[2])+math.Abs(inv[3]))+.01
	side := func(r image.Rectangle, sx, sy float64) int { // 1 inside, -1 outside, 0 close to the edge
		in := sx >= float64(r.Min.X)+rx && sx <= float64(r.Max.X)-rx && sy >= float64(r.Min.Y)+ry && sy <= float64(r.Max.Y)-ry
		if in {
			return 1
		}
		if sx < float64(r.Min.X)-rx || sx > float64(r.Max.X)+rx || sy < float64(r.Min.Y)-ry || sy > float64(r.Max.Y)+ry {
			return -1
		}
		return 0
	}
	decided := 0
	for y := cv.Min.Y; y < cv.Max.Y; y++ {
		for x := cv.Min.X; x < cv.Max.X; x++ {
			fx, fy := float64(x)+.5-m[2], float64(y)+.5-m[5]
			sx, sy := inv[0]*fx+inv[1]*fy, inv[2]*fx+inv[3]*fy
			s := side(rc, sx, sy)
			// what is outside of the canvas of the document may be cut off
			if side(image.Rect(0, 0, 24, 20), sx, sy) < 1 && s == 1 {
				s = 0
			}
			if mask != 0 {
				ms := side(mr, sx, sy)
				if mask == 2 {
					ms = -ms
				}
				if ms < s {
					s = ms
				} else if s == 0 && ms == -1 {
					s = -1
				}
			}
			got := img.NRGBAAt(x, y)
			want := color.NRGBA{200, 90, 30, 255}
			switch s {
			case 1:
				if !nearBy(got, want, 4) {
					c.Fail("matrix %v: pixel (%d,%d) inside of the layer is %v", m, x, y, got)
				}
				decided++
			case -1:
				if got.A != 0 {
					c.Fail("matrix %v: pixel (%d,%d) outside of the layer is %v", m, x, y, got)
				}
				decided++
			}
		}
	}
	c.Visited(decided, decided)
	c.Validated(1)
}

func nearBy(a, b color.NRGBA, n int) bool {
	f := func(x, y uint8) bool { d := int(x) - int(y); return d >= -n && d <= n }
	return f(a.R, b.R) && f(a.G, b.G) && f(a.B, b.B) && f(a.A, b.A)
}

func init() {
	reg("C29",
		mc.Scenario{Name: "whole-pixels", Quick: true, Bound: -1, Fn: transforms([]image.Point{{0, 0}, {3, -2}, {-11, 5}, {0, 3}, {-4, 0}}, []int{3, 4})},
		mc.Scenario{Name: "scaled", Quick: true, Bound: -1, Fn: scaled},
		mc.Scenario{Name: "tile-sizes", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// the tile size is of no consequence
			ts := mc.Pick(c, "tile", []int{1, 2, 3, 4, 5, 6, 7, 8, 13, 64, 0})
			x, y := c.Choose(16, "x")-6, c.Choose(14, "y")-6
			w, h := mc.Pick(c, "w", []int{1, 4, 6}), mc.Pick(c, "h", []int{1, 3, 8})
			d := &compref.Doc{W: cw, H: ch, Nodes: []*compref.Node{
				leafNode("a", 0, image.Rect(x, y, x+w, y+h)),
				with(leafNode("b", 1, image.Rect(-y, x/2, -y+4, x/2+3)), func(n *compref.Node) { n.Mask = maskMenu[1] }),
			}}
			t := load(c, d, &composite.Options{TileSize: ts})
			if t.CanvasRect != full {
				c.Fail("the canvas is %v", t.CanvasRect)
			}
			compare(c, fmt.Sprintf("tile size %d", ts), render(c, t, full), d, full, image.Point{})
		}},
		mc.Scenario{Name: "whole-pixels-wide", Bound: -1, Fn: transforms([]image.Point{{0, 0}, {3, -2}, {-11, 5}, {1, 1}, {-4, -4}, {8, 0}, {0, -7}, {20, 20}, {0, 3}, {-4, 0}}, []int{1, 2, 3, 4, 5, 7, 8, 64})},
	)
	assume("C29", "whole pixel mappings: results compared pixel by pixel; scaling: pixels further than one source or destination pixel from an edge",
		"gamma corrected transforms may be off by the resolution of the gamma table")
}
