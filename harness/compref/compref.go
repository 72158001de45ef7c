// Package compref is a reference compositor: it writes layered documents and
// computes, pixel by pixel and with real numbers, what they look like. It knows
// nothing of tiles, caches, buffers or goroutines.
package compref

import (
	"image"
	"math"

	"verif.local/harness/blendref"
	"verif.local/harness/psdw"
)

// Px is a premultiplied color.
type Px struct {
	C [3]float64
	A float64
}

// Mask is a layer mask.
type Mask struct {
	Rect     image.Rectangle
	Color    byte
	Disabled bool
	At       func(x, y int) byte
}

// Node is a layer or a folder.
type Node struct {
	Name    string
	Folder  bool
	Closed  bool
	Kids    []*Node // bottom first
	Rect    image.Rectangle
	At      func(x, y int) [4]byte // non-premultiplied
	NoAlpha bool
	Drop    int    // 1..3: the channel is not stored
	Mode    string // 4 characters
	Short   bool   // folder: the divider has no blend mode of its own
	Opacity byte
	Hidden  bool
	Clip    bool
	NoGroup bool // clipped layers are not blended as a group
	Mask    *Mask
	SeqID   int // order of storage
}

// Doc is a document.
type Doc struct {
	W, H  int
	Nodes []*Node
}

// ByKey maps the blend mode keys of the file format to the modes.
var ByKey = map[string]string{
	"norm": "Normal", "dark": "Darken", "mul ": "Multiply", "idiv": "ColorBurn", "lbrn": "LinearBurn", "dkCl": "DarkerColor",
	"lite": "Lighten", "scrn": "Screen", "div ": "ColorDodge", "lddg": "LinearDodge", "lgCl": "LighterColor", "over": "Overlay",
	"sLit": "SoftLight", "hLit": "HardLight", "vLit": "VividLight", "lLit": "LinearLight", "pLit": "PinLight", "hMix": "HardMix",
	"diff": "Difference", "smud": "Exclusion", "fsub": "Subtract", "fdiv": "Divide", "hue ": "Hue", "sat ": "Saturation",
	"colr": "Color", "lum ": "Luminosity",
}

var byKey = map[string]blendref.Mode{}

func init() {
	for k, n := range ByKey {
		for _, m := range blendref.Modes {
			if m.Name == n {
				byKey[k] = m
			}
		}
	}
}

func rect(r image.Rectangle) psdw.Rect {
	return psdw.Rect{T: int32(r.Min.Y), L: int32(r.Min.X), B: int32(r.Max.Y), R: int32(r.Max.X)}
}

func (n *Node) record(seq *int) (ls []psdw.Layer) {
	if n.Folder {
		*seq++ // divider
		ls = append(ls, psdw.Layer{BlendMode: "norm", Opacity: 255, Name: "</Layer group>",
			Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", -1)}}, Chans: emptyChans()})
		for _, k := range n.Kids {
			ls = append(ls, k.record(seq)...)
		}
	}
	n.SeqID = *seq
	*seq++
	l := psdw.Layer{Rect: rect(n.Rect), BlendMode: n.Mode, Opacity: n.Opacity, Name: n.Name}
	if n.Clip {
		l.Clipping = 1
	}
	if n.Hidden {
		l.Flags |= 2
	}
	l.Infos = append(l.Infos, psdw.Info{Key: "luni", Data: psdw.UnicodeName(n.Name)})
	if n.NoGroup {
		l.Infos = append(l.Infos, psdw.Info{Key: "clbl", Data: []byte{0, 0, 0, 0}})
	}
	if n.Folder {
		l.Rect = psdw.Rect{}
		t := 1
		if n.Closed {
			t = 2
		}
		m := n.Mode
		if n.Short {
			m = ""
		} else if m == "pass" {
			l.BlendMode = "norm"
		}
		l.Infos = append(l.Infos, psdw.Info{Key: "lsct", Data: psdw.SectionDivider(t, m, -1)})
		l.Chans = emptyChans()
	} else {
		w, h := n.Rect.Dx(), n.Rect.Dy()
		p := [4][]byte{}
		for i := range p {
			p[i] = make([]byte, w*h)
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := n.At(n.Rect.Min.X+x, n.Rect.Min.Y+y)
				for i := range p {
					p[i][y*w+x] = c[i]
				}
			}
		}
		if !n.NoAlpha {
			l.Chans = append(l.Chans, psdw.Chan{ID: -1, Data: p[3]})
		}
		for i := 0; i < 3; i++ {
			if n.Drop != i+1 {
				l.Chans = append(l.Chans, psdw.Chan{ID: int16(i), Data: p[i], Comp: psdw.RLE * (i & 1)})
			}
		}
	}
	if m := n.Mask; m != nil {
		l.Mask = psdw.Mask{Present: true, Rect: rect(m.Rect), Color: m.Color}
		if m.Disabled {
			l.Mask.Flags |= 2
		}
		var d []byte
		for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
			for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
				d = append(d, m.At(x, y))
			}
		}
		l.Mask.Pad = 2
		l.Chans = append(l.Chans, psdw.Chan{ID: -2, Data: d})
	}
	return append(ls, l)
}

func emptyChans() []psdw.Chan {
	return []psdw.Chan{{ID: -1}, {ID: 0}, {ID: 1}, {ID: 2}}
}

// PSD is the document as written to the file.
func (d *Doc) PSD() *psdw.Doc {
	p := &psdw.Doc{W: d.W, H: d.H, Channels: 3, Depth: 8, Mode: 3, Loc: psdw.LocMain}
	seq := 0
	for _, n := range d.Nodes {
		p.Layers = append(p.Layers, n.record(&seq)...)
	}
	for i := 0; i < 3; i++ {
		p.Planes = append(p.Planes, make([]byte, d.W*d.H))
	}
	return p
}

// Bytes is the file.
func (d *Doc) Bytes() []byte {
	b, _ := d.PSD().Write()
	return b
}

// All are all nodes.
func (d *Doc) All() (r []*Node) {
	var f func(ns []*Node)
	f = func(ns []*Node) {
		for _, n := range ns {
			r = append(r, n)
			f(n.Kids)
		}
	}
	f(d.Nodes)
	return
}

// ContentRect is the union of the rectangles of all layers that have pixels.
func (d *Doc) ContentRect() (r image.Rectangle) {
	for _, n := range d.All() {
		if !n.Folder {
			r = r.Union(n.Rect)
		}
	}
	return
}

// Result is a pixel with a bound of the error an implementation with 8 bits may have made.
type Result struct {
	Px
	Err float64 // in 8 bit steps, premultiplied
}

// At is the pixel of the composed document.
func (d *Doc) At(x, y int) Result {
	return list(d.Nodes, Result{}, 1, x, y)
}

func list(ns []*Node, b Result, op float64, x, y int) Result {
	for i, n := range ns {
		if n.Clip {
			continue
		}
		var clips []*Node
		for _, c := range ns[i+1:] {
			if !c.Clip {
				break
			}
			clips = append(clips, c)
		}
		b = draw(n, clips, b, op, x, y)
	}
	return b
}

func (m *Mask) at(x, y int) float64 {
	if m == nil || m.Disabled {
		return 1
	}
	if (image.Point{X: x, Y: y}).In(m.Rect) {
		return float64(m.At(x, y)) / 255
	}
	return float64(m.Color) / 255
}

func (n *Node) mode() string {
	if !n.Folder && n.Mode == "pass" {
		return "norm"
	}
	return n.Mode
}

// draw draws n with the layers clipped by it on b.
func draw(n *Node, clips []*Node, b Result, scale float64, x, y int) Result {
	op := float64(n.Opacity) / 255 * scale
	if n.Hidden || op == 0 {
		return b
	}
	pass := n.mode() == "pass"
	var c Result
	switch {
	case !n.Folder:
		if !(image.Point{X: x, Y: y}).In(n.Rect) {
			return b
		}
		p := n.At(x, y)
		if n.NoAlpha {
			p[3] = 255
		}
		if n.Drop != 0 {
			p[n.Drop-1] = 0
		}
		c.A = float64(p[3]) / 255
		for i := range c.C {
			c.C[i] = float64(p[i]) / 255 * c.A
		}
	case pass:
		c = list(n.Kids, b, op, x, y)
	default:
		c = list(n.Kids, Result{}, 1, x, y)
	}
	if m := n.Mask.at(x, y); m < 1 {
		if pass {
			for i := range c.C {
				c.C[i] = c.C[i]*m + b.C[i]*(1-m)
			}
			c.A = c.A*m + b.A*(1-m)
			c.Err += b.Err + 4
		} else {
			for i := range c.C {
				c.C[i] *= m
			}
			c.A *= m
			c.Err += 2
		}
	}
	if pass {
		return c
	}
	if c.A == 0 {
		if c.Err > 0 {
			b.Err += c.Err + 1
		}
		return b
	}
	if len(clips) > 0 && !n.NoGroup {
		// the base's color, opaque, is the backdrop of the clipped layers
		g := Result{Err: c.Err / c.A}
		for i := range g.C {
			g.C[i] = c.C[i] / c.A
		}
		g.A = 1
		for _, k := range clips {
			g = draw(k, nil, g, 1, x, y)
		}
		for i := range c.C {
			c.C[i] = g.C[i] / g.A * c.A
		}
		c.Err = c.Err + g.Err + 2
	}
	return Over(b, c, op, n.mode())
}

// Over draws c on b.
func Over(b, c Result, op float64, mode string) Result {
	m, ok := byKey[mode]
	if !ok {
		m = byKey["norm"] // modes that are not supported
	}
	un := func(p Px) (r [3]float64) {
		if p.A > 0 {
			for i := range r {
				r[i] = math.Min(1, p.C[i]/p.A)
			}
		}
		return
	}
	bc, sc := un(b.Px), un(c.Px)
	sa := c.A * op
	a1, a2, a3 := sa*b.A, sa*(1-b.A), (1-sa)*b.A
	var mix [3]float64
	if m.Sep != nil {
		for i := range mix {
			mix[i] = m.Sep(bc[i], sc[i])
		}
	} else {
		mix = m.Non(bc, sc)
	}
	var r Result
	r.A = a1 + a2 + a3
	for i := range r.C {
		r.C[i] = mix[i]*a1 + sc[i]*a2 + bc[i]*a3
	}
	frac := func(v float64) bool { return v > 0 && v < 1 }
	r.Err = b.Err + c.Err
	if sa > 0 && (mode != "norm" || frac(sa)) {
		r.Err += 2
		if frac(op) {
			r.Err++
		}
		if frac(sa) {
			r.Err++
		}
		if frac(b.A) {
			r.Err += 2
		}
	}
	return r
}
