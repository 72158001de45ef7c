// compcheck decides the properties of package composite and of the exporter.
package main

import (
	"bytes"
	"context"
	"image"
	"image/color"
	"io"
	"log"
	"math"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

var props = map[string]*mc.Property{}

func reg(id string, scs ...mc.Scenario) {
	p := props[id]
	if p == nil {
		p = &mc.Property{ID: id, Level: "model_checking"}
		props[id] = p
	}
	p.Scenarios = append(p.Scenarios, scs...)
}

func assume(id string, as ...string) {
	reg(id)
	props[id].Assumptions = append(props[id].Assumptions, as...)
}

func main() {
	log.SetOutput(io.Discard)
	mc.Main(props)
}

var bg = context.Background()

// load builds the tree of a document.
func load(c *mc.Case, d *compref.Doc, opt *composite.Options) *composite.Tree {
	b := d.Bytes()
	c.Detail("document: %s", describe(d.Nodes, ""))
	t, err := composite.New(bg, bytes.NewReader(b), opt)
	if err != nil {
		c.Fail("the document is refused: %v", err)
	}
	return t
}

func describe(ns []*compref.Node, ind string) (s string) {
	for _, n := range ns {
		k := "layer"
		if n.Folder {
			k = "folder"
		}
		s += "\n" + ind + "  " + k + " " + n.Name + " " + n.Mode
		if !n.Folder {
			s += " " + n.Rect.String()
		}
		if n.Opacity != 255 {
			s += " opacity " + itoa(int(n.Opacity))
		}
		if n.Hidden {
			s += " hidden"
		}
		if n.Clip {
			s += " clipping"
		}
		if n.NoAlpha {
			s += " without alpha"
		}
		if n.Mask != nil {
			s += " mask " + n.Mask.Rect.String() + " default " + itoa(int(n.Mask.Color))
			if n.Mask.Disabled {
				s += " disabled"
			}
		}
		s += describe(n.Kids, ind+"  ")
	}
	return
}

func itoa(v int) string {
	if v < 0 {
		return "-" + itoa(-v)
	}
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + string(rune('0'+v%10))
}

// canvas is a destination with garbage in the part that gets rendered.
func canvas(t *composite.Tree, r image.Rectangle) *image.NRGBA {
	m := image.NewNRGBA(r)
	g := t.Rect.Intersect(r)
	for y := g.Min.Y; y < g.Max.Y; y++ {
		for x := g.Min.X; x < g.Max.X; x++ {
			m.SetNRGBA(x, y, color.NRGBA{11, 222, 33, 144})
		}
	}
	return m
}

func premul(c color.NRGBA) (p compref.Px) {
	p.A = float64(c.A) / 255
	p.C = [3]float64{float64(c.R) / 255 * p.A, float64(c.G) / 255 * p.A, float64(c.B) / 255 * p.A}
	return
}

// within tells whether the pixel is what the reference says.
func within(got color.NRGBA, want compref.Result) bool {
	p := premul(got)
	lim := (want.Err + 1.5) / 255
	ok := math.Abs(p.A-want.A) <= lim
	for k := range p.C {
		ok = ok && math.Abs(p.C[k]-want.C[k]) <= lim
	}
	return ok
}

// compare checks every pixel of r against the reference, shifted by off.
func compare(c *mc.Case, what string, m *image.NRGBA, d *compref.Doc, r image.Rectangle, off image.Point) {
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			got, want := m.NRGBAAt(x, y), d.At(x-off.X, y-off.Y)
			if !within(got, want) {
				c.Fail("%s: pixel (%d,%d) is %v = premultiplied %.1f alpha %.1f, the layers give %.1f alpha %.1f (error up to %.1f)", what, x, y, got,
					scale(premul(got).C), premul(got).A*255, scale(want.C), want.A*255, want.Err+1.5)
			}
		}
	}
	c.Visited(r.Dx()*r.Dy(), r.Dx()*r.Dy())
	c.Validated(1)
}

func scale(v [3]float64) [3]float64 { return [3]float64{v[0] * 255, v[1] * 255, v[2] * 255} }

func render(c *mc.Case, t *composite.Tree, r image.Rectangle) *image.NRGBA {
	m := canvas(t, r)
	if err := t.Renderer.Render(bg, m); err != nil {
		c.Fail("Render: %v", err)
	}
	return m
}
