package main

import (
	"image"
	"image/color"
	"image/draw"
	"strings"
)

// plain hides the concrete type of an image, so that no fast path applies.
type plain struct{ draw.Image }

// Image kinds of sources and destinations.
var srcKinds = []string{"NRGBA", "RGBA", "NRGBA64", "RGBA64", "plainNRGBA", "plainRGBA"}
var dstKinds = []string{"NRGBA", "RGBA", "NRGBA64", "RGBA64", "plainNRGBA", "plainRGBA"}

func newImage(kind string, r image.Rectangle) draw.Image {
	// views of wider images: rows do not follow each other in memory
	if k := strings.TrimSuffix(kind, "-sub"); k != kind {
		big := image.Rect(r.Min.X-2, r.Min.Y-1, r.Max.X+3, r.Max.Y+2)
		m := newImage(k, big)
		return m.(interface {
			SubImage(image.Rectangle) image.Image
		}).SubImage(r).(draw.Image)
	}
	switch kind {
	case "NRGBA":
		return image.NewNRGBA(r)
	case "RGBA":
		return image.NewRGBA(r)
	case "NRGBA64":
		return image.NewNRGBA64(r)
	case "RGBA64":
		return image.NewRGBA64(r)
	case "plainNRGBA":
		return &plain{image.NewNRGBA(r)}
	case "plainRGBA":
		return &plain{image.NewRGBA(r)}
	case "Gray":
		return image.NewGray(r)
	case "Alpha":
		return image.NewAlpha(r)
	}
	panic(kind)
}

// px is a non-premultiplied color in [0,1].
type px struct {
	c [3]float64
	a float64
}

// setPx stores p in m as exactly as the type allows.
func setPx(m draw.Image, x, y int, p px) {
	if w, ok := m.(*plain); ok {
		m = w.Image
	}
	q := func(v, max float64) float64 { return float64(int(v*max + 0.5)) }
	switch t := m.(type) {
	case *image.NRGBA:
		t.SetNRGBA(x, y, color.NRGBA{uint8(q(p.c[0], 255)), uint8(q(p.c[1], 255)), uint8(q(p.c[2], 255)), uint8(q(p.a, 255))})
	case *image.RGBA:
		t.SetRGBA(x, y, color.RGBA{uint8(q(p.c[0]*p.a, 255)), uint8(q(p.c[1]*p.a, 255)), uint8(q(p.c[2]*p.a, 255)), uint8(q(p.a, 255))})
	case *image.NRGBA64:
		t.SetNRGBA64(x, y, color.NRGBA64{uint16(q(p.c[0], 65535)), uint16(q(p.c[1], 65535)), uint16(q(p.c[2], 65535)), uint16(q(p.a, 65535))})
	case *image.RGBA64:
		t.SetRGBA64(x, y, color.RGBA64{uint16(q(p.c[0]*p.a, 65535)), uint16(q(p.c[1]*p.a, 65535)), uint16(q(p.c[2]*p.a, 65535)), uint16(q(p.a, 65535))})
	default:
		panic("setPx")
	}
}

// getPx is what the image holds, without any rounding of the reader.
func getPx(m image.Image, x, y int) px {
	if w, ok := m.(*plain); ok {
		m = w.Image
	}
	un := func(r, g, b, a, max float64) px {
		if a == 0 {
			return px{}
		}
		return px{[3]float64{r / a, g / a, b / a}, a / max}
	}
	switch t := m.(type) {
	case *image.NRGBA:
		c := t.NRGBAAt(x, y)
		return px{[3]float64{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255}, float64(c.A) / 255}
	case *image.RGBA:
		c := t.RGBAAt(x, y)
		return un(float64(c.R), float64(c.G), float64(c.B), float64(c.A), 255)
	case *image.NRGBA64:
		c := t.NRGBA64At(x, y)
		return px{[3]float64{float64(c.R) / 65535, float64(c.G) / 65535, float64(c.B) / 65535}, float64(c.A) / 65535}
	case *image.RGBA64:
		c := t.RGBA64At(x, y)
		return un(float64(c.R), float64(c.G), float64(c.B), float64(c.A), 65535)
	}
	r, g, b, a := m.At(x, y).RGBA()
	return un(float64(r), float64(g), float64(b), float64(a), 65535)
}

func is16(kind string) bool { return kind == "NRGBA64" || kind == "RGBA64" }
