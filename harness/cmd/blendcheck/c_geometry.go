package main

import (
	"bytes"
	"image"
	"image/color"
	"image/draw"

	"verif.local/harness/mc"
)

// op is a blend mode or a Porter-Duff operator.
type op struct {
	name string
	d    draw.Drawer
	pd   bool
}

var ops = allOps()

func allOps() (ops []op) {
	for _, m := range modes {
		ops = append(ops, op{m.Name, m.D, false})
	}
	for _, m := range pds {
		ops = append(ops, op{m.Name, m.D, true})
	}
	return
}

type masker interface {
	DrawMask(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point)
}

func (o op) draw(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point) {
	if mask == nil {
		o.d.Draw(dst, r, src, sp)
	} else {
		o.d.(masker).DrawMask(dst, r, src, sp, mask, mp)
	}
}

// pixBytes gives access to the memory of an image.
func pixBytes(m image.Image) []byte {
	switch t := m.(type) {
	case *plain:
		return pixBytes(t.Image)
	case *image.NRGBA:
		return t.Pix
	case *image.RGBA:
		return t.Pix
	case *image.NRGBA64:
		return t.Pix
	case *image.RGBA64:
		return t.Pix
	case *image.Alpha:
		return t.Pix
	}
	panic("pixBytes")
}

// sub returns the sub-image of m; plain images stay plain.
func sub(m draw.Image, r image.Rectangle) draw.Image {
	switch t := m.(type) {
	case *plain:
		return &plain{sub(t.Image, r)}
	case interface {
		SubImage(image.Rectangle) image.Image
	}:
		return t.SubImage(r).(draw.Image)
	}
	panic("sub")
}

func setAny(m draw.Image, x, y int, p px) {
	if t, ok := m.(*image.Alpha); ok {
		t.SetAlpha(x, y, color.Alpha{uint8(p.a*255 + 0.5)})
		return
	}
	setPx(m, x, y, p)
}

// pixel k of a family of distinct pixels.
func nth(k int) px {
	f := func(n int) float64 { return float64((n%256+256)%256) / 255 }
	al := []float64{1, 200.0 / 255, 128.0 / 255, 1, 255.0 / 255, 90.0 / 255}
	return px{[3]float64{f(37*k + 11), f(91*k + 100), f(200 - 53*k)}, al[(k%6+6)%6]}
}

// geometry is a menu of image bounds, rectangles and positions.
type geometry struct {
	dB, sB, mB image.Rectangle
	ivs        [][2]int
	sps, mps   []image.Point
}

var smallGeo = geometry{
	dB: image.Rect(-2, 1, 1, 4), sB: image.Rect(4, -1, 8, 2), mB: image.Rect(1, 1, 4, 3),
	ivs: [][2]int{{0, 3}, {1, 3}, {0, 1}, {-2, 2}, {1, 5}, {-1, 4}, {2, 2}, {4, 6}, {2, 1}},
	sps: []image.Point{{0, 0}, {1, 0}, {0, 2}, {-1, -2}, {2, -1}, {5, 5}, {3, 1}, {-2, 0}, {0, -1}, {-6, 0}, {0, 9}, {-1, 2}},
	mps: []image.Point{{0, 0}, {1, 1}, {-1, 0}, {-2, -1}, {1, -1}, {2, 0}, {0, 3}, {-4, -4}},
}

// largeGeo has enough rows for the work to be split.
var largeGeo = geometry{
	dB: image.Rect(-7, 3, 26, 44), sB: image.Rect(100, -50, 137, -11), mB: image.Rect(0, 0, 35, 38),
	ivs: [][2]int{{0, 33}, {2, 31}, {-5, 50}, {30, 60}},
	sps: []image.Point{{0, 0}, {3, 5}, {-4, -6}, {20, -30}},
	mps: []image.Point{{0, 0}, {4, 1}, {-3, -9}},
}

func init() {
	reg("C19",
		mc.Scenario{Name: "clipping", Quick: true, Bound: -1, Fn: func(c *mc.Case) { clipping(c, smallGeo) }},
		mc.Scenario{Name: "clipping-large", Quick: true, Bound: -1, Fn: func(c *mc.Case) { clipping(c, largeGeo) }},
		mc.Scenario{Name: "empty", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// nothing is drawn and nothing breaks when some image is empty or far away
			o := ops[c.Choose(len(ops), "op")]
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			n := 0
			rects := []image.Rectangle{{}, image.Rect(0, 0, 2, 0), image.Rect(0, 0, 0, 2), image.Rect(5, 5, 7, 7), image.Rect(-1<<31, -1<<31, 1<<31-1, 1<<31-1)}
			for _, dB := range []image.Rectangle{{}, image.Rect(0, 0, 2, 2), image.Rect(3, 3, 3, 9)} {
				for _, sB := range []image.Rectangle{{}, image.Rect(0, 0, 2, 2), image.Rect(-5, -5, -5, -1)} {
					for _, r := range rects {
						for _, mk := range []int{0, 1, 2} {
							if mk > 0 && o.pd {
								continue
							}
							dst, src := newImage(dk, dB), newImage(sk, sB)
							before := append([]byte(nil), pixBytes(dst)...)
							var mask image.Image
							if mk == 1 {
								mask = image.NewAlpha(image.Rectangle{})
							} else if mk == 2 {
								mask = image.NewUniform(color.Opaque)
							}
							o.draw(dst, r, src, image.Point{}, mask, image.Point{})
							if (dB.Empty() || sB.Empty() || mk == 1 || r.Intersect(dB).Empty()) && !bytes.Equal(before, pixBytes(dst)) {
								c.Fail("%s of %s %v on %s %v, rectangle %v: something was drawn", o.name, sk, sB, dk, dB, r)
							}
							n++
						}
					}
				}
			}
			c.Visited(n, n)
			c.Validated(n)
		}},
	)
	assume("C19", "what a pixel becomes is taken from drawing that pixel alone (the value itself is decided by C17 and C18)")
}

func clipping(c *mc.Case, g geometry) {
	srcs := append([]string{"Alpha", "Uniform"}, srcKinds...)

	o := ops[c.Choose(len(ops), "op")]
	dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcs)
	if (sk == "Alpha" || sk == "Uniform") && !o.pd {
		if sk == "Alpha" {
			c.Skip()
		}
	}
	maskKind := "none"
	if !o.pd {
		maskKind = mc.Pick(c, "mask", []string{"none", "Uniform", "Alpha"})
	}
	geo := c.Choose(4, "views")
	dsub, ssub := geo&1 == 1, geo&2 == 2

	// destination: bounds dB, inside of a larger image when dsub
	dB := g.dB
	whole := dB
	if dsub {
		whole = dB.Inset(-2)
		whole.Max.X++
	}
	dAll := newImage(dk, whole)
	D := px{[3]float64{0.4, 0.6, 0.2}, 200.0 / 255}
	for y := whole.Min.Y; y < whole.Max.Y; y++ {
		for x := whole.Min.X; x < whole.Max.X; x++ {
			setPx(dAll, x, y, D)
		}
	}
	dst := dAll
	if dsub {
		dst = sub(dAll, dB)
	}
	// source
	sB := g.sB
	var src image.Image
	sIdx := func(p image.Point) int { return ((p.X - sB.Min.X) + 4*(p.Y-sB.Min.Y)) % 12 }
	if sk == "Uniform" {
		src = image.NewUniform(color.NRGBA{200, 100, 50, 180})
		sIdx = func(image.Point) int { return 0 }
	} else {
		w := sB
		if ssub {
			w = w.Inset(-1)
		}
		s := newImage(sk, w)
		for y := w.Min.Y; y < w.Max.Y; y++ {
			for x := w.Min.X; x < w.Max.X; x++ {
				if (image.Point{x, y}).In(sB) {
					setAny(s, x, y, nth(sIdx(image.Point{x, y})))
				} else {
					setAny(s, x, y, nth(77))
				}
			}
		}
		if ssub {
			s = sub(s, sB)
		}
		src = s
	}
	// mask
	mB := g.mB
	var mask image.Image
	mIdx := func(p image.Point) int { return 0 }
	nMask := 1
	coverage := []uint8{255, 128, 0, 77, 200, 255}
	switch maskKind {
	case "Uniform":
		mask = image.NewUniform(color.Alpha{128})
	case "Alpha":
		mIdx = func(p image.Point) int { return ((p.X - mB.Min.X) + 3*(p.Y-mB.Min.Y)) % 6 }
		a := image.NewAlpha(mB.Inset(-1))
		for i := range a.Pix {
			a.Pix[i] = 222
		}
		for y := mB.Min.Y; y < mB.Max.Y; y++ {
			for x := mB.Min.X; x < mB.Max.X; x++ {
				a.SetAlpha(x, y, color.Alpha{coverage[mIdx(image.Point{x, y})]})
			}
		}
		mask = a.SubImage(mB)
		nMask = 6
	}
	// what one pixel becomes: drawn alone
	nSrc := 12
	if sk == "Uniform" {
		nSrc = 1
	}
	lut := make([][]byte, nSrc*nMask)
	bpp := len(pixBytes(dAll)) / (whole.Dx() * whole.Dy())
	for i := range lut {
		one := image.Rect(0, 0, 1, 1)
		d := newImage(dk, one)
		setPx(d, 0, 0, D)
		var s image.Image = src
		if sk != "Uniform" {
			s1 := newImage(sk, one)
			setAny(s1, 0, 0, nth(i%nSrc))
			s = s1
		}
		m := mask
		if maskKind == "Alpha" {
			m1 := image.NewAlpha(one)
			m1.SetAlpha(0, 0, color.Alpha{coverage[i/nSrc]})
			m = m1
		}
		o.draw(d, one, s, image.Point{}, m, image.Point{})
		lut[i] = pixBytes(d)
	}
	base := append([]byte(nil), pixBytes(dAll)...)
	want := make([]byte, len(base))
	sps := g.sps
	mps := []image.Point{{0, 0}}
	if maskKind == "Alpha" {
		mps = g.mps
	}
	n := 0
	for _, ix := range g.ivs {
		for _, iy := range g.ivs {
			r := image.Rectangle{image.Point{ix[0], iy[0]}, image.Point{ix[1], iy[1]}}.Add(dB.Min)
			for _, so := range sps {
				for _, mo := range mps {
					sp, mp := sB.Min.Add(so), mB.Min.Add(mo)
					if sk == "Uniform" {
						sp = so
					}
					pb := pixBytes(dAll)
					copy(pb, base)
					o.draw(dst, r, src, sp, mask, mp)
					copy(want, base)
					for y := r.Min.Y; y < r.Max.Y; y++ {
						for x := r.Min.X; x < r.Max.X; x++ {
							p := image.Point{x, y}
							ps, pm := p.Sub(r.Min).Add(sp), p.Sub(r.Min).Add(mp)
							if !p.In(dB) || sk != "Uniform" && !ps.In(sB) || maskKind == "Alpha" && !pm.In(mB) {
								continue
							}
							k := sIdx(ps)
							if maskKind == "Alpha" {
								k += nSrc * mIdx(pm)
							}
							copy(want[((y-whole.Min.Y)*whole.Dx()+x-whole.Min.X)*bpp:], lut[k])
						}
					}
					if !bytes.Equal(pb, want) {
						i := 0
						for pb[i] == want[i] {
							i++
						}
						i /= bpp
						c.Fail("%s of %s on %s, mask %s: dst bounds %v, rectangle %v, src bounds %v at %v, mask bounds %v at %v: pixel %v is % x, want % x",
							o.name, sk, dk, maskKind, dB, r, sB, sp, mB, mp, image.Pt(i%whole.Dx()+whole.Min.X, i/whole.Dx()+whole.Min.Y),
							pb[i*bpp:i*bpp+bpp], want[i*bpp:i*bpp+bpp])
					}
					n++
				}
			}
		}
	}
	c.Visited(n, n)
	c.Validated(n)
}
