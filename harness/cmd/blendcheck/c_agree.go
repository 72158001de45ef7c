package main

import (
	"bytes"
	"image"
	"image/color"
	"image/draw"
	"math"

	"verif.local/harness/mc"
)

// exact colors: their premultiplied values are integers for 8 and 16 bits.
var exactC = []int{0, 5, 60, 65, 125, 130, 200, 250, 255}
var exactA = []int{0, 51, 102, 204, 255}

func exactPx(i int) (px, int) {
	n := len(exactC)
	p := px{[3]float64{float64(exactC[i%n]) / 255, float64(exactC[(i/3)%n]) / 255, float64(exactC[(i*5+2)%n]) / 255}, 0}
	i /= n
	p.a = float64(exactA[i%len(exactA)]) / 255
	return p, i / len(exactA)
}

// customColor is an image whose colors are of an unusual type.
type customImage struct {
	image.Rectangle
	at func(x, y int) px
}

type customColor struct{ p px }

func (c customColor) RGBA() (r, g, b, a uint32) {
	f := func(v float64) uint32 { return uint32(v*c.p.a*65535 + 0.5) }
	return f(c.p.c[0]), f(c.p.c[1]), f(c.p.c[2]), uint32(c.p.a*65535 + 0.5)
}

func (m customImage) Bounds() image.Rectangle { return m.Rectangle }
func (m customImage) ColorModel() color.Model {
	return color.ModelFunc(func(c color.Color) color.Color { return c })
}
func (m customImage) At(x, y int) color.Color { return customColor{m.at(x, y)} }

func init() {
	srcs := append([]string{}, srcKinds...)
	srcs = append(srcs, "Paletted", "custom", "NRGBA-sub", "RGBA-sub", "NRGBA64-sub", "RGBA64-sub", "plainNRGBA64")
	dsts := append([]string{}, dstKinds...)
	dsts = append(dsts, "NRGBA-sub", "RGBA-sub", "NRGBA64-sub", "RGBA64-sub")
	reg("C20",
		mc.Scenario{Name: "representations", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			o := ops[c.Choose(len(ops), "op")]
			mv := -1
			if !o.pd {
				mv = mc.Pick(c, "mask", []int{-1, 0x6666, 0xffff})
			}
			// every backdrop on every source, in rows
			n := len(exactC) * len(exactA)
			r := image.Rect(0, 0, n, n)
			at := func(x, y int) px { p, _ := exactPx(y); return p }
			bd := func(x, y int) px { p, _ := exactPx(x); return p }
			var ref draw.Image
			refName := ""
			draws := 0
			for _, dk := range dsts {
				for _, sk := range srcs {
					dst := newImage(dk, r)
					for y := 0; y < n; y++ {
						for x := 0; x < n; x++ {
							setPx(dst, x, y, bd(x, y))
						}
					}
					var src image.Image
					switch sk {
					case "custom":
						src = customImage{r, at}
					case "Paletted":
						p := image.NewPaletted(r, nil)
						for y := 0; y < n; y++ {
							q := at(0, y)
							p.Palette = append(p.Palette, color.NRGBA{uint8(q.c[0]*255 + .5), uint8(q.c[1]*255 + .5), uint8(q.c[2]*255 + .5), uint8(q.a*255 + .5)})
							for x := 0; x < n; x++ {
								p.SetColorIndex(x, y, uint8(y))
							}
						}
						src = p
					case "plainNRGBA64":
						m := image.NewNRGBA64(r)
						for y := 0; y < n; y++ {
							for x := 0; x < n; x++ {
								setPx(m, x, y, at(x, y))
							}
						}
						src = &plain{m}
					default:
						m := newImage(sk, r)
						for y := 0; y < n; y++ {
							for x := 0; x < n; x++ {
								setPx(m, x, y, at(x, y))
							}
						}
						src = m
					}
					mask, ma := uniformMask(mv)
					o.draw(dst, r, src, image.Point{}, mask, image.Point{})
					draws++
					if ref == nil {
						ref, refName = dst, sk+" on "+dk
						continue
					}
					for y := 0; y < n; y++ {
						for x := 0; x < n; x++ {
							a, b := getPx(ref, x, y), getPx(dst, x, y)
							lim := 4.0 / 255
							if !o.pd {
								lim += 2.0 / 255
							}
							ok := math.Abs(a.a-b.a) <= lim
							for k := 0; k < 3; k++ {
								ok = ok && math.Abs(a.a*a.c[k]-b.a*b.c[k]) <= lim
							}
							if !ok && !near(o, bd(x, y), at(x, y), a, b, ma, lim) {
								c.Fail("%s, mask %d: backdrop %.4f alpha %.4f, source %.4f alpha %.4f: %s gives %.4f alpha %.4f, %s on %s gives %.4f alpha %.4f",
									o.name, mv, bd(x, y).c, bd(x, y).a, at(x, y).c, at(x, y).a, refName, a.c, a.a, sk, dk, b.c, b.a)
							}
						}
					}
				}
			}
			c.Visited(draws*n*n, draws*n*n)
			c.Validated(draws)
		}},
		mc.Scenario{Name: "gray-source", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// opaque gray images of several types
			o := ops[c.Choose(len(ops), "op")]
			dk := mc.Pick(c, "dst", dstKinds)
			kind := mc.Pick(c, "src", []string{"Gray", "Gray16", "CMYK", "Uniform"})
			r := image.Rect(0, 0, 9*5, 256)
			mk := func() draw.Image {
				d := newImage(dk, r)
				for x := 0; x < 45; x++ {
					p, _ := exactPx(x)
					for y := 0; y < 256; y++ {
						setPx(d, x, y, p)
					}
				}
				return d
			}
			a, b := mk(), mk()
			g := image.NewRGBA64(r)
			for y := 0; y < 256; y++ {
				for x := 0; x < 45; x++ {
					g.Set(x, y, color.Gray{uint8(y)})
				}
			}
			o.draw(b, r, &plain{g}, image.Point{}, nil, image.Point{})
			for y := 0; y < 256; y++ {
				var src image.Image
				row := image.Rect(0, y, 45, y+1)
				switch kind {
				case "Gray":
					m := image.NewGray(row)
					for i := range m.Pix {
						m.Pix[i] = uint8(y)
					}
					src = m
				case "Gray16":
					m := image.NewGray16(row)
					for i := range m.Pix {
						m.Pix[i] = uint8(y)
					}
					src = m
				case "CMYK":
					m := image.NewCMYK(row)
					for i := 0; i < len(m.Pix); i += 4 {
						m.Pix[i+3] = 255 - uint8(y)
					}
					src = m
				case "Uniform":
					src = image.NewUniform(color.Gray{uint8(y)})
				}
				o.draw(a, row, src, row.Min, nil, image.Point{})
			}
			for y := 0; y < 256; y++ {
				for x := 0; x < 45; x++ {
					p, q := getPx(a, x, y), getPx(b, x, y)
					ok := math.Abs(p.a-q.a) <= 1.02/255
					for k := 0; k < 3; k++ {
						ok = ok && math.Abs(p.a*p.c[k]-q.a*q.c[k]) <= 2.02/255
					}
					if !ok {
						d, _ := exactPx(x)
						c.Fail("%s on %s: backdrop %.4f alpha %.4f, gray %d of %s gives %.4f alpha %.4f, as RGBA64 %.4f alpha %.4f",
							o.name, dk, d.c, d.a, y, kind, p.c, p.a, q.c, q.a)
					}
				}
			}
			c.Visited(45*256, 45*256)
			c.Validated(1)
		}},
		mc.Scenario{Name: "other-destinations", Quick: true, Bound: -1, Fn: otherDestinations},
		mc.Scenario{Name: "other-sources", Quick: true, Bound: -1, Fn: otherSources},
		mc.Scenario{Name: "alpha-source", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// an image.Alpha is the same source for every destination
			o := ops[c.Choose(len(ops), "op")]
			dk := mc.Pick(c, "dst", []string{"RGBA", "NRGBA64", "RGBA64", "plainNRGBA", "plainRGBA"})
			run := func(dk string, src image.Image) draw.Image {
				r := src.Bounds()
				d := newImage(dk, r)
				for y := 0; y < r.Max.Y; y++ {
					for x := 0; x < r.Max.X; x++ {
						p, _ := exactPx(x)
						setPx(d, x, y, p)
					}
				}
				o.draw(d, r, src, image.Point{}, nil, image.Point{})
				return d
			}
			r := image.Rect(0, 0, 45, 256)
			src, white := image.NewAlpha(r), image.NewRGBA64(r)
			for y := 0; y < 256; y++ {
				for x := 0; x < 45; x++ {
					src.SetAlpha(x, y, color.Alpha{uint8(y)})
					white.Set(x, y, color.Alpha{uint8(y)})
				}
			}
			same := func(a, b draw.Image) bool {
				for y := 0; y < 256; y++ {
					for x := 0; x < 45; x++ {
						p, q := getPx(a, x, y), getPx(b, x, y)
						if math.Abs(p.a-q.a) > 2.1/255 {
							return false
						}
						for k := 0; k < 3; k++ {
							if math.Abs(p.a*p.c[k]-q.a*q.c[k]) > 3.1/255 {
								return false
							}
						}
					}
				}
				return true
			}
			got := run(dk, src)
			if !same(run("NRGBA", src), got) {
				if same(run("NRGBA64", white), got) {
					c.Fail("%s of an image.Alpha on %s draws white, on NRGBA it draws black", o.name, dk)
				}
				c.Fail("%s of an image.Alpha on %s is neither black nor white", o.name, dk)
			}
			c.Visited(45*256, 45*256)
			c.Validated(1)
		}},
	)
	assume("C20", "agreement within the precision of the 8 bit path (up to six 8 bit steps premultiplied; the exact formulas are decided by C17 and C18), either side of a discontinuity is accepted")

	maskKinds := []string{"Alpha", "Alpha16", "NRGBA", "RGBA", "custom", "plainUniform", "Alpha-sub"}
	reg("C21",
		mc.Scenario{Name: "mask-images", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := modes[c.Choose(len(modes), "mode")]
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			n := 45
			cov := []int{0, 1, 51, 127, 128, 204, 254, 255}
			r := image.Rect(0, 0, n, n*len(cov))
			mk := func() draw.Image {
				d := newImage(dk, r)
				for y := 0; y < r.Max.Y; y++ {
					for x := 0; x < n; x++ {
						p, _ := exactPx(x)
						setPx(d, x, y, p)
					}
				}
				return d
			}
			src := newImage(sk, r)
			for y := 0; y < r.Max.Y; y++ {
				for x := 0; x < n; x++ {
					p, _ := exactPx(y % n)
					setPx(src, x, y, p)
				}
			}
			coverage := func(y int) int { return cov[y/n] }
			// reference: one uniform mask per band
			before := mk()
			ref := mk()
			for i, v := range cov {
				band := image.Rect(0, i*n, n, (i+1)*n)
				m.D.DrawMask(ref, band, src, band.Min, image.NewUniform(color.Alpha{uint8(v)}), image.Pt(9, 9))
			}
			// opaque masks are no masks
			none := mk()
			m.D.Draw(none, r, src, image.Point{})
			nilMask := mk()
			m.D.DrawMask(nilMask, r, src, image.Point{}, nil, image.Point{5, 5})
			if !bytes.Equal(pixBytes(none), pixBytes(nilMask)) {
				c.Fail("%s of %s on %s: a nil mask differs from no mask", m.Name, sk, dk)
			}
			full := mk()
			m.D.DrawMask(full, r, src, image.Point{}, image.NewUniform(color.Gray{7}), image.Point{5, 5})
			if !bytes.Equal(pixBytes(none), pixBytes(full)) {
				c.Fail("%s of %s on %s: an opaque uniform mask differs from no mask", m.Name, sk, dk)
			}
			off := image.Pt(-3, 2) // position of the mask
			var first draw.Image
			for _, k := range maskKinds {
				mr := r.Add(off)
				var mask image.Image
				set := func(m draw.Image, f func(v int) color.Color) image.Image {
					for y := mr.Min.Y; y < mr.Max.Y; y++ {
						for x := mr.Min.X; x < mr.Max.X; x++ {
							m.Set(x, y, f(coverage(y-off.Y)))
						}
					}
					return m
				}
				switch k {
				case "Alpha":
					mask = set(image.NewAlpha(mr), func(v int) color.Color { return color.Alpha{uint8(v)} })
				case "Alpha16":
					mask = set(image.NewAlpha16(mr), func(v int) color.Color { return color.Alpha{uint8(v)} })
				case "NRGBA": // the color of a mask does not count
					mask = set(image.NewNRGBA(mr), func(v int) color.Color { return color.NRGBA{13, 0, 255, uint8(v)} })
				case "RGBA":
					mask = set(image.NewRGBA(mr), func(v int) color.Color { return color.RGBA{0, uint8(v / 2), 0, uint8(v)} })
				case "custom":
					mask = customImage{mr, func(x, y int) px { return px{a: float64(coverage(y-off.Y)) / 255} }}
				case "plainUniform":
					u := set(image.NewAlpha(mr), func(v int) color.Color { return color.Alpha{uint8(v)} })
					mask = &plain{u.(draw.Image)}
				case "Alpha-sub":
					a := set(image.NewAlpha(mr.Inset(-3)), func(v int) color.Color { return color.Alpha{uint8(v)} })
					mask = a.(*image.Alpha).SubImage(mr)
				}
				got := mk()
				m.D.DrawMask(got, r, src, image.Point{}, mask, mr.Min)
				if first == nil {
					first = got
					for y := 0; y < r.Max.Y; y++ {
						for x := 0; x < n; x++ {
							p, q, was := getPx(ref, x, y), getPx(got, x, y), getPx(before, x, y)
							s, _ := exactPx(y % n)
							v := coverage(y)
							if v == 0 && q != was {
								c.Fail("%s of %s on %s: masked out pixel changes from %v to %v", m.Name, sk, dk, was, q)
							}
							if v == 0 && p != was {
								c.Fail("%s of %s on %s: a transparent uniform mask changes %v to %v", m.Name, sk, dk, was, p)
							}
							lim := 5.1 / 255
							ok := math.Abs(p.a-q.a) <= lim
							for i := 0; i < 3; i++ {
								ok = ok && math.Abs(p.a*p.c[i]-q.a*q.c[i]) <= lim
							}
							if !ok && !near(op{name: m.Name}, was, s, p, q, float64(v)/255, lim) {
								c.Fail("%s of %s on %s: backdrop %v, source %v, coverage %d: uniform mask gives %v, mask image %v", m.Name, sk, dk, was, s, v, p, q)
							}
							if v == 255 {
								w := getPx(none, x, y)
								ok := math.Abs(w.a-q.a) <= lim
								for i := 0; i < 3; i++ {
									ok = ok && math.Abs(w.a*w.c[i]-q.a*q.c[i]) <= lim
								}
								if !ok && !near(op{name: m.Name}, was, s, w, q, 1, lim) {
									c.Fail("%s of %s on %s: backdrop %v, source %v: opaque mask image gives %v, no mask %v", m.Name, sk, dk, was, s, q, w)
								}
							}
						}
					}
					continue
				}
				if !bytes.Equal(pixBytes(first), pixBytes(got)) {
					c.Fail("%s of %s on %s: mask of type %s differs from the same mask of type %s", m.Name, sk, dk, k, maskKinds[0])
				}
			}
			c.Visited(len(maskKinds)*n*n*len(cov), len(maskKinds)*n*n*len(cov))
			c.Validated(len(maskKinds))
		}},
		mc.Scenario{Name: "transparent-source", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// a transparent source leaves the backdrop as it is, whatever its color
			m := modes[c.Choose(len(modes), "mode")]
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", append([]string{"Uniform", "Alpha"}, srcKinds...))
			mv := mc.Pick(c, "mask", []int{-1, 0, 0x8000, 0xffff})
			r := image.Rect(0, 0, 256, 64)
			dst := newImage(dk, r)
			for y := 0; y < 64; y++ {
				for x := 0; x < 256; x++ {
					setPx(dst, x, y, px{[3]float64{float64(x) / 255, float64(255-x) / 255, float64(y*4) / 255}, float64(y*4+3) / 255})
				}
			}
			var src image.Image
			switch sk {
			case "Uniform":
				src = image.NewUniform(color.NRGBA{200, 100, 50, 0})
			case "Alpha":
				src = image.NewAlpha(r)
			default:
				s := newImage(sk, r)
				for y := 0; y < 64; y++ {
					for x := 0; x < 256; x++ {
						setPx(s, x, y, px{[3]float64{float64(y) / 255, 1, float64(255-x) / 255}, 0})
					}
				}
				src = s
			}
			before := make([]px, 256*64)
			for i := range before {
				before[i] = getPx(dst, i%256, i/256)
			}
			mask, _ := uniformMask(mv)
			for k := 0; k < 2; k++ {
				m.D.DrawMask(dst, r, src, image.Point{}, mask, image.Point{})
			}
			lim := 0.0
			if !isFast(dk) || !isFast(sk) {
				lim = 2.1 / 255 // goes through the color model of the destination twice
				if is16(dk) {
					lim = 8.1 / 65535
				}
			}
			for i := range before {
				p, q := before[i], getPx(dst, i%256, i/256)
				ok := math.Abs(p.a-q.a) <= lim
				for k := 0; k < 3; k++ {
					ok = ok && math.Abs(p.a*p.c[k]-q.a*q.c[k]) <= lim
				}
				if !ok {
					c.Fail("%s of a transparent %s on %s, mask %d: %v becomes %v", m.Name, sk, dk, mv, p, q)
				}
			}
			c.Visited(len(before), len(before))
			c.Validated(1)
		}},
		mc.Scenario{Name: "coverage-monotone", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// every 8 bit coverage gives the backdrop and the full result mixed in proportion
			m := modes[c.Choose(len(modes), "mode")]
			k := mc.Pick(c, "kinds", [][2]string{{"NRGBA", "NRGBA"}, {"NRGBA", "RGBA"}, {"RGBA", "NRGBA"}, {"RGBA", "RGBA"}, {"NRGBA64", "NRGBA"}, {"plainRGBA", "plainNRGBA"}})
			n := 45
			r := image.Rect(0, 0, n, n)
			src := newImage(k[1], r)
			for i := 0; i < n*n; i++ {
				p, _ := exactPx(i / n)
				setPx(src, i%n, i/n, p)
			}
			mk := func() draw.Image {
				d := newImage(k[0], r)
				for i := 0; i < n*n; i++ {
					p, _ := exactPx(i % n)
					setPx(d, i%n, i/n, p)
				}
				return d
			}
			before, full := mk(), mk()
			m.D.Draw(full, r, src, image.Point{})
			asImage := c.Bool("mask image")
			for v := 0; v < 256; v++ {
				d := mk()
				var mask image.Image = image.NewUniform(color.Alpha{uint8(v)})
				if asImage {
					a := image.NewAlpha(r)
					for i := range a.Pix {
						a.Pix[i] = uint8(v)
					}
					mask = a
				}
				m.D.DrawMask(d, r, src, image.Point{}, mask, image.Point{})
				for i := 0; i < n*n; i++ {
					b, f, g := getPx(before, i%n, i/n), getPx(full, i%n, i/n), getPx(d, i%n, i/n)
					t := float64(v) / 255
					lim := 6.1 / 255
					ok := math.Abs(b.a*(1-t)+f.a*t-g.a) <= lim
					for j := 0; j < 3; j++ {
						w := b.a*b.c[j]*(1-t) + f.a*f.c[j]*t
						if m.OverMax { // limited after the coverage was applied
							ok = ok && g.a*g.c[j] >= w-lim && g.a*g.c[j] <= g.a+lim
						} else {
							ok = ok && math.Abs(w-g.a*g.c[j]) <= lim
						}
					}
					if !ok {
						s, _ := exactPx(i / n)
						if near(op{name: m.Name}, b, s, g, g, t, lim) {
							continue
						}
						c.Fail("%s of %s on %s: backdrop %v, source %v: full result %v, coverage %d gives %v", m.Name, k[1], k[0], b, s, f, v, g)
					}
				}
			}
			c.Visited(256*n*n, 256*n*n)
			c.Validated(256)
		}},
	)
	assume("C21", "the color of a partially covered pixel is compared within five 8 bit steps (premultiplied); masked out pixels are compared exactly")
}

func isFast(k string) bool { return k == "NRGBA" || k == "RGBA" }

// near tells whether a and b are both results that the reference allows when
// the input colors are perturbed by the precision of an 8 bit image: they may
// lie on different sides of a discontinuity.
func near(o op, d, s, a, b px, ma float64, lim float64) bool {
	for _, m := range modes {
		if m.Name != o.name {
			continue
		}
		t := tol{dd: 2.0 / 255, ds: 2.0 / 255}
		lo, hi := m.hull(d, s, ma, t, 1)
		for k := 0; k < 3; k++ {
			for _, g := range []px{a, b} {
				if v := g.a * g.c[k]; v < lo[k]-lim || v > hi[k]+lim {
					return false
				}
			}
		}
		return math.Abs(a.a-b.a) <= lim
	}
	return false
}

// otherDestinations: what is drawn on an image of any type is what is drawn
// on a RGBA64 image, converted to the colors of the image.
func otherDestinations(c *mc.Case) {
	o := ops[c.Choose(len(ops), "op")]
	sk := mc.Pick(c, "src", append([]string{"Alpha", "Uniform"}, srcKinds...))
	if sk == "Alpha" {
		// decided by alpha-source
		c.Skip()
	}
	kind := mc.Pick(c, "dst", []string{"Gray", "Gray16", "CMYK", "Alpha", "Alpha16", "custom"})
	mk := 0
	if !o.pd {
		mk = c.Choose(3, "mask")
	}
	r := image.Rect(-3, 2, 42, 2+32)
	mkDst := func() draw.Image {
		switch kind {
		case "Gray":
			return image.NewGray(r)
		case "Gray16":
			return image.NewGray16(r)
		case "CMYK":
			return image.NewCMYK(r)
		case "Alpha":
			return image.NewAlpha(r)
		case "Alpha16":
			return image.NewAlpha16(r)
		}
		return &sparse{r, make([]color.RGBA64, r.Dx()*r.Dy())}
	}
	dst, ref := mkDst(), image.NewRGBA64(r)
	src := newSrc(sk, r)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if sk != "Uniform" {
				p, _ := exactPx(x - r.Min.X)
				setPx(src.(draw.Image), x, y, p)
			}
			p, _ := exactPx((y*7 + 3) % 45)
			t := image.NewRGBA64(image.Rect(0, 0, 1, 1))
			setPx(t, 0, 0, p)
			dst.Set(x, y, t.At(0, 0))
			ref.Set(x, y, dst.At(x, y))
		}
	}
	var mask image.Image
	switch mk {
	case 1:
		mask = image.NewUniform(color.Alpha{0x66})
	case 2:
		a := image.NewAlpha(r)
		for i := range a.Pix {
			a.Pix[i] = uint8(i * 5)
		}
		mask = a
	}
	o.draw(dst, r, src, r.Min, mask, r.Min)
	o.draw(&plain{ref}, r, src, r.Min, mask, r.Min)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			a, b := dst.At(x, y), dst.ColorModel().Convert(ref.At(x, y))
			if !closeColor(a, b, 0x202) {
				c.Fail("%s of %s on %s at %d,%d: %v, on a RGBA64 image %v", o.name, sk, kind, x, y, a, b)
			}
		}
	}
	c.Visited(r.Dx()*r.Dy(), r.Dx()*r.Dy())
	c.Validated(1)
}

// otherSources: what is drawn is what the At method of the source says.
func otherSources(c *mc.Case) {
	o := ops[c.Choose(len(ops), "op")]
	dk := mc.Pick(c, "dst", dstKinds)
	kind := mc.Pick(c, "src", []string{"YCbCr", "NYCbCrA", "CMYK", "Alpha16", "Paletted", "Gray-sub"})
	mk := 0
	if !o.pd {
		mk = c.Choose(3, "mask")
	}
	r := image.Rect(0, 0, 40, 24)
	var src image.Image
	switch kind {
	case "YCbCr":
		m := image.NewYCbCr(r, image.YCbCrSubsampleRatio420)
		for i := range m.Y {
			m.Y[i] = uint8(i * 13)
		}
		for i := range m.Cb {
			m.Cb[i], m.Cr[i] = uint8(i*29), uint8(255-i*17)
		}
		src = m
	case "NYCbCrA":
		m := image.NewNYCbCrA(r, image.YCbCrSubsampleRatio444)
		for i := range m.Y {
			m.Y[i], m.Cb[i], m.Cr[i], m.A[i] = uint8(i*13), uint8(i*29), uint8(255-i*17), uint8(i*7)
		}
		src = m
	case "CMYK":
		m := image.NewCMYK(r)
		for i := range m.Pix {
			m.Pix[i] = uint8(i * 11)
		}
		src = m
	case "Alpha16":
		m := image.NewAlpha16(r)
		for i := range m.Pix {
			m.Pix[i] = uint8(i * 11)
		}
		src = m
	case "Paletted":
		m := image.NewPaletted(r, color.Palette{color.NRGBA{200, 100, 0, 128}, color.Gray16{0x8421}, color.Transparent, color.CMYK{10, 200, 30, 40}})
		for i := range m.Pix {
			m.Pix[i] = uint8(i % 4)
		}
		src = m
	case "Gray-sub":
		m := image.NewGray(image.Rect(-3, -1, 45, 30))
		for i := range m.Pix {
			m.Pix[i] = uint8(i * 11)
		}
		src = m.SubImage(r)
	}
	copied := image.NewRGBA64(r)
	for y := 0; y < r.Max.Y; y++ {
		for x := 0; x < r.Max.X; x++ {
			copied.Set(x, y, src.At(x, y))
		}
	}
	var mask image.Image
	switch mk {
	case 1:
		mask = image.NewUniform(color.Alpha{0x66})
	case 2:
		a := image.NewAlpha(r)
		for i := range a.Pix {
			a.Pix[i] = uint8(i * 5)
		}
		mask = a
	}
	a, b := newImage(dk, r), newImage(dk, r)
	for y := 0; y < r.Max.Y; y++ {
		for x := 0; x < r.Max.X; x++ {
			p, _ := exactPx((y*7 + x*5) % 45)
			setPx(a, x, y, p)
			setPx(b, x, y, p)
		}
	}
	o.draw(a, r, src, image.Point{}, mask, image.Point{})
	o.draw(b, r, &plain{copied}, image.Point{}, mask, image.Point{})
	for y := 0; y < r.Max.Y; y++ {
		for x := 0; x < r.Max.X; x++ {
			if p, q := a.At(x, y), b.At(x, y); !closeColor(p, q, 0x202) {
				c.Fail("%s of %s on %s at %d,%d (%v): %v, of a RGBA64 copy %v", o.name, kind, dk, x, y, src.At(x, y), p, q)
			}
		}
	}
	c.Visited(r.Dx()*r.Dy(), r.Dx()*r.Dy())
	c.Validated(1)
}

func closeColor(a, b color.Color, tol int) bool {
	r0, g0, b0, a0 := a.RGBA()
	r1, g1, b1, a1 := b.RGBA()
	for _, d := range []int{int(r0) - int(r1), int(g0) - int(g1), int(b0) - int(b1), int(a0) - int(a1)} {
		if d > tol || -d > tol {
			return false
		}
	}
	return true
}

func newSrc(kind string, r image.Rectangle) image.Image {
	if kind == "Uniform" {
		return image.NewUniform(color.NRGBA{200, 100, 50, 180})
	}
	return newImage(kind, r)
}

// sparse is an image that keeps the colors it is given. Its bounds may not be exceeded.
type sparse struct {
	image.Rectangle
	m []color.RGBA64
}

func (s *sparse) Bounds() image.Rectangle { return s.Rectangle }
func (s *sparse) ColorModel() color.Model {
	return color.ModelFunc(func(c color.Color) color.Color { return c })
}
func (s *sparse) at(x, y int) *color.RGBA64 {
	return &s.m[(y-s.Min.Y)*s.Dx()+x-s.Min.X]
}
func (s *sparse) At(x, y int) color.Color { return *s.at(x, y) }
func (s *sparse) Set(x, y int, c color.Color) {
	r, g, b, a := c.RGBA()
	*s.at(x, y) = color.RGBA64{uint16(r), uint16(g), uint16(b), uint16(a)}
}
