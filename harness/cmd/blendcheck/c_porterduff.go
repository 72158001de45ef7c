package main

import (
	"image"
	"image/color"
	"image/draw"
	"math"

	"verif.local/harness/mc"
)

// srcPx is what a source image shows at a point, as premultiplied reals. An
// alpha image is black ink of that coverage (the reference images of the
// package show it like that).
func premul(p px) (c [3]float64, a float64) {
	for i := range c {
		c[i] = p.c[i] * p.a
	}
	return c, p.a
}

func (m pdMode) composed(d, s px) (co [3]float64, a float64) {
	sc, sa := premul(s)
	dc, da := premul(d)
	fs, fd := m.F(sa, da)
	for i := range co {
		co[i] = fs*sc[i] + fd*dc[i]
	}
	return co, fs*sa + fd*da
}

func (m pdMode) check(c *mc.Case, dk, sk string, d, s, got px) {
	t := tol{co: 5.0 / 65535, a: 5.0 / 65535}
	if !is16(dk) {
		t.co += 1.02 / 255
		t.a += 1.02 / 255
		if dk == "NRGBA" || dk == "plainNRGBA" {
			t.co += 1.02 / 255
		}
	}
	co, a := m.composed(d, s)
	bad := math.Abs(got.a-a) > t.a
	gc, ga := premul(got)
	for i := range co {
		if math.Abs(gc[i]-co[i]) > t.co || gc[i] > ga+1.02/255 {
			bad = true
		}
	}
	if bad {
		c.Fail("%s of %s on %s: backdrop %.5f alpha %.5f, source %.5f alpha %.5f gives premultiplied %.5f alpha %.5f, want %.5f alpha %.5f",
			m.Name, sk, dk, d.c, d.a, s.c, s.a, gc, got.a, co, a)
	}
}

func (m pdMode) sheet(c *mc.Case, dk, sk string, n int, fill func(i int) (d, s px)) {
	w := 256
	h := (n + w - 1) / w
	r := image.Rect(0, 0, w, h)
	dst := newImage(dk, r)
	src := newImage(sk, r)
	ss, before := make([]px, n), make([]px, n)
	for i := 0; i < n; i++ {
		d, s := fill(i)
		setPx(dst, i%w, i/w, d)
		if al, ok := src.(*image.Alpha); ok {
			v := uint8(math.Round(s.a * 255))
			al.SetAlpha(i%w, i/w, color.Alpha{v})
			ss[i] = px{a: float64(v) / 255}
		} else {
			setPx(src, i%w, i/w, s)
			ss[i] = getPx(src, i%w, i/w)
		}
		before[i] = getPx(dst, i%w, i/w)
	}
	m.D.Draw(dst, r, src, image.Point{})
	for i := 0; i < n; i++ {
		m.check(c, dk, sk, before[i], ss[i], getPx(dst, i%w, i/w))
	}
	c.Visited(n, n)
	c.Validated(n)
}

func init() {
	pick := func(c *mc.Case) pdMode { return pds[c.Choose(len(pds), "operator")] }
	pdSrc := append([]string{"Alpha"}, srcKinds...)
	kinds := func(c *mc.Case) (string, string) {
		dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", pdSrc)
		if sk == "Alpha" && dk != "NRGBA" && dk != "RGBA" {
			c.Skip() // see C20
		}
		return dk, sk
	}
	vals := []float64{0, 1.0 / 255, 64.0 / 255, 127.0 / 255, 128.0 / 255, 201.0 / 255, 254.0 / 255, 1}
	reg("C18",
		mc.Scenario{Name: "alphas", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pick(c)
			dk, sk := kinds(c)
			cols := mc.Pick(c, "colors", [][6]float64{{0.2, 0.6, 1, 0.8, 0.4, 0}, {0, 0.1, 0.9, 1, 0.3, 0.7}, {1, 1, 1, 1, 1, 1}})
			m.sheet(c, dk, sk, 65536, func(i int) (px, px) {
				return px{[3]float64{cols[0], cols[1], cols[2]}, float64(i&255) / 255}, px{[3]float64{cols[3], cols[4], cols[5]}, float64(i>>8) / 255}
			})
		}},
		mc.Scenario{Name: "colors", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pick(c)
			dk, sk := kinds(c)
			n := len(vals)
			m.sheet(c, dk, sk, n*n*n*n, func(i int) (px, px) {
				var v [4]int
				for k := range v {
					v[k] = i % n
					i /= n
				}
				at := func(k, by int) float64 { return vals[(v[k]+by)%n] }
				return px{[3]float64{at(0, 0), at(0, 3), at(0, 5)}, at(1, 0)}, px{[3]float64{at(2, 0), at(2, 1), at(2, 6)}, at(3, 0)}
			})
		}},
		mc.Scenario{Name: "uniform-source", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pick(c)
			dk := mc.Pick(c, "dst", dstKinds)
			u := mc.Pick(c, "color", []color.Color{color.Transparent, color.Opaque, color.Black, color.NRGBA{255, 128, 0, 128}, color.NRGBA{10, 200, 77, 254},
				color.NRGBA{255, 255, 255, 1}, color.RGBA64{0x1234, 0x0fff, 0x8000, 0x8001}, color.NRGBA64{0xffff, 0x0001, 0x7fff, 0xfffe}, color.Gray{0x33}, color.Alpha{0x80}, color.CMYK{10, 20, 30, 40}})
			r, g, b, a := u.RGBA()
			s := px{}
			if a > 0 {
				s = px{[3]float64{float64(r) / float64(a), float64(g) / float64(a), float64(b) / float64(a)}, float64(a) / 65535}
			}
			h := mc.Pick(c, "height", []int{1, 2, 5, 32})
			n := len(vals)
			w := n * n
			rect := image.Rect(-3, 5, w-3, 5+h)
			dst := newImage(dk, rect)
			before := map[image.Point]px{}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					p := image.Pt(x-3, y+5)
					setPx(dst, p.X, p.Y, px{[3]float64{vals[x%n], vals[(x+3)%n], vals[(x+y)%n]}, vals[x/n]})
					before[p] = getPx(dst, p.X, p.Y)
				}
			}
			m.D.Draw(dst, rect, image.NewUniform(u), image.Pt(mc.Pick(c, "sp", []int{0, -7, 100}), 1))
			for p, d := range before {
				m.check(c, dk, "Uniform", d, s, getPx(dst, p.X, p.Y))
			}
			c.Visited(w*h, w*h)
			c.Validated(w * h)
		}},
		mc.Scenario{Name: "deep", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pick(c)
			k := mc.Pick(c, "kinds", [][2]string{{"NRGBA64", "NRGBA64"}, {"RGBA64", "RGBA64"}, {"NRGBA64", "RGBA64"}, {"RGBA64", "NRGBA64"}})
			x0, y0 := c.Choose(16, "x")*4096, c.Choose(16, "y")*4096
			v := func(i int) float64 { return float64(i) / 65535 }
			m.sheet(c, k[0], k[1], 65536, func(i int) (px, px) {
				a, b := x0+(i&255)*16, y0+(i>>8)*16
				if i&255 == 255 {
					a = x0 + 4095
				}
				if i>>8 == 255 {
					b = y0 + 4095
				}
				return px{[3]float64{v(b), v(65535 - a), 0.5}, v(a)}, px{[3]float64{v(a), v(b), v(65535 - b)}, v(b)}
			})
		}},
	)
	assume("C18", "tolerance: the precision of the result type (one 8 bit step, two in the color of non-premultiplied types at 8 bit, 5/65535 for 16 bit types), compared premultiplied",
		"an alpha image as source counts as black ink on RGBA and NRGBA images, as the package's reference images define it; other destinations are excluded (known finding of C20)")
}

var _ draw.Image
