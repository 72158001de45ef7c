package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"

	"verif.local/harness/mc"
)

// fast8 tells whether a draw is computed with 8 bit integers.
func fast8(d, s string) bool { return d == "NRGBA" && s == "NRGBA" }

func bits(kind string) float64 {
	if is16(kind) {
		return 65535
	}
	return 255
}

// tolerances of the composed premultiplied color and alpha.
type tol struct {
	co, a  float64
	dd, ds float64 // how far the color of backdrop and source may be perturbed
}

func tolerance(dk, sk string, d, s px, ma float64) tol {
	var t tol
	if fast8(dk, sk) {
		// every truncated 8 bit product loses up to one step
		frac := func(x float64) bool { return x > 0 && x < 1 }
		n := 0.1
		if frac(ma) {
			n++
		}
		if frac(ma) && frac(s.a) {
			n++
		}
		if frac(d.a) && (frac(ma) || frac(s.a)) {
			n += 2
		}
		t = tol{co: (n + 2) / 255, a: n / 255, dd: 1.5 / 255, ds: 1.5 / 255}
	} else {
		t = tol{co: 6.0 / 65535, a: 5.0 / 65535, dd: 2.0 / 65535, ds: 2.0 / 65535}
		if !is16(dk) {
			t.co += 1.02 / 255
			t.a += 1.02 / 255
			if dk == "NRGBA" || dk == "plainNRGBA" {
				t.co += 1.02 / 255 // color and alpha are both rounded
			}
		}
	}
	// the 16 bit premultiplied value of a translucent color carries less of it
	if d.a > 0 {
		t.dd += 2 / (65535 * d.a)
	}
	if s.a > 0 {
		t.ds += 2 / (65535 * s.a)
	}
	return t
}

func clamp(x float64) float64 { return math.Max(0, math.Min(1, x)) }

// composed is the premultiplied result for backdrop d, source s, coverage ma.
func (m mode) composed(d, s px, ma float64) (co [3]float64, a float64) {
	sa := s.a * ma
	a1, a2, a3 := sa*d.a, sa*(1-d.a), (1-sa)*d.a
	a = a1 + a2 + a3
	var b [3]float64
	if m.Sep != nil {
		for i := range b {
			b[i] = m.Sep(d.c[i], s.c[i])
		}
	} else {
		b = m.Non(d.c, s.c)
	}
	for i := range b {
		co[i] = b[i]*a1 + s.c[i]*a2 + d.c[i]*a3
		if m.OverMax {
			co[i] = math.Min(co[i], a)
		}
	}
	return
}

// hull is the range of composed colors when the inputs are perturbed by tol.
func (m mode) hull(d, s px, ma float64, t tol, steep float64) (lo, hi [3]float64) {
	lo = [3]float64{9, 9, 9}
	hi = [3]float64{-9, -9, -9}
	add := func(d, s px) {
		co, _ := m.composed(d, s, ma)
		for i := range co {
			lo[i] = math.Min(lo[i], co[i])
			hi[i] = math.Max(hi[i], co[i])
		}
	}
	if m.Sep != nil {
		for i := -2; i <= 2; i++ {
			for j := -2; j <= 2; j++ {
				d2, s2 := d, s
				for k := 0; k < 3; k++ {
					d2.c[k] = clamp(d.c[k] + float64(i)/2*t.dd)
					s2.c[k] = clamp(s.c[k] + float64(j)/2*t.ds)
				}
				add(d2, s2)
			}
		}
		return
	}
	for n := 0; n < 729; n++ {
		v, d2, s2 := n, d, s
		for k := 0; k < 3; k++ {
			d2.c[k] = clamp(d.c[k] + float64(v%3-1)*t.dd*steep)
			v /= 3
			s2.c[k] = clamp(s.c[k] + float64(v%3-1)*t.ds*steep)
			v /= 3
		}
		add(d2, s2)
	}
	return
}

// check compares one drawn pixel with the reference.
func (m mode) check(dk, sk string, d, s, got px, ma float64) (string, float64) {
	t := tolerance(dk, sk, d, s, ma)
	if m.Non != nil && fast8(dk, sk) {
		t.co += 2.0 / 255 // the luminance has 8 bits too, and is used twice
	}
	co, a := m.composed(d, s, ma)
	if s.a*ma == 0 || d.a == 0 && s.a == 0 {
		a = d.a
		for i := range co {
			co[i] = d.c[i] * d.a
		}
	}
	if math.Abs(got.a-a) > t.a {
		return fmt.Sprintf("alpha %.5f, want %.5f", got.a, a), 0
	}
	worst := 0.0
	bad := -1
	for i := range co {
		g := got.c[i] * got.a
		e := math.Abs(g - co[i])
		worst = math.Max(worst, e)
		if e > t.co {
			bad = i
		}
	}
	if bad < 0 {
		return "", worst
	}
	lo, hi := m.hull(d, s, ma, t, 1)
	for i := range co {
		g := got.c[i] * got.a
		if g < lo[i]-t.co || g > hi[i]+t.co {
			return fmt.Sprintf("channel %d: premultiplied %.5f, want %.5f (%.5f..%.5f)", i, g, co[i], lo[i], hi[i]), worst
		}
	}
	return "", worst
}

// maskImage is a mask of coverage v (16 bit); nil for "none".
func uniformMask(v int) (image.Image, float64) {
	if v < 0 {
		return nil, 1
	}
	return image.NewUniform(color.Alpha16{uint16(v)}), float64(v) / 65535
}

// sheet fills a pair of images with n pixels and draws them on one another.
func sheet(c *mc.Case, m mode, dk, sk string, n int, fill func(i int) (d, s px), mask image.Image, ma float64) {
	w := 256
	h := (n + w - 1) / w
	r := image.Rect(0, 0, w, h)
	dst, src := newImage(dk, r), newImage(sk, r)
	for i := 0; i < n; i++ {
		d, s := fill(i)
		setPx(dst, i%w, i/w, d)
		setPx(src, i%w, i/w, s)
	}
	before := make([]px, n)
	for i := range before {
		before[i] = getPx(dst, i%w, i/w)
	}
	if mask == nil && c.Choose(2, "entry") == 0 {
		m.D.Draw(dst, r, src, image.Point{})
	} else {
		m.D.DrawMask(dst, r, src, image.Point{}, mask, image.Point{3, -7})
	}
	worst := 0.0
	for i := 0; i < n; i++ {
		s, got := getPx(src, i%w, i/w), getPx(dst, i%w, i/w)
		why, e := m.check(dk, sk, before[i], s, got, ma)
		if why != "" {
			c.Fail("%s of %s on %s: backdrop %.5f alpha %.5f, source %.5f alpha %.5f, coverage %.5f gives %.5f alpha %.5f: %s",
				m.Name, sk, dk, before[i].c, before[i].a, s.c, s.a, ma, got.c, got.a, why)
		}
		worst = math.Max(worst, e)
	}
	c.Visited(n, n)
	c.Validated(n)
	c.Obs(int(worst * 10000))
	if stat != nil {
		stat(m.Name, dk, sk, worst)
	}
}

var stat func(mode, dk, sk string, worst float64)

func gray(v, a float64) px { return px{[3]float64{v, v, v}, a} }

func init() {
	pickModes := func(c *mc.Case) mode {
		i := c.Choose(len(modes), "mode")
		return modes[i]
	}
	sep := func(c *mc.Case) mode {
		m := pickModes(c)
		if m.Sep == nil {
			c.Skip()
		}
		return m
	}
	non := func(c *mc.Case) mode {
		m := pickModes(c)
		if m.Sep != nil {
			c.Skip()
		}
		return m
	}
	colors := []float64{0, 1.0 / 255, 51.0 / 255, 63.0 / 255, 64.0 / 255, 127.0 / 255, 128.0 / 255, 200.0 / 255, 254.0 / 255, 1}
	alphas := []float64{0, 1.0 / 255, 2.0 / 255, 64.0 / 255, 127.0 / 255, 128.0 / 255, 200.0 / 255, 254.0 / 255, 1}
	masks := []int{-1, 0, 1, 0xff, 0x100, 0x7fff, 0x8080, 0xfeff, 0xffff}
	reg("C17",
		mc.Scenario{Name: "opaque-colors", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := sep(c)
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			sheet(c, m, dk, sk, 65536, func(i int) (px, px) {
				x, y := float64(i&255)/255, float64(i>>8)/255
				return px{[3]float64{x, 1 - x, y}, 1}, px{[3]float64{y, y, x}, 1}
			}, nil, 1)
		}},
		mc.Scenario{Name: "alpha-grid", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := sep(c)
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			mask, ma := uniformMask(mc.Pick(c, "mask", masks))
			n := len(colors) * len(colors) * len(alphas) * len(alphas)
			sheet(c, m, dk, sk, n, func(i int) (px, px) {
				dc := i % len(colors)
				i /= len(colors)
				sc := i % len(colors)
				i /= len(colors)
				da := alphas[i%len(alphas)]
				sa := alphas[i/len(alphas)]
				rot := func(k, by int) float64 { return colors[(k+by)%len(colors)] }
				return px{[3]float64{rot(dc, 0), rot(dc, 3), rot(dc, 5)}, da}, px{[3]float64{rot(sc, 0), rot(sc, 0), rot(sc, 7)}, sa}
			}, mask, ma)
		}},
		mc.Scenario{Name: "alpha-full", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pickModes(c)
			k := mc.Pick(c, "path", []string{"NRGBA NRGBA", "NRGBA RGBA", "RGBA NRGBA", "RGBA RGBA", "NRGBA64 NRGBA64"})
			var dk, sk string
			fmt.Sscan(k, &dk, &sk)
			mask, ma := uniformMask(mc.Pick(c, "mask", []int{-1, 0x8080}))
			cols := [][2]px{{px{[3]float64{0.2, 0.6, 1}, 0}, px{[3]float64{0.8, 0.4, 0}, 0}}, {px{[3]float64{0, 0.1, 0.9}, 0}, px{[3]float64{1, 0.3, 0.7}, 0}}}
			p := cols[c.Choose(len(cols), "colors")]
			sheet(c, m, dk, sk, 65536, func(i int) (px, px) {
				d, s := p[0], p[1]
				d.a, s.a = float64(i&255)/255, float64(i>>8)/255
				return d, s
			}, mask, ma)
		}},
		mc.Scenario{Name: "whole-colors", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := non(c)
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			grid := []float64{0, 1.0 / 255, 64.0 / 255, 128.0 / 255, 200.0 / 255, 1}
			al := mc.Pick(c, "alphas", [][2]float64{{1, 1}, {1, 128.0 / 255}, {128.0 / 255, 1}, {100.0 / 255, 30.0 / 255}})
			if !c.Thorough() && al[0] != 1 && sk != "NRGBA" && dk != "NRGBA" {
				c.Skip()
			}
			n := 6 * 6 * 6 * 6 * 6 * 6
			sheet(c, m, dk, sk, n, func(i int) (px, px) {
				var v [6]float64
				for k := range v {
					v[k] = grid[i%6]
					i /= 6
				}
				return px{[3]float64{v[0], v[1], v[2]}, al[0]}, px{[3]float64{v[3], v[4], v[5]}, al[1]}
			}, nil, 1)
		}},
		mc.Scenario{Name: "deep-colors", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			// 16 bit colors around every multiple of 1/16
			m := sep(c)
			k := mc.Pick(c, "path", []string{"NRGBA64 NRGBA64", "RGBA64 RGBA64", "NRGBA64 RGBA64", "RGBA64 NRGBA64", "NRGBA RGBA64", "RGBA64 RGBA"})
			var dk, sk string
			fmt.Sscan(k, &dk, &sk)
			da, sa := mc.Pick(c, "da", []float64{1, 0.5, 0.1, 0.003}), mc.Pick(c, "sa", []float64{1, 0.5, 0.1, 0.003})
			v := func(i int) float64 {
				i -= 128
				return clamp(float64((i/8+16)*2048+[]int{-300, -2, -1, 0, 1, 2, 255, 900}[(i%8+8)%8]) / 65535)
			}
			sheet(c, m, dk, sk, 65536, func(i int) (px, px) {
				x, y := v(i&255), v(i>>8)
				return px{[3]float64{x, 1 - x, y}, da}, px{[3]float64{y, y, x}, sa}
			}, nil, 1)
		}},
		mc.Scenario{Name: "alpha-masks", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			m := pickModes(c)
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcKinds)
			mask, ma := uniformMask(c.Choose(16, "mask") * 0x1111)
			cols := mc.Pick(c, "colors", [][6]float64{{0.2, 0.6, 1, 0.8, 0.4, 0}, {0, 0.1, 0.9, 1, 0.3, 0.7}, {1, 1, 0, 0, 1, 1}})
			sheet(c, m, dk, sk, 64*64, func(i int) (px, px) {
				a, b := math.Round(float64(i%64)*255/63)/255, math.Round(float64(i/64)*255/63)/255
				return px{[3]float64{cols[0], cols[1], cols[2]}, a}, px{[3]float64{cols[3], cols[4], cols[5]}, b}
			}, mask, ma)
		}},
	)
	assume("C17", "the reference formulas are those of W3C Compositing and Blending Level 1 and the usual definitions of Photoshop's modes",
		"tolerance: one to three 8 bit steps (the precision of the result type and of the 8 bit arithmetic) in the premultiplied result; where a formula is discontinuous or steep, either side within the input precision is accepted")
}

var _ = draw.Src
