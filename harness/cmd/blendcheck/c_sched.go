package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"runtime"
	"sync"

	"verif.local/harness/mc"
	"verif.local/harness/sched"
)

// fillPair gives an image pair of h rows with varied pixels.
func fillPair(dk, sk string, w, h int) (draw.Image, image.Image) {
	r := image.Rect(0, 0, w, h)
	d := newImage(dk, r)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			setPx(d, x, y, nth(5+3*x+7*y))
		}
	}
	if sk == "Uniform" {
		return d, image.NewUniform(color.NRGBA{200, 100, 50, 180})
	}
	s := newImage(sk, r)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			setAny(s, x, y, nth(2*x+11*y))
		}
	}
	return d, s
}

// hooked is an image whose accesses are scheduling points.
type hooked struct {
	*image.NRGBA64
	s    *sched.Sched
	name string
}

func (h *hooked) At(x, y int) color.Color {
	h.s.P(fmt.Sprintf("%02d,%02d %s.At", y, x, h.name))
	return h.NRGBA64.At(x, y)
}

func (h *hooked) Set(x, y int, c color.Color) {
	h.s.P(fmt.Sprintf("%02d,%02d %s.Set", y, x, h.name))
	h.NRGBA64.Set(x, y, c)
}

func newHooked(name string, w, h, seed int) *hooked {
	m := image.NewNRGBA64(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			setPx(m, x, y, nth(seed+3*x+7*y))
		}
	}
	return &hooked{m, nil, name}
}

var procs sync.Once

func setProcs(n int) { procs.Do(func() { runtime.GOMAXPROCS(n) }) }

func init() {
	srcs := append([]string{"Alpha", "Uniform"}, srcKinds...)
	all := func(f func(o op, dk, sk string)) {
		for _, o := range ops {
			for _, dk := range dstKinds {
				for _, sk := range srcs {
					f(o, dk, sk)
				}
			}
		}
	}
	reg("C22",
		mc.Scenario{Name: "gomaxprocs", Quick: true, Serial: true, Bound: -1, Fn: func(c *mc.Case) {
			n := 2 + c.Choose(19, "procs-2")
			rows := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 19, 34, 35, 37}
			if n > 17 {
				n = []int{24, 32, 64}[n-18]
				rows = []int{8, 47, 48, 65, 127, 130, 257}
			}
			h := mc.Pick(c, "rows", rows)
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
			type key struct {
				o      string
				dk, sk string
				m      int
			}
			ref := map[key][]byte{}
			mask := image.NewAlpha(image.Rect(0, 0, 2, h))
			for i := range mask.Pix {
				mask.Pix[i] = uint8(40 * i)
			}
			run := func(check bool) {
				all(func(o op, dk, sk string) {
					for mk := 0; mk < 3; mk++ {
						if mk == 1 && (o.pd || isFast(dk) && isFast(sk) && o.name != "Normal") {
							continue
						}
						if mk == 2 && o.pd {
							continue
						}
						d, s := fillPair(dk, sk, 2, h)
						var m image.Image
						if mk == 1 {
							m = mask
						} else if mk == 2 {
							m = image.NewUniform(color.Alpha16{0x9234})
						}
						o.draw(d, d.Bounds(), s, image.Point{}, m, image.Point{})
						k := key{o.name, dk, sk, mk}
						if !check {
							ref[k] = pixBytes(d)
						} else if !bytes.Equal(ref[k], pixBytes(d)) {
							c.Fail("%s of %s on %s, %d rows: GOMAXPROCS=%d gives % x, GOMAXPROCS=1 % x", o.name, sk, dk, h, n, pixBytes(d), ref[k])
						}
					}
				})
			}
			run(false)
			runtime.GOMAXPROCS(n)
			run(true)
			c.Visited(len(ref), len(ref))
			c.Validated(len(ref))
		}},
		mc.Scenario{Name: "schedules-2", Quick: true, Bound: 3, Fn: func(c *mc.Case) { schedules(c, 1, 4) }},
		mc.Scenario{Name: "schedules-3", Quick: true, Bound: 2, Fn: func(c *mc.Case) { schedules(c, 1, 6) }},
		mc.Scenario{Name: "loop-schedules", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: loopSchedules([]int{4, 7}, []int{2, 3})},
		mc.Scenario{Name: "loop-schedules-3", Instr: true, Tolerant: true, Bound: 3, Fn: loopSchedules([]int{4, 6, 7, 8, 9}, []int{2, 3, 4})},
		mc.Scenario{Name: "schedules-2-all", Bound: -1, Fn: func(c *mc.Case) { schedules(c, 1, 4) }},
		mc.Scenario{Name: "schedules-3-deep", Bound: 3, Fn: func(c *mc.Case) { schedules(c, 2, 7) }},
		mc.Scenario{Name: "at-once", Quick: true, Race: true, Bound: -1, Fn: atOnce},
		mc.Scenario{Name: "races", Quick: true, Race: true, Bound: -1, Fn: func(c *mc.Case) {
			setProcs(4)
			o := ops[c.Choose(len(ops), "op")]
			dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", srcs)
			h := mc.Pick(c, "rows", []int{4, 9})
			d, s := fillPair(dk, sk, 2, h)
			o.draw(d, d.Bounds(), s, image.Point{}, nil, image.Point{})
			if !o.pd {
				d, s := fillPair(dk, sk, 2, h)
				m := image.NewAlpha(d.Bounds())
				o.draw(d, d.Bounds(), s, image.Point{}, m, image.Point{})
			}
			c.Validated(1)
		}},
	)
	assume("C22", "the calls of the images are the scheduling points of the schedule exploration; direct memory accesses of the fast paths are covered by the race detector (any happens-before order of the fork-join structure) and by comparing all GOMAXPROCS values",
		"preemption bound as stated per scenario (-1: all interleavings)")

	// ---------------------------------------------------------------- overlap
	type view struct{ name string }
	overlap := func(c *mc.Case) {
		setProcs(4)
		o := ops[c.Choose(len(ops), "op")]
		kind := mc.Pick(c, "kind", dstKinds)
		v := "same image"
		if isFast(kind) {
			v = mc.Pick(c, "view", []string{"same image", "source is a view", "destination is a view", "both are views", "beside each other"})
		}
		maskKind := 0
		if !o.pd {
			maskKind = c.Choose(3, "mask")
		}
		if maskKind == 2 && v != "same image" {
			c.Skip()
		}
		size := mc.Pick(c, "size", []image.Point{{5, 5}, {3, 12}, {1, 17}})
		b := image.Rectangle{image.Pt(-1, 2), image.Pt(-1, 2).Add(size)}
		work := newImage(kind, b)
		fill := func(m draw.Image) {
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					setPx(m, x, y, nth(5+3*x+7*y))
				}
			}
		}
		fill(work)
		base := append([]byte(nil), pixBytes(work)...)
		cp, ref := newImage(kind, b), newImage(kind, b)
		copy(pixBytes(cp), base)
		var mask image.Image
		if maskKind == 1 {
			mask = image.NewUniform(color.Alpha{128})
		} else if maskKind == 2 {
			a := image.NewAlpha(b)
			for i := range a.Pix {
				a.Pix[i] = uint8(60 + 30*i)
			}
			mask = a
		}
		n := 0
		for dy := -3; dy <= 3; dy++ {
			for dx := -3; dx <= 3; dx++ {
				for inset := 0; inset < 2; inset++ {
					r := b
					if inset == 1 && size.X > 2 && size.Y > 2 {
						r = b.Inset(1)
					}
					sp := r.Min.Add(image.Pt(dx, dy))
					sv, dv := b, b
					switch v {
					case "source is a view":
						sv = image.Rectangle{image.Pt(b.Min.X, b.Min.Y+1), b.Max}
					case "destination is a view":
						dv = image.Rectangle{image.Pt(b.Min.X, b.Min.Y+1), b.Max}
					case "both are views":
						sv = image.Rectangle{b.Min, image.Pt(b.Max.X, b.Max.Y-1)}
						dv = image.Rectangle{image.Pt(b.Min.X, b.Min.Y+1), b.Max}
					case "beside each other":
						// of the same rows, without the last and the first column
						if size.X == 1 {
							c.Skip()
						}
						sv = image.Rectangle{b.Min, image.Pt(b.Max.X-1, b.Max.Y)}
						dv = image.Rectangle{image.Pt(b.Min.X+1, b.Min.Y), b.Max}
					}
					pick := func(m draw.Image, r image.Rectangle) draw.Image {
						if r == b {
							return m
						}
						return sub(m, r)
					}
					mp := b.Min
					copy(pixBytes(ref), base)
					o.draw(pick(ref, dv), r, pick(cp, sv), sp, mask, mp)
					copy(pixBytes(work), base)
					o.draw(pick(work, dv), r, pick(work, sv), sp, mask, mp)
					if !bytes.Equal(pixBytes(ref), pixBytes(work)) {
						c.Fail("%s of %s %v on itself (%s): rectangle %v from %v: % x, from a copy % x", o.name, kind, b, v, r, sp, pixBytes(work), pixBytes(ref))
					}
					n++
				}
			}
		}
		c.Visited(n, n)
		c.Validated(n)
	}
	reg("C23",
		mc.Scenario{Name: "overlap", Quick: true, Bound: -1, Fn: overlap},
		mc.Scenario{Name: "overlap-races", Quick: true, Race: true, Bound: -1, Fn: overlap},
	)
	assume("C23", "views are sub-images of RGBA and NRGBA images, drawn without a mask image; for other types and with mask images source and destination are the same image (as with the standard library)")
}

// atOnce draws on two parts of an image, or on two images, from one source at the same time.
func atOnce(c *mc.Case) {
	setProcs(4)
	i := c.Choose(len(ops), "op")
	j := (i + []int{0, 1, 17}[c.Choose(3, "other")]) % len(ops)
	dk := mc.Pick(c, "dst", dstKinds)
	sk := mc.Pick(c, "src", append([]string{"Alpha", "Uniform"}, srcKinds...))
	two := c.Bool("two images")
	const h = 10
	run := func(do func(a, b func())) (draw.Image, draw.Image) {
		d, s := fillPair(dk, sk, 3, h)
		e := d
		if two {
			e, _ = fillPair(dk, sk, 3, h)
		}
		b := d.Bounds()
		mask := image.NewAlpha(b)
		for i := range mask.Pix {
			mask.Pix[i] = uint8(i * 40)
		}
		part := func(o op, d draw.Image, r image.Rectangle) func() {
			return func() {
				var m image.Image
				if !o.pd && (sk == "Uniform" || sk == "plainRGBA") {
					m = mask
				}
				o.draw(d, r, s, r.Min, m, r.Min)
			}
		}
		mid := b.Min.Y + h/2
		do(part(ops[i], d, image.Rect(b.Min.X, b.Min.Y, b.Max.X, mid)), part(ops[j], e, image.Rect(b.Min.X, mid, b.Max.X, b.Max.Y)))
		return d, e
	}
	d0, e0 := run(func(a, b func()) { a(); b() })
	d1, e1 := run(func(a, b func()) {
		var wg sync.WaitGroup
		for _, f := range []func(){a, b} {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	})
	if !bytes.Equal(pixBytes(d0), pixBytes(d1)) || !bytes.Equal(pixBytes(e0), pixBytes(e1)) {
		c.Fail("%s and %s of %s on %s at once: % x, % x, one after the other: % x, % x", ops[i].name, ops[j].name, sk, dk, pixBytes(d1), pixBytes(e1), pixBytes(d0), pixBytes(e0))
	}
	c.Validated(2)
}

// schedules runs a draw on images whose accesses are scheduling points.
func schedules(c *mc.Case, w, h int) {
	setProcs(3)
	o := ops[c.Choose(len(ops), "op")]
	masked := !o.pd && h == 4 && c.Bool("mask")
	mk := func() (*hooked, *hooked, image.Image, *hooked) {
		var m image.Image
		var hm *hooked
		if masked {
			hm = newHooked("mask", w, h, 2)
			m = hm
		}
		return newHooked("dst", w, h, 0), newHooked("src", w, h, 40), m, hm
	}
	d0, s0, m0, _ := mk()
	for y := 0; y < h; y++ { // the reference, row by row
		r := image.Rect(0, y, w, y+1)
		o.draw(&plain{d0}, r, s0, r.Min, m0, r.Min)
	}
	d, s, m, hm := mk()
	sc, dead := sched.Run(c, func(sc *sched.Sched) {
		d.s, s.s = sc, sc
		if hm != nil {
			hm.s = sc
		}
		o.draw(d, d.Bounds(), s, image.Point{}, m, image.Point{})
		d.s, s.s = nil, nil
	})
	if dead {
		c.Fail("%s: deadlock after %v", o.name, sc.Trace())
	}
	if !bytes.Equal(d.Pix, d0.Pix) {
		c.Fail("%s: schedule %v gives % x, row by row % x", o.name, sc.Trace(), d.Pix, d0.Pix)
	}
	c.Validated(1)
}

// loopSchedules orders the goroutines of a draw on every pair of types.
func loopSchedules(heights, procs []int) func(c *mc.Case) {
	return func(c *mc.Case) {
		o := ops[c.Choose(len(ops), "op")]
		dk, sk := mc.Pick(c, "dst", dstKinds), mc.Pick(c, "src", append([]string{"Alpha", "Uniform"}, srcKinds...))
		h := mc.Pick(c, "rows", heights)
		var mask image.Image
		if !o.pd && c.Bool("mask") {
			m := image.NewAlpha(image.Rect(0, 0, 2, h))
			for i := range m.Pix {
				m.Pix[i] = uint8(40 * i)
			}
			mask = m
		}
		d, s := fillPair(dk, sk, 2, h)
		for y := 0; y < h; y++ { // the reference, row by row
			r := image.Rect(0, y, 2, y+1)
			o.draw(d, r, s, r.Min, mask, r.Min)
		}
		want := pixBytes(d)
		d, s = fillPair(dk, sk, 2, h)
		var atReturn []byte
		sc, dead := sched.RunWith(c, &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", procs)}, func(*sched.Sched) {
			o.draw(d, d.Bounds(), s, image.Point{}, mask, image.Point{})
			atReturn = append(atReturn, pixBytes(d)...)
		})
		if dead {
			c.Fail("%s of %s on %s: deadlock, or a goroutine is left behind, after %v", o.name, sk, dk, sc.Trace())
		}
		if !bytes.Equal(atReturn, want) {
			c.Fail("%s of %s on %s: schedule %v gives % x, row by row % x", o.name, sk, dk, sc.Trace(), atReturn, want)
		}
		if !bytes.Equal(atReturn, pixBytes(d)) {
			c.Fail("%s of %s on %s: schedule %v: the image changed after the draw", o.name, sk, dk, sc.Trace())
		}
		c.Validated(1)
	}
}
