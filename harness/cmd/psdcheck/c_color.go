package main

import (
	"image/color"
	"math"
	"reflect"

	pc "github.com/oov/psd/color"

	"verif.local/harness/mc"
)

// want is the real valued colour, premultiplied, in 0..1.
type want struct{ R, G, B, A float64 }

func clamp01(v float64) float64 {
	if !(v > 0) {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

func gammaEnc(v float32) float64 { return math.Pow(clamp01(float64(v)), 1/2.2) }
func gammaDec(v float64) float64 { return math.Pow(clamp01(v), 2.2) }

func premul(r, g, b, a float64) want { return want{r * a, g * a, b * a, a} }

// ref is the reference meaning of a colour.
func ref(c color.Color) want {
	switch c := c.(type) {
	case pc.Gray1:
		v := 0.0
		if c.Y {
			v = 1
		}
		return want{v, v, v, 1}
	case pc.Gray32:
		v := gammaEnc(c.Y)
		return want{v, v, v, 1}
	case pc.NGrayA:
		v := float64(c.Y) / 255
		return premul(v, v, v, float64(c.A)/255)
	case pc.NGrayA32:
		v := float64(c.Y) / 65535
		return premul(v, v, v, float64(c.A)/65535)
	case pc.NGrayA64:
		v := gammaEnc(c.Y)
		return premul(v, v, v, clamp01(float64(c.A)))
	case pc.NRGBA128:
		return premul(gammaEnc(c.R), gammaEnc(c.G), gammaEnc(c.B), clamp01(float64(c.A)))
	case pc.NCMYKA:
		k := float64(c.K) / 255
		return premul(float64(c.C)/255*k, float64(c.M)/255*k, float64(c.Y)/255*k, float64(c.A)/255)
	case pc.NCMYKA80:
		k := float64(c.K) / 65535
		return premul(float64(c.C)/65535*k, float64(c.M)/65535*k, float64(c.Y)/65535*k, float64(c.A)/65535)
	}
	r, g, b, a := c.RGBA()
	return want{float64(r) / 65535, float64(g) / 65535, float64(b) / 65535, float64(a) / 65535}
}

func near(c *mc.Case, what string, x color.Color, w want, tol float64) {
	r, g, b, a := x.RGBA()
	if r > 0xffff || g > 0xffff || b > 0xffff || a > 0xffff {
		c.Fail("%s: %#v.RGBA() = %d %d %d %d exceeds 65535", what, x, r, g, b, a)
	}
	if r > a || g > a || b > a {
		c.Fail("%s: %#v.RGBA() = %d %d %d %d is not alpha-premultiplied", what, x, r, g, b, a)
	}
	for _, p := range [][2]float64{{float64(r), w.R}, {float64(g), w.G}, {float64(b), w.B}, {float64(a), w.A}} {
		if math.Abs(p[0]-p[1]*65535) > tol {
			c.Fail("%s: %#v.RGBA() = %d %d %d %d, want %.1f %.1f %.1f %.1f", what, x, r, g, b, a, w.R*65535, w.G*65535, w.B*65535, w.A*65535)
		}
	}
}

// rgbaIs compares RGBA with the meaning of the colour.
func rgbaIs(c *mc.Case, x color.Color) { near(c, "RGBA", x, ref(x), 3) }

var edge16 = []uint16{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfeff, 0xff00, 0xfffe, 0xffff}
var edge8 = []uint8{0, 1, 2, 0x3f, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff}
var edgeF = []float32{0, 1, 0.5, 0.25, 1e-6, 1e-3, 0.999999, 1.0000001, 2, 65504, 1e30, float32(math.Inf(1)), -1e-6, -1, -1e30, float32(math.Inf(-1)), 0.2176376, 0.0031308, 0.73, 1e-40}

type model struct {
	name string
	m    color.Model
	typ  reflect.Type
	gray bool
	// keepsAlpha: the model represents transparency
	alpha bool
	tol   float64
}

var models = []model{
	{"Gray1", pc.Gray1Model, reflect.TypeOf(pc.Gray1{}), true, false, 0},
	{"Gray32", pc.Gray32Model, reflect.TypeOf(pc.Gray32{}), true, false, 16},
	{"NGrayA", pc.NGrayAModel, reflect.TypeOf(pc.NGrayA{}), true, true, 0x240},
	{"NGrayA32", pc.NGrayA32Model, reflect.TypeOf(pc.NGrayA32{}), true, true, 16},
	{"NGrayA64", pc.NGrayA64Model, reflect.TypeOf(pc.NGrayA64{}), true, true, 16},
	{"NRGBA128", pc.NRGBA128Model, reflect.TypeOf(pc.NRGBA128{}), false, true, 16},
	{"NCMYKA", pc.NCMYKAModel, reflect.TypeOf(pc.NCMYKA{}), false, true, 0x500},
	{"NCMYKA80", pc.NCMYKA80Model, reflect.TypeOf(pc.NCMYKA80{}), false, true, 16},
}

func sameBits(a, b color.Color) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		x, y := va.Field(i), vb.Field(i)
		if x.Kind() == reflect.Float32 {
			if math.Float32bits(float32(x.Float())) != math.Float32bits(float32(y.Float())) {
				return false
			}
		} else if x.Interface() != y.Interface() {
			return false
		}
	}
	return true
}

// convertIs checks the conversion of x to model m.
func convertIs(c *mc.Case, m *model, x color.Color) {
	y := m.m.Convert(x)
	if reflect.TypeOf(y) != m.typ {
		c.Fail("%sModel converts %#v to a %T", m.name, x, y)
	}
	if z := m.m.Convert(y); !sameBits(y, z) {
		c.Fail("%sModel converts its own %#v to %#v", m.name, y, z)
	}
	if reflect.TypeOf(x) == m.typ {
		if !sameBits(x, y) {
			c.Fail("%sModel converts its own %#v to %#v", m.name, x, y)
		}
		return
	}
	w := ref(x)
	// the argument's own rounding to 16 bits
	if m.gray {
		l := 0.299*w.R + 0.587*w.G + 0.114*w.B
		w.R, w.G, w.B = l, l, l
	}
	if !m.alpha {
		w.A = 1
	}
	if m.name == "Gray1" {
		if d := w.R*65535 - 0x8000; d > 16 || d < -16 {
			if y.(pc.Gray1).Y != (d > 0) {
				c.Fail("Gray1Model converts %#v to %v", x, y)
			}
		}
		return
	}
	near(c, m.name+"Model", y, w, m.tol+4)
}

func init() {
	fval := func(c *mc.Case, l string) float32 { return mc.Pick(c, l, edgeF) }
	reg("C15",
		mc.Scenario{Name: "gray", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			a := c.Choose(256, "alpha")
			for y := 0; y < 256; y++ {
				rgbaIs(c, pc.NGrayA{Y: uint8(y), A: uint8(a)})
			}
			for y := a << 8; y < a<<8+256; y++ {
				for _, al := range edge16 {
					rgbaIs(c, pc.NGrayA32{Y: uint16(y), A: al})
					rgbaIs(c, pc.NGrayA32{Y: al, A: uint16(y)})
				}
			}
			rgbaIs(c, pc.Gray1{Y: a&1 == 1})
			c.Visited(256*33, 256*33)
			c.Validated(256 * 33)
		}},
		mc.Scenario{Name: "cmyk8", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			k, a := c.Choose(256, "k"), c.Choose(256, "a")
			for x := 0; x < 256; x++ {
				rgbaIs(c, pc.NCMYKA{C: uint8(x), M: uint8(255 - x), Y: uint8(x * 7), K: uint8(k), A: uint8(a)})
			}
			c.Visited(256, 256)
			c.Validated(256)
		}},
		mc.Scenario{Name: "cmyk16", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			k, a := mc.Pick(c, "k", edge16), mc.Pick(c, "a", edge16)
			for _, x := range edge16 {
				for _, y := range edge16 {
					for _, z := range edge16 {
						rgbaIs(c, pc.NCMYKA80{C: x, M: y, Y: z, K: k, A: a})
					}
				}
			}
			for v := 0; v < 65536; v += 5 {
				rgbaIs(c, pc.NCMYKA80{C: uint16(v), M: k, Y: a, K: uint16(v), A: a})
				rgbaIs(c, pc.NCMYKA80{C: k, M: uint16(v), Y: uint16(65535 - v), K: k, A: uint16(v)})
			}
			c.Visited(4096+26216, 4096+26216)
			c.Validated(4096 + 26216)
		}},
		mc.Scenario{Name: "floats", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			y, a := fval(c, "y"), fval(c, "a")
			rgbaIs(c, pc.Gray32{Y: y})
			rgbaIs(c, pc.NGrayA64{Y: y, A: a})
			for _, g := range edgeF {
				for _, b := range edgeF {
					rgbaIs(c, pc.NRGBA128{R: y, G: g, B: b, A: a})
				}
			}
			c.Visited(402, 402)
			c.Validated(402)
		}},
		mc.Scenario{Name: "float-ramp", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every 16th representable value of one exponent range, all exponents around [2^-20, 4)
			e := 127 - 20 + c.Choose(22, "exponent")
			prev := uint32(0)
			for m := 0; m < 1<<23; m += 1 << 11 {
				v := math.Float32frombits(uint32(e)<<23 | uint32(m))
				rgbaIs(c, pc.Gray32{Y: v})
				rgbaIs(c, pc.NGrayA64{Y: 1, A: v})
				rgbaIs(c, pc.NRGBA128{R: v, G: 1 - v, B: v * v, A: v})
				if r, _, _, _ := (pc.Gray32{Y: v}).RGBA(); r < prev {
					c.Fail("Gray32{%v} is darker than a smaller value", v)
				} else {
					prev = r
				}
			}
			c.Visited(3<<12, 3<<12)
			c.Validated(3 << 12)
		}},
	)
	reg("C15",
		mc.Scenario{Name: "gray16-exhaustive", Bound: -1, Fn: func(c *mc.Case) {
			// every gray and alpha value there is
			y := c.Choose(65536, "y")
			for a := 0; a < 65536; a++ {
				rgbaIs(c, pc.NGrayA32{Y: uint16(y), A: uint16(a)})
			}
			c.Visited(65536, 65536)
			c.Validated(65536)
		}},
		mc.Scenario{Name: "float-exhaustive", Bound: -1, Fn: func(c *mc.Case) {
			// every representable value
			e := 127 - 20 + c.Choose(22, "exponent")
			part := c.Choose(64, "part")
			prev := uint32(0)
			for m := part << 17; m < (part+1)<<17; m++ {
				v := math.Float32frombits(uint32(e)<<23 | uint32(m))
				rgbaIs(c, pc.Gray32{Y: v})
				rgbaIs(c, pc.NGrayA64{Y: 1 - v, A: v})
				if r, _, _, _ := (pc.Gray32{Y: v}).RGBA(); r < prev {
					c.Fail("Gray32{%v} is darker than a smaller value", v)
				} else {
					prev = r
				}
			}
			c.Visited(2<<17, 2<<17)
			c.Validated(2 << 17)
		}},
		mc.Scenario{Name: "cmyk8-exhaustive", Bound: -1, Fn: func(c *mc.Case) {
			// one ink, black and alpha with every value, the other inks at the ends
			k, a := c.Choose(256, "k"), c.Choose(256, "a")
			for x := 0; x < 256; x++ {
				for _, o := range []uint8{0, 127, 255} {
					rgbaIs(c, pc.NCMYKA{C: uint8(x), M: o, Y: 255 - o, K: uint8(k), A: uint8(a)})
					rgbaIs(c, pc.NCMYKA{C: 255 - o, M: uint8(x), Y: o, K: uint8(k), A: uint8(a)})
					rgbaIs(c, pc.NCMYKA{C: o, M: 255 - o, Y: uint8(x), K: uint8(k), A: uint8(a)})
				}
			}
			c.Visited(9*256, 9*256)
			c.Validated(9 * 256)
		}},
	)
	reg("C16",
		mc.Scenario{Name: "rgb-complete", Bound: -1, Fn: func(c *mc.Case) {
			m := &models[c.Choose(len(models), "model")]
			r := uint8(c.Choose(256, "r"))
			a := mc.Pick(c, "a", []uint8{255, 1})
			for g := 0; g < 256; g++ {
				for b := 0; b < 256; b++ {
					convertIs(c, m, color.NRGBA{r, uint8(g), uint8(b), a})
				}
			}
			c.Visited(65536, 65536)
			c.Validated(65536)
		}},
	)
	pickModel := func(c *mc.Case) *model { return &models[c.Choose(len(models), "model")] }
	reg("C16",
		mc.Scenario{Name: "from-nrgba", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := pickModel(c)
			a := uint8(c.Choose(256, "a"))
			n := 0
			for _, r := range edge8 {
				for _, g := range edge8 {
					for _, b := range edge8 {
						convertIs(c, m, color.NRGBA{r, g, b, a})
						convertIs(c, m, color.RGBA{uint8(int(r) * int(a) / 255), uint8(int(g) * int(a) / 255), uint8(int(b) * int(a) / 255), a})
						n += 2
					}
				}
			}
			c.Visited(n, n)
			c.Validated(n)
		}},
		mc.Scenario{Name: "from-16bit", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := pickModel(c)
			a := mc.Pick(c, "a", edge16)
			n := 0
			for _, r := range edge16 {
				for _, g := range edge16 {
					for _, b := range edge16 {
						convertIs(c, m, color.NRGBA64{r, g, b, a})
						n++
					}
				}
				convertIs(c, m, pc.NGrayA32{Y: r, A: a})
				convertIs(c, m, color.Gray16{Y: r})
			}
			c.Visited(n, n)
			c.Validated(n)
		}},
		mc.Scenario{Name: "from-own", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := pickModel(c)
			a, k := mc.Pick(c, "a", edge8), mc.Pick(c, "k", edge8)
			n := 0
			for _, x := range edge8 {
				for _, y := range edge8 {
					convertIs(c, m, pc.NCMYKA{C: x, M: y, Y: 255 - x, K: k, A: a})
					convertIs(c, m, pc.NCMYKA80{C: uint16(x) * 257, M: uint16(y) << 8, Y: uint16(x), K: uint16(k) * 257, A: uint16(a) * 257})
					convertIs(c, m, pc.NRGBA128{R: float32(x) / 255, G: float32(y) / 100, B: float32(k)/128 - 0.2, A: float32(a) / 250})
					n += 3
				}
				convertIs(c, m, pc.NGrayA{Y: x, A: a})
				convertIs(c, m, pc.NGrayA64{Y: float32(x) / 250, A: float32(a) / 250})
				convertIs(c, m, pc.NGrayA64{Y: -float32(x), A: float32(a) / 250})
				convertIs(c, m, pc.Gray32{Y: float32(x)/200 - 0.1})
				convertIs(c, m, color.Gray{Y: x})
				convertIs(c, m, color.CMYK{C: x, M: k, Y: a, K: x / 2})
				convertIs(c, m, color.Alpha{A: x})
			}
			convertIs(c, m, pc.Gray1{Y: a > 100})
			c.Visited(n, n)
			c.Validated(n)
		}},
		mc.Scenario{Name: "gray-exhaustive", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := pickModel(c)
			a := uint8(c.Choose(256, "a"))
			for y := 0; y < 256; y++ {
				convertIs(c, m, pc.NGrayA{Y: uint8(y), A: a})
				convertIs(c, m, color.NRGBA{uint8(y), uint8(y), uint8(y), a})
			}
			for y := int(a) << 8; y < int(a)<<8+256; y++ {
				convertIs(c, m, color.Gray16{Y: uint16(y)})
				convertIs(c, m, pc.NGrayA32{Y: uint16(y), A: 0xffff})
				convertIs(c, m, pc.NGrayA32{Y: 0xffff, A: uint16(y)})
				convertIs(c, m, pc.NGrayA32{Y: 0x1234, A: uint16(y)})
			}
			c.Visited(6*256, 6*256)
			c.Validated(6 * 256)
		}},
		mc.Scenario{Name: "rgb-exhaustive", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			m := pickModel(c)
			r := uint8(c.Choose(256, "r"))
			a := mc.Pick(c, "a", []uint8{255, 128, 3})
			for g := 0; g < 256; g++ {
				for b := 0; b < 256; b += 3 {
					convertIs(c, m, color.NRGBA{r, uint8(g), uint8(b), a})
				}
			}
			c.Visited(256*86, 256*86)
			c.Validated(256 * 86)
		}},
	)
}
