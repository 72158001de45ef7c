// Package blendref is the real-valued reference of the blend modes and of the
// Porter-Duff operators.
//
// The separable and non-separable modes follow W3C Compositing and Blending
// Level 1; the modes that are missing there follow the usual definitions of
// Photoshop's modes (linear burn, linear light, vivid light, pin light, hard
// mix, subtract, divide, darker and lighter color) and of "add", which is not
// limited before the result has been weighted by the coverage.
package blendref

import "math"

// Mode is a blend mode: B(backdrop, source) on colors in [0,1].
type Mode struct {
	Name string
	Sep  func(d, s float64) float64
	Non  func(d, s [3]float64) [3]float64
	// OverMax: B may exceed 1, the composed color is limited instead.
	OverMax bool
}

func burn(d, s float64) float64 {
	if d >= 1 {
		return 1
	}
	if s <= 0 {
		return 0
	}
	return 1 - math.Min(1, (1-d)/s)
}

func dodge(d, s float64) float64 {
	if d <= 0 {
		return 0
	}
	if s >= 1 {
		return 1
	}
	return math.Min(1, d/(1-s))
}

func hardLight(d, s float64) float64 {
	if s <= 0.5 {
		return d * 2 * s
	}
	return d + (2*s - 1) - d*(2*s-1)
}

func vivid(d, s float64) float64 {
	if s < 0.5 {
		return burn(d, 2*s)
	}
	return dodge(d, 2*s-1)
}

func clamp(x float64) float64 { return math.Max(0, math.Min(1, x)) }

// Lum, Sat, SetLum, SetSat of the specification.
func Lum(c [3]float64) float64 { return 0.3*c[0] + 0.59*c[1] + 0.11*c[2] }

func clipColor(c [3]float64) [3]float64 {
	l := Lum(c)
	n := math.Min(c[0], math.Min(c[1], c[2]))
	x := math.Max(c[0], math.Max(c[1], c[2]))
	for i := range c {
		if n < 0 {
			c[i] = l + (c[i]-l)*l/(l-n)
		}
	}
	for i := range c {
		if x > 1 {
			c[i] = l + (c[i]-l)*(1-l)/(x-l)
		}
	}
	return c
}

func SetLum(c [3]float64, l float64) [3]float64 {
	d := l - Lum(c)
	for i := range c {
		c[i] += d
	}
	return clipColor(c)
}

func Sat(c [3]float64) float64 {
	return math.Max(c[0], math.Max(c[1], c[2])) - math.Min(c[0], math.Min(c[1], c[2]))
}

func SetSat(c [3]float64, s float64) [3]float64 {
	mn := math.Min(c[0], math.Min(c[1], c[2]))
	sp := Sat(c)
	for i := range c {
		if sp > 0 {
			c[i] = (c[i] - mn) * s / sp
		} else {
			c[i] = 0
		}
	}
	return c
}

// Modes are all blend modes.
var Modes = []Mode{
	{Name: "Normal", Sep: func(d, s float64) float64 { return s }},
	{Name: "Darken", Sep: math.Min},
	{Name: "Multiply", Sep: func(d, s float64) float64 { return d * s }},
	{Name: "ColorBurn", Sep: burn},
	{Name: "LinearBurn", Sep: func(d, s float64) float64 { return math.Max(0, d+s-1) }},
	{Name: "DarkerColor", Non: func(d, s [3]float64) [3]float64 {
		if Lum(s) < Lum(d) {
			return s
		}
		return d
	}},
	{Name: "Lighten", Sep: math.Max},
	{Name: "Screen", Sep: func(d, s float64) float64 { return d + s - d*s }},
	{Name: "ColorDodge", Sep: dodge},
	{Name: "LinearDodge", Sep: func(d, s float64) float64 { return math.Min(1, d+s) }},
	{Name: "LighterColor", Non: func(d, s [3]float64) [3]float64 {
		if Lum(s) > Lum(d) {
			return s
		}
		return d
	}},
	{Name: "Add", OverMax: true, Sep: func(d, s float64) float64 { return d + s }},
	{Name: "Overlay", Sep: func(d, s float64) float64 { return hardLight(s, d) }},
	{Name: "SoftLight", Sep: func(d, s float64) float64 {
		if s <= 0.5 {
			return d - (1-2*s)*d*(1-d)
		}
		g := math.Sqrt(math.Max(0, d))
		if d <= 0.25 {
			g = ((16*d-12)*d + 4) * d
		}
		return d + (2*s-1)*(g-d)
	}},
	{Name: "HardLight", Sep: hardLight},
	{Name: "LinearLight", Sep: func(d, s float64) float64 { return clamp(d + 2*s - 1) }},
	{Name: "VividLight", Sep: vivid},
	{Name: "PinLight", Sep: func(d, s float64) float64 {
		if s < 0.5 {
			return math.Min(d, 2*s)
		}
		return math.Max(d, 2*s-1)
	}},
	{Name: "HardMix", Sep: func(d, s float64) float64 {
		if vivid(d, s) <= 0.5 {
			return 0
		}
		return 1
	}},
	{Name: "Difference", Sep: func(d, s float64) float64 { return math.Abs(d - s) }},
	{Name: "Exclusion", Sep: func(d, s float64) float64 { return d + s - 2*d*s }},
	{Name: "Subtract", Sep: func(d, s float64) float64 { return math.Max(0, d-s) }},
	{Name: "Divide", Sep: func(d, s float64) float64 {
		if d <= 0 {
			return 0
		}
		if s <= 0 {
			return 1
		}
		return math.Min(1, d/s)
	}},
	{Name: "Hue", Non: func(d, s [3]float64) [3]float64 { return SetLum(SetSat(s, Sat(d)), Lum(d)) }},
	{Name: "Saturation", Non: func(d, s [3]float64) [3]float64 { return SetLum(SetSat(d, Sat(s)), Lum(d)) }},
	{Name: "Color", Non: func(d, s [3]float64) [3]float64 { return SetLum(s, Lum(d)) }},
	{Name: "Luminosity", Non: func(d, s [3]float64) [3]float64 { return SetLum(d, Lum(s)) }},
}

// PD is a Porter-Duff operator: the fractions of source and destination.
type PD struct {
	Name string
	F    func(sa, da float64) (fs, fd float64)
}

var PDs = []PD{
	{"Clear", func(sa, da float64) (float64, float64) { return 0, 0 }},
	{"Copy", func(sa, da float64) (float64, float64) { return 1, 0 }},
	{"Dest", func(sa, da float64) (float64, float64) { return 0, 1 }},
	{"SrcOver", func(sa, da float64) (float64, float64) { return 1, 1 - sa }},
	{"DestOver", func(sa, da float64) (float64, float64) { return 1 - da, 1 }},
	{"SrcIn", func(sa, da float64) (float64, float64) { return da, 0 }},
	{"DestIn", func(sa, da float64) (float64, float64) { return 0, sa }},
	{"SrcOut", func(sa, da float64) (float64, float64) { return 1 - da, 0 }},
	{"DestOut", func(sa, da float64) (float64, float64) { return 0, 1 - sa }},
	{"SrcAtop", func(sa, da float64) (float64, float64) { return da, 1 - sa }},
	{"DestAtop", func(sa, da float64) (float64, float64) { return 1 - da, sa }},
	{"XOR", func(sa, da float64) (float64, float64) { return 1 - da, 1 - sa }},
}
