package main

import (
	"image"
	"image/color"

	"github.com/oov/psd/blend"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

var drawers = map[string]blend.Drawer{
	"Normal": blend.Normal, "Darken": blend.Darken, "Multiply": blend.Multiply, "ColorBurn": blend.ColorBurn,
	"LinearBurn": blend.LinearBurn, "DarkerColor": blend.DarkerColor, "Lighten": blend.Lighten, "Screen": blend.Screen,
	"ColorDodge": blend.ColorDodge, "LinearDodge": blend.LinearDodge, "LighterColor": blend.LighterColor, "Add": blend.Add,
	"Overlay": blend.Overlay, "SoftLight": blend.SoftLight, "HardLight": blend.HardLight, "LinearLight": blend.LinearLight,
	"VividLight": blend.VividLight, "PinLight": blend.PinLight, "HardMix": blend.HardMix, "Difference": blend.Difference,
	"Exclusion": blend.Exclusion, "Subtract": blend.Subtract, "Divide": blend.Divide, "Hue": blend.Hue,
	"Saturation": blend.Saturation, "Color": blend.Color, "Luminosity": blend.Luminosity,
}

// blended draws the second node of d on the first one with package blend.
func blended(c *mc.Case, d *compref.Doc, key string, op byte) *image.NRGBA {
	r := image.Rect(0, 0, d.W, d.H)
	img := func(n *compref.Node) *image.NRGBA {
		m := image.NewNRGBA(r)
		at := n.At
		for y := 0; y < d.H; y++ {
			for x := 0; x < d.W; x++ {
				p := at(x, y)
				m.SetNRGBA(x, y, color.NRGBA{p[0], p[1], p[2], p[3]})
			}
		}
		return m
	}
	dst, src := img(d.Nodes[0]), img(d.Nodes[1])
	name, ok := compref.ByKey[key]
	if key == "add " {
		name = "Add"
	} else if !ok {
		name = "Normal"
	}
	drawers[name].DrawMask(dst, r, src, image.Point{}, image.NewUniform(color.Alpha{op}), image.Point{})
	return dst
}
