// blendcheck decides the properties of package blend.
package main

import (
	"github.com/oov/psd/blend"

	"image/draw"

	"verif.local/harness/blendref"
	"verif.local/harness/mc"
)

var props = map[string]*mc.Property{}

func reg(id string, scs ...mc.Scenario) {
	p := props[id]
	if p == nil {
		p = &mc.Property{ID: id, Level: "model_checking"}
		props[id] = p
	}
	p.Scenarios = append(p.Scenarios, scs...)
}

func assume(id string, as ...string) {
	reg(id)
	props[id].Assumptions = append(props[id].Assumptions, as...)
}

type mode struct {
	blendref.Mode
	D blend.Drawer
}

type pdMode struct {
	blendref.PD
	D draw.Drawer
}

var modes, pds = tables()

func tables() (modes []mode, pds []pdMode) {
	ds := map[string]blend.Drawer{
		"Normal": blend.Normal, "Darken": blend.Darken, "Multiply": blend.Multiply, "ColorBurn": blend.ColorBurn,
		"LinearBurn": blend.LinearBurn, "DarkerColor": blend.DarkerColor, "Lighten": blend.Lighten, "Screen": blend.Screen,
		"ColorDodge": blend.ColorDodge, "LinearDodge": blend.LinearDodge, "LighterColor": blend.LighterColor, "Add": blend.Add,
		"Overlay": blend.Overlay, "SoftLight": blend.SoftLight, "HardLight": blend.HardLight, "LinearLight": blend.LinearLight,
		"VividLight": blend.VividLight, "PinLight": blend.PinLight, "HardMix": blend.HardMix, "Difference": blend.Difference,
		"Exclusion": blend.Exclusion, "Subtract": blend.Subtract, "Divide": blend.Divide, "Hue": blend.Hue,
		"Saturation": blend.Saturation, "Color": blend.Color, "Luminosity": blend.Luminosity,
	}
	for _, m := range blendref.Modes {
		modes = append(modes, mode{m, ds[m.Name]})
	}
	ps := map[string]draw.Drawer{
		"Clear": blend.Clear, "Copy": blend.Copy, "Dest": blend.Dest, "SrcOver": blend.SrcOver, "DestOver": blend.DestOver,
		"SrcIn": blend.SrcIn, "DestIn": blend.DestIn, "SrcOut": blend.SrcOut, "DestOut": blend.DestOut, "SrcAtop": blend.SrcAtop,
		"DestAtop": blend.DestAtop, "XOR": blend.XOR,
	}
	for _, p := range blendref.PDs {
		pds = append(pds, pdMode{p, ps[p.Name]})
	}
	return
}

func main() { mc.Main(props) }
