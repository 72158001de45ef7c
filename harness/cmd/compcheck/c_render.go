package main

import (
	"image"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

func init() {
	trees := func(n int) func(c *mc.Case) {
		return func(c *mc.Case) {
			d := genTree(c, n)
			t := load(c, d, &composite.Options{TileSize: 4})
			r := image.Rect(0, 0, cw, ch)
			compare(c, "Render", render(c, t, r), d, r, image.Point{})
			compare(c, "second Render", render(c, t, r), d, r, image.Point{})
		}
	}
	reg("C24",
		mc.Scenario{Name: "trees-2", Quick: true, Bound: 3, Fn: trees(2)},
		mc.Scenario{Name: "trees-3", Quick: true, Bound: 2, Fn: trees(3)},
		mc.Scenario{Name: "trees-4", Quick: true, Bound: 1, Fn: trees(4)},
		mc.Scenario{Name: "trees-3-deep", Bound: 3, Fn: trees(3)},
		mc.Scenario{Name: "trees-5", Bound: 1, Fn: trees(5)},
		mc.Scenario{Name: "trees-7", Bound: 0, Fn: trees(7)},
		mc.Scenario{Name: "modes", Quick: true, Bound: -1, Fn: func(c *mc.Case) {
			keys := []string{"norm", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl", "over", "sLit",
				"hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum ", "diss", "xyz1"}
			modeCase(c, mc.Pick(c, "mode", keys))
		}},
	)
	assume("C24", "a pass-through folder scales the opacity of its content", "clipped layers are blended as a group (the other form is not implemented)",
		"no clipping on a pass-through folder, no clipped layer without a base", "an enabled mask has a non-empty rectangle")
}

// modeCase draws one layer (or folder) of the mode on a backdrop; the result is
// compared with that of package blend, whose formulas C17 decides.
func modeCase(c *mc.Case, key string) {
	folder := c.Bool("folder")
	op := mc.Pick(c, "opacity", []byte{255, 77})
	lv := []byte{0, 60, 128, 190, 255}
	n := len(lv) * len(lv)
	d := &compref.Doc{W: n, H: n}
	col := func(i int) [4]byte { return [4]byte{lv[i%5], lv[i/5], lv[(i*3+1)%5], 255} }
	back := &compref.Node{Name: "back", Mode: "norm", Opacity: 255, Rect: image.Rect(0, 0, n, n), At: func(x, y int) [4]byte {
		p := col(x)
		if y&1 == 1 {
			p[3] = 128
		}
		return p
	}}
	top := &compref.Node{Name: "top", Mode: key, Opacity: op, Rect: image.Rect(0, 0, n, n), At: func(x, y int) [4]byte { return col(y) }}
	if folder {
		in := *top
		in.Mode, in.Opacity = "norm", 255
		top.Folder, top.Kids = true, []*compref.Node{&in}
	}
	d.Nodes = []*compref.Node{back, top}
	t := load(c, d, nil)
	r := image.Rect(0, 0, n, n)
	m := render(c, t, r)
	want := blended(c, d, key, op)
	// Linear Dodge (Add) is the name of two modes of package blend
	alt := want
	if key == "lddg" {
		alt = blended(c, d, "add ", op)
	}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			a, b := m.NRGBAAt(x, y), want.NRGBAAt(x, y)
			if !nearBy(a, b, 1) && !nearBy(a, alt.NRGBAAt(x, y), 1) {
				c.Fail("mode %q opacity %d: %v on %v gives %v, the mode gives %v", key, op, col(y), back.At(x, y), a, b)
			}
		}
	}
	c.Visited(n*n, n*n)
	c.Validated(1)
}
