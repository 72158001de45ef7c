package main

import (
	"image"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
)

const cw, ch = 7, 6 // canvas of the generated documents

var palette = [][3]byte{{230, 40, 10}, {20, 200, 60}, {30, 60, 250}, {250, 220, 40}, {120, 120, 120}, {10, 240, 230}}

// paint is the picture of leaf k: three alpha values and two colors.
func paint(k int) func(x, y int) [4]byte {
	return func(x, y int) [4]byte {
		p := palette[k%len(palette)]
		if (x+y)&1 == 1 {
			p = palette[(k+3)%len(palette)]
		}
		a := [...]byte{255, 255, 128, 255, 0}[mod(x+2*y+k, 5)]
		return [4]byte{p[0], p[1], p[2], a}
	}
}

func mod(a, b int) int { return (a%b + b) % b }

var leafRects = []image.Rectangle{
	image.Rect(0, 0, cw, ch), image.Rect(1, 1, 6, 5), image.Rect(3, 0, 7, 5), image.Rect(2, 2, 5, 6),
}

var rectMenu = []image.Rectangle{
	{}, // placeholder: the leaf's own
	image.Rect(-3, -2, 5, 3), image.Rect(4, 3, 12, 11), image.Rect(0, 0, 0, 0), image.Rect(20, 20, 23, 22), image.Rect(-9, -7, -1, -1),
	image.Rect(4, 4, 5, 5), image.Rect(0, 0, 4, 4),
}

func maskAt(k int) func(x, y int) byte {
	return func(x, y int) byte { return [...]byte{255, 0, 128, 255, 200}[mod(x+3*y+k, 5)] }
}

var maskMenu = []*compref.Mask{
	nil,
	{Rect: image.Rect(1, 0, 6, 5), Color: 0, At: maskAt(0)},
	{Rect: image.Rect(1, 0, 6, 5), Color: 255, At: maskAt(1)},
	{Rect: image.Rect(1, 0, 6, 5), Color: 0, At: maskAt(0), Disabled: true},
	{Rect: image.Rect(0, 0, 7, 6), Color: 0, At: func(x, y int) byte { return 0 }},
	{Rect: image.Rect(2, 1, 5, 4), Color: 255, At: func(x, y int) byte { return 255 }},
	{Rect: image.Rect(2, 1, 5, 4), Color: 255, At: func(x, y int) byte { return 0 }},
	{Rect: image.Rect(-3, -2, 3, 2), Color: 0, At: maskAt(2)},
	{Rect: image.Rect(5, 4, 13, 12), Color: 255, At: maskAt(3)},
	{Rect: image.Rect(4, 4, 6, 5), Color: 0, At: maskAt(4)},
	{Rect: image.Rect(0, 0, 7, 6), Color: 255, At: func(x, y int) byte { return 255 }},
}

// genTree enumerates all forests of at most n nodes; attributes deviate from
// the plainest layer within the bound of the scenario.
func genTree(c *mc.Case, n int) *compref.Doc {
	d := &compref.Doc{W: cw, H: ch}
	left, leaf, num := n, 0, 0
	var level func(depth int) []*compref.Node
	level = func(depth int) (ns []*compref.Node) {
		for left > 0 {
			opts := 3
			if left == n {
				opts = 2 // not empty
			}
			k := c.Choose(opts, "node")
			if left == n {
				k++
			}
			if k == 0 {
				break
			}
			left--
			num++
			nd := &compref.Node{Name: "n" + itoa(num), Opacity: 255, Mode: "norm"}
			if k == 2 {
				nd.Folder = true
				if c.Bool("pass-through") {
					nd.Mode = "pass"
				} else {
					nd.Mode = mc.DevPick(c, nd.Name+" mode", []string{"norm", "mul "})
				}
				nd.Kids = level(depth + 1)
			} else {
				nd.Mode = mc.DevPick(c, nd.Name+" mode", []string{"norm", "mul ", "scrn", "diff", "pass"})
				nd.At = paint(leaf)
				nd.Rect = leafRects[leaf%len(leafRects)]
				if r := c.Dev(len(rectMenu), nd.Name+" rect"); r > 0 {
					nd.Rect = rectMenu[r]
				}
				nd.NoAlpha = c.Dev(2, nd.Name+" no alpha") == 1
				leaf++
			}
			nd.Opacity = mc.DevPick(c, nd.Name+" opacity", []byte{255, 128, 0})
			nd.Hidden = c.Dev(2, nd.Name+" hidden") == 1
			if len(ns) > 0 && !(ns[len(ns)-1].Mode == "pass" && ns[len(ns)-1].Folder) {
				nd.Clip = c.Dev(2, nd.Name+" clip") == 1
			}
			nd.Mask = maskMenu[c.Dev(len(maskMenu), nd.Name+" mask")]
			ns = append(ns, nd)
		}
		return
	}
	d.Nodes = level(0)
	// clipping on a pass-through folder through another clipped layer
	var fix func(ns []*compref.Node)
	fix = func(ns []*compref.Node) {
		var base *compref.Node
		for _, n := range ns {
			if !n.Clip {
				base = n
			} else if base == nil || base.Folder && base.Mode == "pass" {
				c.Skip()
			}
			fix(n.Kids)
		}
	}
	fix(d.Nodes)
	return d
}
