// Package psdref states what decoding an abstract document must produce, and
// compares a decoded document with it through the public API only.
package psdref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"math"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/oov/psd"
	psdcolor "github.com/oov/psd/color"

	"verif.local/harness/psdw"
)

// ModeChannels is the number of colour channels of a mode.
func ModeChannels(mode int) int {
	switch mode {
	case 0, 1, 2:
		return 1
	case 3:
		return 3
	case 4:
		return 4
	}
	return -1
}

// R converts a stored rectangle.
func R(r psdw.Rect) image.Rectangle {
	return image.Rect(int(r.L), int(r.T), int(r.R), int(r.B))
}

func sample(plane []byte, depth, w, x, y int) uint32 {
	switch depth {
	case 1:
		rb := (w + 7) / 8
		return uint32(plane[y*rb+x/8]>>(7-uint(x%8))) & 1
	case 8:
		return uint32(plane[y*w+x])
	case 16:
		return uint32(binary.BigEndian.Uint16(plane[(y*w+x)*2:]))
	default:
		return binary.BigEndian.Uint32(plane[(y*w+x)*4:])
	}
}

func f32(v uint32) float32 { return math.Float32frombits(v) }

// GrayAt is the colour a single channel shows at a sample position.
func GrayAt(plane []byte, depth, w, x, y int) color.Color {
	v := sample(plane, depth, w, x, y)
	switch depth {
	case 1:
		return psdcolor.Gray1{Y: v == 0}
	case 8:
		return color.Gray{Y: uint8(v)}
	case 16:
		return color.Gray16{Y: uint16(v)}
	}
	return psdcolor.Gray32{Y: f32(v)}
}

// ColorAt is the colour an image of the given mode shows at a sample position.
// planes holds the colour planes; alpha may be nil.
func ColorAt(mode, depth int, planes [][]byte, alpha []byte, pal color.Palette, w, x, y int) color.Color {
	s := func(i int) uint32 { return sample(planes[i], depth, w, x, y) }
	var a uint32
	if alpha != nil {
		a = sample(alpha, depth, w, x, y)
	}
	switch mode {
	case 0:
		return psdcolor.Gray1{Y: s(0) == 0}
	case 2:
		return pal[s(0)]
	case 1:
		switch depth {
		case 8:
			if alpha == nil {
				a = 0xff
			}
			return psdcolor.NGrayA{Y: uint8(s(0)), A: uint8(a)}
		case 16:
			if alpha == nil {
				a = 0xffff
			}
			return psdcolor.NGrayA32{Y: uint16(s(0)), A: uint16(a)}
		case 32:
			fa := float32(1)
			if alpha != nil {
				fa = f32(a)
			}
			return psdcolor.NGrayA64{Y: f32(s(0)), A: fa}
		}
	case 3:
		switch depth {
		case 8:
			if alpha == nil {
				a = 0xff
			}
			return color.NRGBA{uint8(s(0)), uint8(s(1)), uint8(s(2)), uint8(a)}
		case 16:
			if alpha == nil {
				a = 0xffff
			}
			return color.NRGBA64{uint16(s(0)), uint16(s(1)), uint16(s(2)), uint16(a)}
		case 32:
			fa := float32(1)
			if alpha != nil {
				fa = f32(a)
			}
			return psdcolor.NRGBA128{R: f32(s(0)), G: f32(s(1)), B: f32(s(2)), A: fa}
		}
	case 4:
		switch depth {
		case 8:
			if alpha == nil {
				a = 0xff
			}
			return psdcolor.NCMYKA{C: uint8(s(0)), M: uint8(s(1)), Y: uint8(s(2)), K: uint8(s(3)), A: uint8(a)}
		case 16:
			if alpha == nil {
				a = 0xffff
			}
			return psdcolor.NCMYKA80{C: uint16(s(0)), M: uint16(s(1)), Y: uint16(s(2)), K: uint16(s(3)), A: uint16(a)}
		}
	}
	panic("psdref: unsupported mode")
}

// SameColor compares colours by dynamic type and value (NaN equals NaN).
func SameColor(a, b color.Color) bool {
	switch x := a.(type) {
	case psdcolor.NGrayA64:
		y, ok := b.(psdcolor.NGrayA64)
		return ok && feq(x.Y, y.Y) && feq(x.A, y.A)
	case psdcolor.NRGBA128:
		y, ok := b.(psdcolor.NRGBA128)
		return ok && feq(x.R, y.R) && feq(x.G, y.G) && feq(x.B, y.B) && feq(x.A, y.A)
	case psdcolor.Gray32:
		y, ok := b.(psdcolor.Gray32)
		return ok && feq(x.Y, y.Y)
	}
	return a == b
}

func feq(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

// Palette computes the palette of an indexed document.
func Palette(d *psdw.Doc) color.Palette {
	if d.Mode != 2 {
		return nil
	}
	tr := -1
	for _, r := range d.Resources {
		if r.ID == 0x417 {
			tr = int(binary.BigEndian.Uint16(r.Data))
		}
	}
	n := len(d.ModeData) / 3
	pal := make(color.Palette, n)
	for i := range pal {
		c := color.NRGBA{d.ModeData[i], d.ModeData[256+i], d.ModeData[512+i], 255}
		if i == tr {
			c.A = 0
		}
		pal[i] = c
	}
	return pal
}

// MergedHasAlpha tells whether the first extra channel is the transparency of the merged image.
func MergedHasAlpha(d *psdw.Doc) bool {
	mc := ModeChannels(d.Mode)
	if d.Mode == 0 || d.Mode == 2 || d.Channels <= mc {
		return false
	}
	for _, r := range d.Resources {
		if r.ID == 0x41d {
			for i := 0; i+4 <= len(r.Data); i += 4 {
				if binary.BigEndian.Uint32(r.Data[i:]) == 0 {
					return true
				}
			}
			return false
		}
	}
	return true
}

// CheckConfig compares the configuration.
func CheckConfig(d *psdw.Doc, cfg *psd.Config) error {
	v := 1
	if d.PSB {
		v = 2
	}
	if cfg.Version != v || cfg.PSB() != d.PSB {
		return fmt.Errorf("version %d PSB()=%v, want %d", cfg.Version, cfg.PSB(), v)
	}
	if cfg.Rect != image.Rect(0, 0, d.W, d.H) {
		return fmt.Errorf("config rect %v, want %dx%d", cfg.Rect, d.W, d.H)
	}
	if cfg.Channels != d.Channels || cfg.Depth != d.Depth || int(cfg.ColorMode) != d.Mode {
		return fmt.Errorf("channels/depth/mode %d/%d/%d, want %d/%d/%d", cfg.Channels, cfg.Depth, cfg.ColorMode, d.Channels, d.Depth, d.Mode)
	}
	if !bytes.Equal(cfg.ColorModeData, d.ModeData) {
		return fmt.Errorf("colour mode data differ: %d bytes, want %d", len(cfg.ColorModeData), len(d.ModeData))
	}
	want := map[int]psdw.Res{}
	for _, r := range d.Resources {
		want[r.ID] = r
	}
	if len(cfg.Res) != len(want) {
		return fmt.Errorf("%d image resources, want %d", len(cfg.Res), len(want))
	}
	for id, w := range want {
		g, ok := cfg.Res[id]
		if !ok || g.Name != w.Name || !bytes.Equal(g.Data, w.Data) {
			return fmt.Errorf("image resource %04x: got %q % x (present %v), want %q % x", id, g.Name, g.Data, ok, w.Name, w.Data)
		}
	}
	if pal := Palette(d); pal != nil {
		g := cfg.Palette()
		if len(g) != len(pal) {
			return fmt.Errorf("palette has %d entries, want %d", len(g), len(pal))
		}
		for i := range pal {
			if g[i] != pal[i] {
				return fmt.Errorf("palette[%d] = %v, want %v", i, g[i], pal[i])
			}
		}
	} else if cfg.Palette() != nil {
		return fmt.Errorf("palette of a non indexed document")
	}
	return nil
}

func checkImage(what string, im image.Image, r image.Rectangle, at func(x, y int) color.Color) error {
	if im == nil {
		return fmt.Errorf("%s: no picker", what)
	}
	if im.Bounds() != r {
		return fmt.Errorf("%s: bounds %v, want %v", what, im.Bounds(), r)
	}
	w := r.Dx()
	for y := 0; y < r.Dy(); y++ {
		for x := 0; x < w; x++ {
			if big(w, r.Dy()) && !edge(x, y, w, r.Dy()) {
				continue
			}
			g, want := im.At(r.Min.X+x, r.Min.Y+y), at(x, y)
			if !SameColor(g, want) {
				return fmt.Errorf("%s: At(%d,%d) = %T%v, want %T%v", what, r.Min.X+x, r.Min.Y+y, g, g, want, want)
			}
		}
	}
	return nil
}

func big(w, h int) bool { return w*h > 4096 }

func edge(x, y, w, h int) bool {
	return x < 3 || y < 3 || x >= w-3 || y >= h-3 || (x%64 < 2 && y%16 < 2)
}

// CheckMerged compares the merged image.
func CheckMerged(d *psdw.Doc, p *psd.PSD) error {
	var all []byte
	for _, pl := range d.Planes {
		all = append(all, pl...)
	}
	if !bytes.Equal(p.Data, all) {
		return fmt.Errorf("merged data differ: %s", diff(p.Data, all))
	}
	if len(p.Channel) != d.Channels {
		return fmt.Errorf("%d merged channels, want %d", len(p.Channel), d.Channels)
	}
	r := image.Rect(0, 0, d.W, d.H)
	for i := 0; i < d.Channels; i++ {
		ch, ok := p.Channel[i]
		if !ok || !bytes.Equal(ch.Data, d.Planes[i]) {
			return fmt.Errorf("merged channel %d differs (present %v)", i, ok)
		}
		if err := checkImage(fmt.Sprintf("merged channel %d", i), ch.Picker, r, func(x, y int) color.Color {
			return GrayAt(d.Planes[i], d.Depth, d.W, x, y)
		}); err != nil {
			return err
		}
	}
	var alpha []byte
	if MergedHasAlpha(d) {
		alpha = d.Planes[ModeChannels(d.Mode)]
	}
	pal := Palette(d)
	return checkImage("merged image", p.Picker, r, func(x, y int) color.Color {
		return ColorAt(d.Mode, d.Depth, d.Planes, alpha, pal, d.W, x, y)
	})
}

func diff(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d of %d is %02x, want %02x", i, len(a), a[i], b[i])
		}
	}
	return "equal"
}

// node is an expected layer: index into Doc.Layers and children.
type node struct {
	idx  int
	kids []*node
}

func divider(l *psdw.Layer) (typ int, blend string, sub int) {
	blend = l.BlendMode
	var data []byte
	found := false
	for _, key := range []string{"lsct", "lsdk"} {
		for _, in := range l.Infos {
			if in.Key == key && !found {
				data, found = in.Data, true
			}
		}
		if found {
			break
		}
	}
	if found && len(data) >= 4 {
		typ = int(binary.BigEndian.Uint32(data))
		if len(data) >= 12 {
			blend = string(data[8:12])
		}
		if len(data) >= 16 {
			sub = int(binary.BigEndian.Uint32(data[12:]))
		}
	}
	return
}

// Tree computes the expected layer tree; ok is false when a folder record has no matching divider.
func Tree(d *psdw.Doc) (roots []int, kids map[int][]int, ok bool) {
	kids = map[int][]int{}
	type frame struct{ list []int }
	st := []frame{{}}
	for i := range d.Layers {
		typ, _, _ := divider(&d.Layers[i])
		switch typ {
		case 3:
			st = append(st, frame{})
		case 1, 2:
			if len(st) == 1 {
				return nil, nil, false
			}
			kids[i] = st[len(st)-1].list
			st = st[:len(st)-1]
			st[len(st)-1].list = append(st[len(st)-1].list, i)
		default:
			st[len(st)-1].list = append(st[len(st)-1].list, i)
		}
	}
	if len(st) != 1 {
		return nil, nil, false // a divider without its folder
	}
	return st[0].list, kids, true
}

// Opt selects what was decoded.
type Opt struct {
	NoLayerImage bool
	NoMerged     bool
}

// CheckDoc compares everything.
func CheckDoc(d *psdw.Doc, p *psd.PSD, o Opt) error {
	if err := CheckConfig(d, &p.Config); err != nil {
		return err
	}
	if o.NoMerged {
		if p.Data != nil || p.Channel != nil || p.Picker != nil {
			return fmt.Errorf("merged image present although it was skipped")
		}
	} else if err := CheckMerged(d, p); err != nil {
		return err
	}
	if d.Loc == psdw.LocEmpty || d.Loc == psdw.LocNone {
		if len(p.Layer) != 0 {
			return fmt.Errorf("%d layers, want none", len(p.Layer))
		}
	} else {
		roots, kids, ok := Tree(d)
		if !ok {
			return fmt.Errorf("a broken layer structure was accepted")
		}
		if err := checkLayers(d, p.Layer, roots, kids, o, "root"); err != nil {
			return err
		}
	}
	if d.Loc != psdw.LocEmpty {
		want := map[string][]byte{}
		for _, in := range d.Infos {
			want[in.Key] = in.Data
		}
		if err := checkInfos("document", p.AdditinalLayerInfo, want, nil); err != nil {
			return err
		}
	}
	return nil
}

func checkInfos(what string, got map[psd.AdditionalInfoKey][]byte, want map[string][]byte, consumed map[string]bool) error {
	var keys []string
	for k := range got {
		keys = append(keys, string(k))
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, ok := want[k]
		if !ok {
			return fmt.Errorf("%s: unexpected additional info %q", what, k)
		}
		if !bytes.Equal(got[psd.AdditionalInfoKey(k)], w) {
			return fmt.Errorf("%s: additional info %q = % x, want % x", what, k, got[psd.AdditionalInfoKey(k)], w)
		}
	}
	for k := range want {
		if _, ok := got[psd.AdditionalInfoKey(k)]; !ok && !consumed[k] {
			return fmt.Errorf("%s: additional info %q is missing", what, k)
		}
	}
	return nil
}

func checkLayers(d *psdw.Doc, got []psd.Layer, want []int, kids map[int][]int, o Opt, where string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d layers, want %d (%v)", where, len(got), len(want), want)
	}
	for i, idx := range want {
		g := &got[i]
		what := fmt.Sprintf("%s/%d", where, idx)
		if g.SeqID != idx {
			return fmt.Errorf("%s: layer in position %d has SeqID %d, want %d", where, i, g.SeqID, idx)
		}
		if err := CheckLayer(d, idx, g, o, what); err != nil {
			return err
		}
		if err := checkLayers(d, g.Layer, kids[idx], kids, o, what); err != nil {
			return err
		}
	}
	return nil
}

func find(infos []psdw.Info, key string) ([]byte, bool) {
	var r []byte
	ok := false
	for _, in := range infos {
		if in.Key == key {
			r, ok = in.Data, true
		}
	}
	return r, ok
}

// modeNames are the keys of the format and the names the modes have.
const modeNames = "pass:pass-through norm:normal diss:dissolve dark:darken mul:multiply idiv:color-burn lbrn:linear-burn dkCl:darker-color " +
	"lite:lighten scrn:screen div:color-dodge lddg:linear-dodge lgCl:lighter-color over:overlay sLit:soft-light hLit:hard-light " +
	"vLit:vivid-light lLit:linear-light pLit:pin-light hMix:hard-mix diff:difference smud:exclusion fsub:subtract fdiv:divide " +
	"hue:hue sat:saturation colr:color lum:luminosity"

var modeNameOf = func() map[string]string {
	m := map[string]string{}
	for _, f := range strings.Fields(modeNames) {
		k, n, _ := strings.Cut(f, ":")
		m[(k + "   ")[:4]] = n
	}
	return m
}()

// CheckLayer compares one layer record, its mask and its image data.
func CheckLayer(d *psdw.Doc, idx int, g *psd.Layer, o Opt, what string) error {
	l := &d.Layers[idx]
	if g.Rect != R(l.Rect) {
		return fmt.Errorf("%s: rect %v, want %v", what, g.Rect, R(l.Rect))
	}
	if string(g.BlendMode) != l.BlendMode || g.Opacity != l.Opacity || g.Clipping != (l.Clipping != 0) || g.Flags != l.Flags {
		return fmt.Errorf("%s: blend/opacity/clipping/flags %q/%d/%v/%d, want %q/%d/%v/%d", what, g.BlendMode, g.Opacity, g.Clipping, g.Flags, l.BlendMode, l.Opacity, l.Clipping != 0, l.Flags)
	}
	if g.Visible() != (l.Flags&2 == 0) || g.TransparencyProtected() != (l.Flags&1 != 0) {
		return fmt.Errorf("%s: Visible/TransparencyProtected = %v/%v for flags %d", what, g.Visible(), g.TransparencyProtected(), l.Flags)
	}
	if n, ok := modeNameOf[l.BlendMode]; ok && g.BlendMode.String() != n {
		return fmt.Errorf("%s: blend mode %q is named %q, want %q", what, l.BlendMode, g.BlendMode, n)
	}
	name, uni := "", ""
	infos := l.Infos
	if l.NoExtra {
		infos = nil
	} else {
		name = l.Name
	}
	bce := true
	wantName := name
	if u, ok := find(infos, "luni"); ok && len(u) >= 4 {
		n := int(binary.BigEndian.Uint32(u))
		us := make([]uint16, n)
		for i := range us {
			us[i] = binary.BigEndian.Uint16(u[4+2*i:])
		}
		uni = string(utf16.Decode(us))
		wantName = uni
	}
	if b, ok := find(infos, "clbl"); ok && len(b) > 0 {
		bce = b[0] != 0
	}
	if g.MBCSName != name || g.UnicodeName != uni || g.Name != wantName || g.String() != wantName {
		return fmt.Errorf("%s: names %q/%q/%q, want %q/%q/%q", what, g.Name, g.UnicodeName, g.MBCSName, wantName, uni, name)
	}
	if g.BlendClippedElements != bce {
		return fmt.Errorf("%s: BlendClippedElements %v, want %v", what, g.BlendClippedElements, bce)
	}
	typ, sb, sub := 0, l.BlendMode, 0
	if !l.NoExtra {
		typ, sb, sub = divider(l)
	}
	s := g.SectionDividerSetting
	if s.Type != typ || string(s.BlendMode) != sb || s.SubType != sub {
		return fmt.Errorf("%s: section divider %d/%q/%d, want %d/%q/%d", what, s.Type, s.BlendMode, s.SubType, typ, sb, sub)
	}
	if g.Folder() != (typ == 1 || typ == 2) || g.FolderIsOpen() != (typ == 1) || g.HasImage() != (typ == 0) {
		return fmt.Errorf("%s: Folder/FolderIsOpen/HasImage = %v/%v/%v for type %d", what, g.Folder(), g.FolderIsOpen(), g.HasImage(), typ)
	}
	want := map[string][]byte{}
	for _, in := range infos {
		want[in.Key] = in.Data
	}
	if err := checkInfos(what, g.AdditionalLayerInfo, want, map[string]bool{"luni": true, "clbl": true, "lsct": true, "lsdk": true}); err != nil {
		return err
	}
	if err := CheckMask(what, &l.Mask, l.NoExtra, &g.Mask); err != nil {
		return err
	}
	if o.NoLayerImage {
		if g.Channel != nil || g.Picker != nil {
			return fmt.Errorf("%s: image data present although it was skipped", what)
		}
		return nil
	}
	ids := map[int]bool{}
	planes := make([][]byte, ModeChannels(d.Mode))
	var alpha []byte
	for k := range l.Chans {
		c := &l.Chans[k]
		ids[int(c.ID)] = true
		r := l.ChanRect(c.ID)
		ch, ok := g.Channel[int(c.ID)]
		if !ok {
			return fmt.Errorf("%s: channel %d is missing", what, c.ID)
		}
		data := c.Data
		if c.Empty != 0 {
			data = make([]byte, psdw.RowBytes(r.W(), d.Depth)*r.H())
		}
		if !bytes.Equal(ch.Data, data) {
			return fmt.Errorf("%s: channel %d data differ: %s", what, c.ID, diff(ch.Data, data))
		}
		if err := checkImage(fmt.Sprintf("%s channel %d", what, c.ID), ch.Picker, R(r), func(x, y int) color.Color {
			return GrayAt(data, d.Depth, r.W(), x, y)
		}); err != nil {
			return err
		}
		if c.ID >= 0 && int(c.ID) < len(planes) {
			planes[c.ID] = data
		}
		if c.ID == -1 {
			alpha = data
		}
	}
	if len(g.Channel) != len(ids) {
		return fmt.Errorf("%s: %d channels, want %d", what, len(g.Channel), len(ids))
	}
	for _, p := range planes {
		if p == nil {
			return nil // no complete colour image to look at
		}
	}
	w := l.Rect.W()
	return checkImage(what+" image", g.Picker, R(l.Rect), func(x, y int) color.Color {
		return ColorAt(d.Mode, d.Depth, planes, alpha, nil, w, x, y)
	})
}

// CheckMask compares the mask data of a layer.
func CheckMask(what string, m *psdw.Mask, noExtra bool, g *psd.Mask) error {
	var w psd.Mask
	if m.Present && !noExtra {
		// a part is present when all of its bytes are
		left := len(m.Bytes())
		only20 := left == 20
		part := func(n int, set func()) {
			if left < n {
				left = 0
				return
			}
			left -= n
			if set != nil {
				set()
			}
		}
		noFlags := true
		part(16, func() { w.Rect = R(m.Rect) })
		part(1, func() { w.DefaultColor = int(m.Color) })
		part(1, func() {
			noFlags = false
			w.Flags = int(m.Flags)
			w.UserMaskDensity, w.VectorMaskDensity = 255, 255
		})
		if m.Flags&16 != 0 {
			part(1, nil)
			if m.Params&1 != 0 {
				part(1, func() { w.UserMaskDensity = int(m.UD) })
			}
			if m.Params&2 != 0 {
				part(8, func() { w.UserMaskFeather = m.UF })
			}
			if m.Params&4 != 0 {
				part(1, func() { w.VectorMaskDensity = int(m.VD) })
			}
			if m.Params&8 != 0 {
				part(8, func() { w.VectorMaskFeather = m.VF })
			}
		}
		if m.HasReal && !only20 {
			part(1, func() { w.RealFlags = int(m.RealFlags) })
			part(1, func() { w.RealBackgroundColor = int(m.RealColor) })
			part(16, func() { w.RealRect = R(m.RealRect) })
		}
		if noFlags && g.UserMaskDensity == 255 && g.VectorMaskDensity == 255 {
			// either is neutral for a record that ends before its flags
			w.UserMaskDensity, w.VectorMaskDensity = 255, 255
		}
	}
	if *g != w {
		return fmt.Errorf("%s: mask %+v, want %+v", what, *g, w)
	}
	if g.Enabled() != (w.Flags&2 == 0) || g.RealEnabled() != (w.RealFlags&2 == 0) {
		return fmt.Errorf("%s: mask Enabled/RealEnabled wrong", what)
	}
	return nil
}
