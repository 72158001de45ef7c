package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
)

// exported is what the exporter has to write for one layer.
type exported struct {
	label string // path of names
	rect  image.Rectangle
	at    func(x, y int) color.Color // relative to the rectangle
}

// exportForm is a color form layers can have.
type exportForm struct{ mode, depth, colors int }

var exportForms = []exportForm{{3, 8, 3}, {3, 16, 3}, {3, 32, 3}, {1, 8, 1}, {1, 16, 1}, {1, 32, 1}, {4, 8, 4}, {4, 16, 4}}

// exportPlane makes the samples of a channel.
func exportPlane(w, h, depth, seed int) []byte {
	var b bytes.Buffer
	for i := 0; i < w*h; i++ {
		v := (i*37 + seed*59 + i/w*101 + 1) % 257
		switch depth {
		case 8:
			b.WriteByte(byte(v))
		case 16:
			binary.Write(&b, binary.BigEndian, uint16(v*255))
		case 32:
			binary.Write(&b, binary.BigEndian, math.Float32bits(float32(v)/256))
		}
	}
	return b.Bytes()
}

// exportLayer makes a layer with a picture and says what it shows.
func exportLayer(f exportForm, name string, r image.Rectangle, comp, seed int, alpha bool) (psdw.Layer, func(x, y int) color.Color) {
	w, h := r.Dx(), r.Dy()
	l := psdw.Layer{Rect: psdw.Rect{T: int32(r.Min.Y), L: int32(r.Min.X), B: int32(r.Max.Y), R: int32(r.Max.X)}, BlendMode: "norm", Opacity: 255, Name: name}
	var planes [][]byte
	var a []byte
	if alpha {
		a = exportPlane(w, h, f.depth, seed+9)
		l.Chans = append(l.Chans, psdw.Chan{ID: -1, Comp: comp, Data: a})
	}
	for i := 0; i < f.colors; i++ {
		p := exportPlane(w, h, f.depth, seed+i)
		planes = append(planes, p)
		l.Chans = append(l.Chans, psdw.Chan{ID: int16(i), Comp: comp, Data: p})
	}
	return l, func(x, y int) color.Color { return psdref.ColorAt(f.mode, f.depth, planes, a, nil, w, x, y) }
}

func exportDoc(f exportForm, psb bool, layers ...psdw.Layer) []byte {
	d := &psdw.Doc{PSB: psb, W: 1, H: 1, Channels: f.colors, Depth: f.depth, Mode: f.mode, Loc: psdw.LocMain, Layers: layers}
	for i := 0; i < f.colors; i++ {
		d.Planes = append(d.Planes, make([]byte, f.depth/8))
	}
	b, _ := d.Write()
	return b
}

// runExporter exports doc in the directory dir; blocks limits the size of every file, in units of 512 bytes.
func runExporter(dir string, doc []byte, blocks int) (out string, err error) {
	in := filepath.Join(dir, "in.psd")
	if err := os.WriteFile(in, doc, 0o644); err != nil {
		panic(err)
	}
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "psdexporter")
	cmd := exec.Command(bin, in)
	if blocks >= 0 {
		cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, blocks), "sh", bin, in)
	}
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "GOMAXPROCS=2"}
	var o bytes.Buffer
	cmd.Stdout = &o
	err = cmd.Run()
	return o.String(), err
}

// checkExport compares the files and the listing with the pictures.
func checkExport(dir, out string, want map[string]exported) error {
	files, _ := os.ReadDir(dir)
	for _, f := range files {
		if _, ok := want[f.Name()]; !ok && f.Name() != "in.psd" {
			return fmt.Errorf("unexpected file %s", f.Name())
		}
	}
	var lines []string
	for name, k := range want {
		lines = append(lines, k.label+" -> "+name)
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return fmt.Errorf("the layer %q has no file %s", k.label, name)
		}
		br := bytes.NewReader(b)
		m, err := png.Decode(br)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if br.Len() > 0 {
			return fmt.Errorf("%s: %d bytes follow the picture", name, br.Len())
		}
		if m.Bounds().Size() != k.rect.Size() {
			return fmt.Errorf("%s: size %v, the layer's is %v", name, m.Bounds().Size(), k.rect.Size())
		}
		for y := 0; y < k.rect.Dy(); y++ {
			for x := 0; x < k.rect.Dx(); x++ {
				g, w := m.At(m.Bounds().Min.X+x, m.Bounds().Min.Y+y), k.at(x, y)
				if !closeColor(g, w) {
					return fmt.Errorf("%s: pixel (%d,%d) is %v, the layer's is %v", name, x, y, g, w)
				}
			}
		}
	}
	got := strings.Split(strings.TrimSpace(out), "\n")
	if len(lines) == 0 {
		lines = []string{""}
	}
	sort.Strings(lines)
	sort.Strings(got)
	if strings.Join(lines, "|") != strings.Join(got, "|") {
		return fmt.Errorf("the exporter lists %q, expected %q", got, lines)
	}
	return nil
}

// closeColor: equal up to the precision of 8 bit non-premultiplied samples.
func closeColor(a, b color.Color) bool {
	ar, ag, ab, aa := a.RGBA()
	br, bg, bb, ba := b.RGBA()
	d := func(x, y uint32) bool { return x <= y+0x202 && y <= x+0x202 }
	return d(ar, br) && d(ag, bg) && d(ab, bb) && d(aa, ba)
}

func exportDir(c *mc.Case) string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_BIN"), "export-")
	if err != nil {
		panic(err)
	}
	return dir
}

// exportColors: pictures of every color form, at the top or in a folder.
func exportColors(c *mc.Case) {
	f := mc.Pick(c, "form", exportForms)
	comp := c.Choose(4, "comp")
	psb := c.Bool("psb")
	alpha := c.Bool("alpha")
	nested := c.Choose(3, "folder")
	rc := mc.Pick(c, "rect", []image.Rectangle{image.Rect(0, 0, 1, 1), image.Rect(-9, 5, 8, 9), image.Rect(3, -2000, 43, -1993)})
	want := map[string]exported{}
	var ls []psdw.Layer
	pre, npre := "", ""
	if nested > 0 {
		ls = append(ls, psdw.Layer{BlendMode: "norm", Name: "</g>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", -1)}}})
		pre, npre = "000_", "g/"
	}
	for i, a := range []bool{alpha, !alpha} {
		l, at := exportLayer(f, fmt.Sprint("l", i), rc.Add(image.Pt(i, 0)), (comp+i)%4, i*5, a)
		ls = append(ls, l)
		want[fmt.Sprintf("%s%03d.png", pre, i)] = exported{npre + fmt.Sprint("l", i), rc, at}
	}
	if nested > 0 {
		g := psdw.Layer{BlendMode: "pass", Name: "g"}
		if nested == 2 {
			// the record of a folder may have channels; it is still no picture
			g, _ = exportLayer(f, "g", rc, comp, 77, alpha)
		}
		g.Infos = []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "", -1)}}
		ls = append(ls, g)
	}
	dir := exportDir(c)
	defer os.RemoveAll(dir)
	out, err := runExporter(dir, exportDoc(f, psb, ls...), -1)
	if err != nil {
		c.Fail("the exporter fails: %v", err)
	}
	if err := checkExport(dir, out, want); err != nil {
		c.Fail("%v", err)
	}
	c.Validated(1)
	c.Obs(f, alpha)
}

// exportMany: more layers than three digits can number.
func exportMany(c *mc.Case) {
	n := mc.Pick(c, "layers", []int{99, 101, 256, 1003})
	f := exportForms[3]
	want := map[string]exported{}
	var ls []psdw.Layer
	for i := 0; i < n; i++ {
		if i%3 == 1 {
			ls = append(ls, psdw.Layer{BlendMode: "norm", Name: "e"})
			continue
		}
		rc := image.Rect(i, 0, i+1+i%2, 1)
		l, at := exportLayer(f, "same", rc, 0, i, false)
		ls = append(ls, l)
		want[fmt.Sprintf("%03d.png", i)] = exported{"same", rc, at}
	}
	dir := exportDir(c)
	defer os.RemoveAll(dir)
	out, err := runExporter(dir, exportDoc(f, false, ls...), -1)
	if err != nil {
		c.Fail("the exporter fails: %v", err)
	}
	if err := checkExport(dir, out, want); err != nil {
		c.Fail("%v", err)
	}
	c.Validated(1)
}

// exportFaults: what cannot be read or written is not passed over.
func exportFaults(c *mc.Case) {
	f := exportForms[0]
	want := map[string]exported{}
	var ls []psdw.Layer
	order := c.Choose(3, "order")
	for i := 0; i < 3; i++ {
		size := []int{2, 14, 50}[(i+order)%3]
		rc := image.Rect(0, 0, size, size)
		l, at := exportLayer(f, fmt.Sprint("l", i), rc, 0, i*7, true)
		ls = append(ls, l)
		want[fmt.Sprintf("%03d.png", i)] = exported{fmt.Sprint("l", i), rc, at}
	}
	nest := c.Bool("folder")
	if nest {
		w := map[string]exported{}
		for k, v := range want {
			v.label = "g/" + v.label
			w["000_"+k] = v
		}
		want = w
		ls = append([]psdw.Layer{{BlendMode: "norm", Name: "</g>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", -1)}}}}, ls...)
		ls = append(ls, psdw.Layer{BlendMode: "pass", Name: "g", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "", -1)}}})
	}
	doc := exportDoc(f, false, ls...)
	dir := exportDir(c)
	defer os.RemoveAll(dir)
	limit := -1
	what := ""
	switch c.Choose(3, "fault") {
	case 0: // no room for a picture
		limit = c.Choose(24, "blocks")
		what = fmt.Sprintf("no file may be larger than %d bytes", 512*limit)
		os.WriteFile(filepath.Join(dir, "in.psd"), nil, 0o644)
	case 1: // something else has the picture's name
		names := []string{}
		for k := range want {
			names = append(names, k)
		}
		sort.Strings(names)
		n := names[c.Choose(len(names), "name")]
		what = n + " is a directory"
		if err := os.Mkdir(filepath.Join(dir, n), 0o755); err != nil {
			panic(err)
		}
	case 2: // the document is cut
		cut := c.Choose(40, "cut")
		doc = doc[:len(doc)-12-cut*(len(doc)-20)/40]
		what = fmt.Sprintf("the document is cut to %d bytes", len(doc))
	}
	out, err := runExporter(dir, doc, limit)
	c.Validated(1)
	c.Obs(err == nil)
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
		return
	}
	if err := checkExport(dir, out, want); err != nil {
		c.Fail("%s, and the exporter reports success: %v", what, err)
	}
}
