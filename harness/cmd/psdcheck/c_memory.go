package main

import (
	"bufio"
	"bytes"
	"fmt"
	"image"
	"io"
	"runtime/metrics"
	"sort"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

// C34: sizes that a file only claims cost no memory.

// What any small document may take: buffers of a usual size; when a wrong
// number of layers (16 bits) is found also an entry for each of them.
const (
	memLimit       = 3 << 20
	memLimitLayers = 40 << 20
)

// allocated is the number of bytes allocated while f runs.
func allocated(f func()) uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	n := s[0].Value.Uint64()
	f()
	metrics.Read(s)
	return s[0].Value.Uint64() - n
}

var memWays = []string{"Decode", "Decode without layer images", "Decode without merged image", "Decode from a pipe", "Decode from bufio", "DecodeConfig", "image.Decode"}

// decodeMem decodes b in a way and returns the number of bytes allocated.
func decodeMem(c *mc.Case, b []byte, way int, what func() string) (n uint64, err error) {
	defer func() {
		if r := recover(); r != nil {
			c.Detail("file: % x", clip(b))
			c.Fail("%s, %s: panic: %v", what(), memWays[way], r)
		}
	}()
	br := bytes.NewReader(b)
	n = allocated(func() {
		switch way {
		case 0:
			_, _, err = psd.Decode(br, nil)
		case 1:
			_, _, err = psd.Decode(br, &psd.DecodeOptions{SkipLayerImage: true})
		case 2:
			_, _, err = psd.Decode(br, &psd.DecodeOptions{SkipMergedImage: true})
		case 3:
			_, _, err = psd.Decode(struct{ io.Reader }{br}, nil)
		case 4:
			_, _, err = psd.Decode(bufio.NewReader(br), nil)
		case 5:
			_, _, err = psd.DecodeConfig(br)
		case 6:
			_, _, err = image.Decode(br)
		}
	})
	c.Validated(1)
	return n, err
}

func needMem(c *mc.Case, b []byte, way int, limit uint64, what func() string) (uint64, error) {
	n, err := decodeMem(c, b, way, what)
	if n > limit {
		c.Detail("file: % x", clip(b))
		c.Fail("%s, %s: %d bytes of memory allocated for a file of %d bytes, at most %d expected", what(), memWays[way], n, len(b), limit)
	}
	return n, err
}

// bigBlocks are documents with a block of n bytes that is really there; where it ends is known.
func bigBlock(kind, n int, psb bool) (d *psdw.Doc, name string) {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	f := form{3, 8, 3}
	d = newDoc(f, 2, 2, 0, psb, 0)
	d.Loc = psdw.LocMain
	l := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, true)
	switch kind {
	case 0:
		name = "an image resource"
		d.Resources = []psdw.Res{{ID: 0x425, Data: data}}
	case 1:
		name = "a block of a layer"
		l.Infos = []psdw.Info{{Key: "Txt2", Data: data}}
	case 2:
		name = "a block of the document"
		d.HasGlobal = true
		d.Infos = []psdw.Info{{Key: "Patt", Data: data}}
	case 3:
		name = "the global layer mask"
		d.HasGlobal, d.Global = true, data
	case 4:
		name = "the blending ranges"
		l.BlendRanges = data
	case 5:
		name = "the color mode data"
		d = newDoc(form{2, 8, 1}, 2, 2, 0, psb, 0)
		d.ModeData = append(d.ModeData[:768:768], data...)
		return d, name
	case 6:
		name = "unused bytes of a channel"
		l.Chans[0].Extra = n
	case 7:
		name = "the mask data"
		l.Mask = psdw.Mask{Present: true, Rect: psdw.Rect{T: 0, L: 0, B: 1, R: 1}, Pad: n}
	case 8:
		name = "a layer name"
		l.Infos = []psdw.Info{{Key: "luni", Data: append(be32(uint32(n/2)), data...)}}
	}
	d.Layers = []psdw.Layer{l}
	return d, name
}

const bigBlocks = 9

func init() {
	type base struct {
		b    []byte
		dims map[int]bool // bytes that give the extent of pixels
		size map[int]bool // where sizes of 32 bits are
	}
	var bases []base
	for _, d := range append(richDocs(), malformedDocs()[len(docs):]...) {
		dims := map[int]bool{}
		for i := 14; i < 22; i++ {
			dims[i] = true
		}
		for o := range d.Coords() {
			// Coords tells the first byte
			for i := 0; i < 4; i++ {
				dims[o+i] = true
			}
		}
		b, _ := d.Write()
		for i := range d.Layers {
			// what the flags of a mask say moves its second rectangle
			if m := d.Layers[i].Mask.Bytes(); len(m) > 0 {
				at := bytes.Index(b, append(be32(uint32(len(m))), m...)) + 4
				for k := range m {
					dims[at+k] = true
				}
			}
		}
		bases = append(bases, base{b, dims, d.Fields32()})
	}
	values := [][]byte{be32(0x00400000)} // the first one only where a size is
	for _, v := range []uint32{0x7fffffff, 0xffffffff, 0x80000000, 0x40000000, 0x08000000, 0x0c000001} {
		values = append(values, be32(v))
	}
	values = append(values, []byte{0xff, 0xff}, []byte{0x80, 0}, []byte{0x7f, 0xff},
		be32(0, 0x7fffffff), be32(0, 0xfffffff0), be32(1, 0), be32(0x7fffffff, 0xffffffff), be32(0xffffffff, 0xffffffff), be32(0x80000000, 0), be32(0x01000000, 1))
	type bb struct {
		kind, n int
		psb     bool
	}
	bigFields := map[bb][]int{}
	reg("C34",
		mc.Scenario{Name: "claimed-sizes", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			// every place of a document taken over by a huge number
			di := c.Choose(len(bases), "doc")
			bs := bases[di]
			way := c.Choose(len(memWays), "way")
			n := 0
			var most uint64
			for o := 4; o < len(bs.b)-1; o++ {
			next:
				for i, v := range values {
					if i == 0 && !bs.size[o] {
						continue
					}
					if o+len(v) > len(bs.b) {
						continue
					}
					for i := range v {
						if bs.dims[o+i] {
							continue next
						}
					}
					b := append([]byte{}, bs.b...)
					copy(b[o:], v)
					limit := uint64(memLimitLayers)
					if bs.size[o] && len(v) == 4 {
						limit = memLimit // what follows stays where it is
					}
					m, _ := needMem(c, b, way, limit, func() string { return fmt.Sprintf("bytes % x at %d of document %d", v, o, di) })
					if m > most && limit == memLimit {
						most = m
					}
					n++
				}
			}
			c.Obs(most >> 18)
			c.Visited(n, n)
		}},
		mc.Scenario{Name: "claims-beyond-data", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			// some megabytes are there, but the size of the block says gigabytes
			psb := c.Bool("psb")
			kind := c.Choose(bigBlocks, "kind")
			way := c.Choose(len(memWays), "way")
			for _, n := range []int{0, 4000, 1<<20 - 40, 1<<20 + 40, 3 << 20} {
				d, name := bigBlock(kind, n, psb)
				b, _ := d.Write()
				limit := memLimitLayers + 12*uint64(len(b))
				// complete
				if _, err := needMem(c, b, way, memLimit+24*uint64(len(b)), func() string { return fmt.Sprintf("%s of %d bytes", name, n) }); err != nil && kind != 3 {
					c.Fail("%s of %d bytes, %s: %v", name, n, memWays[way], err)
				}
				// every 32 bit field of the document in turn
				offs, ok := bigFields[bb{kind, n, psb}]
				if !ok {
					offs = fields(d)
					bigFields[bb{kind, n, psb}] = offs
				}
				for _, o := range offs {
					for _, v := range []uint32{0x7fffffff, 0xffffffff, 0x10000000} {
						x := append([]byte{}, b...)
						copy(x[o:], be32(v))
						needMem(c, x, way, limit, func() string {
							return fmt.Sprintf("%s of %d bytes, %#x at %d", name, n, v, o)
						})
					}
				}
				c.Visited(len(offs)*3, len(offs)*3)
			}
		}},
		mc.Scenario{Name: "many-parts", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			// memory grows with the number of parts, not faster
			psb := c.Bool("psb")
			kind := c.Choose(7, "kind")
			way := c.Choose(len(memWays), "way")
			f := form{1, 8, 1}
			for _, n := range []int{0, 10, 100, 1000, 4000} {
				d := newDoc(f, 2, 2, 0, psb, 0)
				d.Loc = psdw.LocMain
				name := ""
				one := stdLayer(f, psdw.Rect{T: 0, L: 0, B: 1, R: 1}, 0, 0, 1, false)
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						name = "image resources"
						d.Resources = append(d.Resources, psdw.Res{ID: 2000 + i, Data: []byte{1, 2, 3}})
					case 1:
						name = "blocks of a layer"
						one.Infos = append(one.Infos, psdw.Info{Key: fmt.Sprintf("z%03x", i), Data: []byte{1, 2}})
					case 2:
						name = "blocks of the document"
						d.HasGlobal = true
						d.Infos = append(d.Infos, psdw.Info{Key: fmt.Sprintf("z%03x", i), Data: []byte{1, 2, 3, 4}})
					case 3:
						name = "layers"
						d.Layers = append(d.Layers, one)
					case 4:
						name = "groups side by side"
						if i%2 == 0 {
							d.Layers = append(d.Layers, psdw.Layer{BlendMode: "norm", Name: "</g>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", 0)}}})
						} else {
							d.Layers = append(d.Layers, psdw.Layer{BlendMode: "pass", Name: "g", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "pass", 0)}}})
						}
					case 5:
						name = "nested groups"
						if i < n/2 {
							d.Layers = append(d.Layers, psdw.Layer{BlendMode: "norm", Name: "</g>", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(3, "", 0)}}})
						} else {
							d.Layers = append(d.Layers, psdw.Layer{BlendMode: "pass", Name: "g", Infos: []psdw.Info{{Key: "lsct", Data: psdw.SectionDivider(1, "pass", 0)}}})
						}
					case 6:
						name = "channels of a layer"
						one.Chans = append(one.Chans, psdw.Chan{ID: int16(i + 1), Data: []byte{byte(i)}})
					}
				}
				if kind == 1 || kind == 6 {
					d.Layers = []psdw.Layer{one}
				}
				b, _ := d.Write()
				limit := 4<<20 + 64*uint64(len(b))
				m, err := needMem(c, b, way, limit, func() string { return fmt.Sprintf("%d %s", n, name) })
				if err != nil {
					c.Fail("%d %s, %s: %v", n, name, memWays[way], err)
				}
				c.Obs(m>>22, err == nil)
			}
		}},
		mc.Scenario{Name: "pixels", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			// memory grows with the pixels that there are
			f := mc.Pick(c, "form", []form{{0, 1, 1}, {1, 8, 1}, {3, 8, 4}, {3, 16, 3}, {4, 8, 4}, {3, 32, 4}})
			comp := c.Choose(4, "comp")
			if f.Depth == 1 && comp > 1 {
				c.Skip()
			}
			psb := c.Bool("psb")
			size := mc.Pick(c, "size", [][2]int{{1, 1}, {4096, 1}, {1, 4096}, {700, 900}, {20000, 8}, {8, 20000}})
			way := c.Choose(len(memWays), "way")
			d := newDoc(f, size[0], size[1], comp, psb, 0)
			d.Loc = psdw.LocMain
			if !d.Representable() {
				c.Skip()
			}
			px := uint64(f.Channels * psdw.RowBytes(size[0], f.Depth) * size[1])
			if f.Depth != 1 {
				d.Layers = []psdw.Layer{stdLayer(f, psdw.Rect{T: 0, L: 0, B: int32(size[1]), R: int32(size[0])}, comp, 0, 1, true)}
				px += uint64((f.Channels + 1) * psdw.RowBytes(size[0], f.Depth) * size[1])
			}
			b, _ := d.Write()
			rows := uint64((f.Channels*2 + 1) * size[1] * 32)
			limit := 4<<20 + 4*uint64(len(b)) + 2*px + rows
			m, err := needMem(c, b, way, limit, func() string { return fmt.Sprintf("%v pixels %v", size, f) })
			if err != nil {
				c.Fail("%v pixels %v, %s: %v", size, f, memWays[way], err)
			}
			c.Obs(m * 4 / limit)
		}},
	)
}

// fields are the offsets of the sizes and counts of 32 bits, without the extents of pixels.
func fields(d *psdw.Doc) []int {
	var os []int
	coords := d.Coords()
	for o := range d.Fields32() {
		if o >= 22 && !coords[o] {
			os = append(os, o)
		}
	}
	sort.Ints(os)
	return os
}
