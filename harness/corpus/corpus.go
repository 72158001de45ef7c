// Package corpus enumerates decoder inputs for the comparison of the PackBits
// implementations of the different platforms.
package corpus

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"image"
	"sort"

	"github.com/oov/psd"

	"verif.local/harness/psdw"
)

// Case is one PackBits stream: the scanline size table followed by the scanlines.
type Case struct {
	Width, Lines int
	Large        bool
	Stream       []byte
}

func (c *Case) String() string {
	return fmt.Sprintf("width=%d lines=%d large=%v stream=% x", c.Width, c.Lines, c.Large, c.Stream)
}

// Decode runs the implementation of this platform.
func (c *Case) Decode() ([]byte, int, error) {
	dest := make([]byte, c.Width*c.Lines)
	n, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(c.Stream), 0, image.Rect(0, 0, c.Width, c.Lines), 8, 1, c.Large)
	return dest, n, err
}

var menu = []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff}

// Batches is the number of batches.
const Batches = 64

// Batch calls f for every case of a batch.
func Batch(i int, f func(*Case)) {
	if i < 60 {
		w := 1 + i%5
		large := i/5%2 == 1
		kind := i / 10
		other := [][]byte{nil, psdw.PackRow(bytes.Repeat([]byte{7}, w)), append([]byte{byte(w - 1)}, bytes.Repeat([]byte{9}, w)...), {0x80}, {byte(w), 1, 2, 3, 4, 5, 6, 7}, {0x81, 4}}[kind]
		var rec func(row []byte)
		rec = func(row []byte) {
			for k := 0; k < 3; k++ {
				rows := [][]byte{row}
				switch k {
				case 1:
					rows = [][]byte{row, other}
				case 2:
					rows = [][]byte{other, row}
				}
				f(&Case{w, len(rows), large, psdw.Encode(psdw.RLE, nil, 0, 0, 8, large, rows)})
			}
			if len(row) == 4 {
				return
			}
			for _, b := range menu {
				rec(append(row[:len(row):len(row)], b))
			}
		}
		rec(nil)
		return
	}
	// every packet header, exact, short and long data, exact, short and long scanlines
	for h := (i - 60) * 64; h < (i-59)*64; h++ {
		need, data := h+1, h+1
		if h == 0x80 {
			need, data = 0, 0
		} else if h > 0x80 {
			need, data = 257-h, 1
		}
		for dw := -2; dw <= 2; dw++ {
			for dd := -2; dd <= 2; dd++ {
				for tail := 0; tail < 3; tail++ {
					for _, large := range []bool{false, true} {
						if need+dw < 1 || data+dd < 0 {
							continue
						}
						row := []byte{byte(h)}
						for k := 0; k < data+dd; k++ {
							row = append(row, byte(k*5+3))
						}
						switch tail {
						case 1:
							row = append(row, 0x80)
						case 2:
							row = append([]byte{0x80, 0x80}, row...)
						}
						good := psdw.PackRow(bytes.Repeat([]byte{1, 2}, need+dw)[:need+dw])
						for _, rows := range [][][]byte{{row}, {row, good}, {good, row, good}, {good, good, good, good, row}} {
							f(&Case{need + dw, len(rows), large, psdw.Encode(psdw.RLE, nil, 0, 0, 8, large, rows)})
						}
					}
				}
			}
		}
	}
}

// Docs is the number of documents.
const Docs = 144

// Doc decodes a whole document and describes the outcome.
func Doc(i int) string {
	type form struct{ m, d, c int }
	f := []form{{3, 8, 3}, {1, 16, 2}, {1, 32, 1}, {4, 8, 5}, {0, 1, 1}, {2, 8, 1}}[i%6]
	w := []int{1, 3, 17, 130}[i/6%4]
	comp := i / 24 % 3
	if comp == 2 {
		comp = 3
	}
	psb := i/72%2 == 1
	h := 1 + i%7
	d := &psdw.Doc{PSB: psb, W: w, H: h, Channels: f.c, Depth: f.d, Mode: f.m, Comp: comp, Loc: psdw.LocMain}
	pl := func(w, h, s int) []byte {
		b := make([]byte, psdw.RowBytes(w, f.d)*h)
		for k := range b {
			if k/9%2 == 0 {
				b[k] = byte(s)
			} else {
				b[k] = byte(k*k + s)
			}
		}
		return b
	}
	for k := 0; k < f.c; k++ {
		d.Planes = append(d.Planes, pl(w, h, k))
	}
	if f.m == 2 {
		d.ModeData = make([]byte, 768)
	}
	if f.m == 3 || f.m == 1 {
		l := psdw.Layer{Rect: psdw.Rect{T: -1, L: 2, B: 4, R: int32(2 + w)}, BlendMode: "norm", Opacity: 200, Name: "x"}
		n := 1
		if f.m == 3 {
			n = 3
		}
		for k := -1; k < n; k++ {
			l.Chans = append(l.Chans, psdw.Chan{ID: int16(k), Comp: (comp + k + 1) % 4, Data: pl(w, 5, k)})
		}
		d.Layers = []psdw.Layer{l}
	}
	b, _ := d.Write()
	if i%5 == 4 {
		b = b[:len(b)-1]
	}
	p, n, err := psd.Decode(bytes.NewReader(b), nil)
	if err != nil {
		return "error " + err.Error()
	}
	hs := fnv.New64a()
	hs.Write(p.Data)
	for k := range p.Layer {
		var ids []int
		for id := range p.Layer[k].Channel {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			fmt.Fprint(hs, id)
			hs.Write(p.Layer[k].Channel[id].Data)
		}
	}
	return fmt.Sprintf("ok %d layers %d bytes %x", len(p.Layer), n, hs.Sum64())
}

// BatchDigest describes the outcomes of a batch, cut into pieces so that a difference can be located.
func BatchDigest(i int) []string {
	var out []string
	n := 0
	h := fnv.New64a()
	Batch(i, func(c *Case) {
		d, read, err := c.Decode()
		if err != nil {
			fmt.Fprintln(h, "error")
		} else {
			fmt.Fprintln(h, read)
			h.Write(d)
		}
		if n++; n%64 == 0 {
			out = append(out, fmt.Sprintf("%d: %x", n, h.Sum64()))
			h = fnv.New64a()
		}
	})
	return append(out, fmt.Sprintf("%d: %x", n, h.Sum64()))
}
