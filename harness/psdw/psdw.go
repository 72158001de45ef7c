// Package psdw is an independent writer for Photoshop documents: an abstract
// document model and its serialisation following Adobe's file format
// specification.  It shares no code with the decoder under test.
package psdw

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"math"
	"unicode/utf16"
)

// Compression methods.
const (
	Raw = iota
	RLE
	ZIP
	ZIPPred
)

// Rect is top, left, bottom, right as stored in the file.
type Rect struct{ T, L, B, R int32 }

func (r Rect) W() int {
	if r.R < r.L {
		return int(r.L) - int(r.R)
	}
	return int(r.R) - int(r.L)
}
func (r Rect) H() int {
	if r.B < r.T {
		return int(r.T) - int(r.B)
	}
	return int(r.B) - int(r.T)
}

// Res is an image resource block.
type Res struct {
	Sig  string // "" = 8BIM
	ID   int
	Name string
	Data []byte
}

// Info is an additional layer information block.
type Info struct {
	Sig  string // "" = 8BIM
	Key  string
	Data []byte
	Pad  int // zero bytes written after the data, not counted in its length
}

// Chan is one channel of a layer.
type Chan struct {
	ID    int16
	Comp  int
	Data  []byte // uncompressed plane
	Extra int    // unused bytes after the image data, counted in the length
	// Len0 writes a channel whose data length is 0 or 2 (no image data).
	Empty int // 0: normal, 1: length 0... see writer, 2: length 2
	// Packed overrides the RLE encoding of the plane.
	Packed [][]byte
}

// Mask is the layer mask data; its serialised form is computed by Bytes.
type Mask struct {
	Present bool
	Rect    Rect
	Color   byte
	Flags   byte
	Params  byte // written when Flags&16 != 0
	UD      byte
	UF      float64
	VD      byte
	VF      float64
	// Real part
	HasReal   bool
	RealFlags byte
	RealColor byte
	RealRect  Rect
	Pad       int // padding bytes at the end (counted)
	RawBytes  []byte
	// Cut, if positive, is the number of bytes of the record that are written.
	Cut int
}

func i32(b *bytes.Buffer, v int32) {
	if flip >= 0 {
		coord = true
		defer func() { coord = false }()
	}
	u32(b, uint32(v))
}
func u32(b *bytes.Buffer, v uint32) {
	if flip >= 0 {
		if (wide || !wideOnly) && (coord || !coordOnly) {
			if n32 == flip {
				v ^= 1 << 24
			}
			n32++
		}
	}
	binary.Write(b, binary.BigEndian, v)
}

var (
	flip = -1 // the 32 bit field to be marked, while Fields32 runs
	n32  int
	// the upper half of a 64 bit size is being written
	wide, wideOnly bool
	// the coordinate of a rectangle is being written
	coord, coordOnly bool
)

// Coords finds the offsets of all coordinates of layers and masks.
func (d *Doc) Coords() map[int]bool {
	coordOnly = true
	defer func() { coordOnly = false }()
	return d.Fields32()
}

// Fields64 finds the offsets of all 64 bit sizes of the written document.
func (d *Doc) Fields64() map[int]bool {
	wideOnly = true
	defer func() { wideOnly = false }()
	return d.Fields32()
}

// Fields32 finds the offsets of all 32 bit fields (sizes, rectangles) of the written document.
// Not safe for concurrent use with Write.
func (d *Doc) Fields32() map[int]bool {
	r := map[int]bool{}
	base, _ := d.Write()
	for k := 0; ; k++ {
		flip, n32 = k, 0
		b, _ := d.Write()
		n := n32
		flip = -1
		if k >= n {
			return r
		}
		for i := range b {
			if b[i] != base[i] {
				r[i] = true
				break
			}
		}
	}
}
func u16(b *bytes.Buffer, v uint16) { binary.Write(b, binary.BigEndian, v) }

func (r Rect) write(b *bytes.Buffer) { i32(b, r.T); i32(b, r.L); i32(b, r.B); i32(b, r.R) }

// Bytes serialises the mask data without its length field.
func (m *Mask) Bytes() []byte {
	if m.RawBytes != nil {
		return m.RawBytes
	}
	if !m.Present {
		return nil
	}
	var b bytes.Buffer
	m.Rect.write(&b)
	b.WriteByte(m.Color)
	b.WriteByte(m.Flags)
	if m.Flags&16 != 0 {
		b.WriteByte(m.Params)
		if m.Params&1 != 0 {
			b.WriteByte(m.UD)
		}
		if m.Params&2 != 0 {
			binary.Write(&b, binary.BigEndian, math.Float64bits(m.UF))
		}
		if m.Params&4 != 0 {
			b.WriteByte(m.VD)
		}
		if m.Params&8 != 0 {
			binary.Write(&b, binary.BigEndian, math.Float64bits(m.VF))
		}
	}
	if m.HasReal {
		b.WriteByte(m.RealFlags)
		b.WriteByte(m.RealColor)
		m.RealRect.write(&b)
	}
	for i := 0; i < m.Pad; i++ {
		b.WriteByte(0)
	}
	if m.Cut > 0 {
		return b.Bytes()[:m.Cut]
	}
	return b.Bytes()
}

// Layer is a layer record with its channel image data.
type Layer struct {
	Rect        Rect
	Chans       []Chan
	BlendMode   string // 4 characters
	Opacity     byte
	Clipping    byte
	Flags       byte
	NoExtra     bool // extra data length 0
	Mask        Mask
	BlendRanges []byte
	Name        string // pascal string
	Infos       []Info
}

// Where the layer records are stored.
const (
	LocMain  = iota // layer info section
	Loc16           // Lr16 block
	Loc32           // Lr32 block
	LocLayr         // Layr block
	LocNone         // no layer info, layer and mask section still present
	LocEmpty        // layer and mask section of length 0
)

// Doc is an abstract document.
type Doc struct {
	PSB       bool
	W, H      int
	Channels  int
	Depth     int
	Mode      int
	ModeData  []byte
	Resources []Res

	Loc        int
	Layers     []Layer
	NegCount   bool
	LayerPad   int // zero bytes at the end of the layer info, counted in its length
	HasGlobal  bool
	Global     []byte
	Infos      []Info
	SectionPad int // zero bytes at the end of the layer and mask section, counted (0..3)

	// Filler is the value of bytes without meaning: reserved fields, name and
	// data padding, the end of the layer info.
	Filler byte

	Comp   int
	Planes [][]byte // Channels planes
	// Packed overrides the RLE encoding of the merged image, one entry per row.
	Packed [][]byte
}

// Representable tells whether every RLE scanline length fits its field.
func (d *Doc) Representable() bool {
	return d.PSB || d.Comp != RLE || RowBytes(d.W, d.Depth)+RowBytes(d.W, d.Depth)/128+1 <= 65535
}

// Layout tells where things ended up.
type Layout struct {
	HeaderEnd, ColorModeEnd, ResourcesEnd, LayersEnd, End int
}

// LargeKeys have 8 byte lengths in PSB files.
var LargeKeys = map[string]bool{
	"LMsk": true, "Lr16": true, "Lr32": true, "Layr": true, "Mt16": true, "Mt32": true, "Mtrn": true,
	"Alph": true, "FMsk": true, "lnk2": true, "FEid": true, "FXid": true, "PxSD": true,
}

// RowBytes is the size of a scanline.
func RowBytes(w, depth int) int { return (w*depth + 7) / 8 }

// PackRow encodes one scanline greedily: runs of 3 or more become repeats.
func PackRow(row []byte) []byte {
	var out []byte
	i := 0
	for i < len(row) {
		j := i
		for j < len(row) && j-i < 128 && row[j] == row[i] {
			j++
		}
		if j-i >= 3 || (j-i == 2 && j == len(row)) {
			out = append(out, byte(257-(j-i)), row[i])
			i = j
			continue
		}
		s := i
		for i < len(row) && i-s < 128 {
			if i+2 < len(row) && row[i] == row[i+1] && row[i] == row[i+2] {
				break
			}
			i++
		}
		out = append(out, byte(i-s-1))
		out = append(out, row[s:i]...)
	}
	return out
}

// PackLiteral encodes a scanline as literal packets only.
func PackLiteral(row []byte) []byte {
	var out []byte
	for len(row) > 0 {
		n := len(row)
		if n > 128 {
			n = 128
		}
		out = append(out, byte(n-1))
		out = append(out, row[:n]...)
		row = row[n:]
	}
	return out
}

// Predict applies the delta predictor of the ZIP-with-prediction method.
func Predict(plane []byte, w, h, depth int) []byte {
	out := make([]byte, len(plane))
	switch depth {
	case 8:
		for y := 0; y < h; y++ {
			prev := byte(0)
			for x := 0; x < w; x++ {
				v := plane[y*w+x]
				out[y*w+x] = v - prev
				prev = v
			}
		}
	case 16:
		for y := 0; y < h; y++ {
			prev := uint16(0)
			for x := 0; x < w; x++ {
				o := (y*w + x) * 2
				v := binary.BigEndian.Uint16(plane[o:])
				binary.BigEndian.PutUint16(out[o:], v-prev)
				prev = v
			}
		}
	case 32:
		// bytes of equal significance are grouped per row, then delta coded
		rb := 4 * w
		for y := 0; y < h; y++ {
			row := plane[y*rb : (y+1)*rb]
			sh := make([]byte, rb)
			for x := 0; x < w; x++ {
				for k := 0; k < 4; k++ {
					sh[k*w+x] = row[4*x+k]
				}
			}
			prev := byte(0)
			for i, v := range sh {
				out[y*rb+i] = v - prev
				prev = v
			}
		}
	default:
		copy(out, plane)
	}
	return out
}

// Deflate compresses in zlib format.
func Deflate(b []byte) []byte {
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, zlib.BestSpeed)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

// Encode encodes planes of w x h samples (several planes for merged data).
// The compression method itself is not included.
func Encode(comp int, planes [][]byte, w, h, depth int, psb bool, packed [][]byte) []byte {
	var b bytes.Buffer
	switch comp {
	case Raw:
		for _, p := range planes {
			b.Write(p)
		}
	case RLE:
		rb := RowBytes(w, depth)
		rows := packed
		if rows == nil {
			for _, p := range planes {
				for y := 0; y < h; y++ {
					rows = append(rows, PackRow(p[y*rb:(y+1)*rb]))
				}
			}
		}
		for _, r := range rows {
			if psb {
				u32(&b, uint32(len(r)))
			} else {
				u16(&b, uint16(len(r)))
			}
		}
		for _, r := range rows {
			b.Write(r)
		}
	case ZIP:
		var all []byte
		for _, p := range planes {
			all = append(all, p...)
		}
		b.Write(Deflate(all))
	case ZIPPred:
		var all []byte
		for _, p := range planes {
			all = append(all, Predict(p, w, h, depth)...)
		}
		b.Write(Deflate(all))
	}
	return b.Bytes()
}

func writeLen(b *bytes.Buffer, n int, psb bool) {
	if psb {
		if flip >= 0 {
			wide = true
		}
		u32(b, 0)
		if flip >= 0 {
			wide = false
		}
	}
	u32(b, uint32(n))
}

// UnicodeName builds the data of a luni block.
func UnicodeName(s string) []byte {
	u := utf16.Encode([]rune(s))
	var b bytes.Buffer
	u32(&b, uint32(len(u)))
	for _, x := range u {
		u16(&b, x)
	}
	return b.Bytes()
}

// SectionDivider builds the data of a lsct block; blend "" gives the short form, sub < 0 the middle one.
func SectionDivider(typ int, blend string, sub int) []byte {
	var b bytes.Buffer
	u32(&b, uint32(typ))
	if blend != "" {
		b.WriteString("8BIM")
		b.WriteString(blend)
		if sub >= 0 {
			u32(&b, uint32(sub))
		}
	}
	return b.Bytes()
}

func writeInfos(b *bytes.Buffer, infos []Info, psb bool) {
	for _, in := range infos {
		sig := in.Sig
		if sig == "" {
			sig = "8BIM"
		}
		b.WriteString(sig)
		b.WriteString(in.Key)
		writeLen(b, len(in.Data), psb && LargeKeys[in.Key])
		b.Write(in.Data)
		for i := 0; i < in.Pad; i++ {
			b.WriteByte(0)
		}
	}
}

// ChannelData serialises one channel with its compression method.
func ChannelData(c *Chan, r Rect, depth int, psb bool) []byte {
	var b bytes.Buffer
	switch c.Empty {
	case 1:
		return nil
	case 2:
		u16(&b, uint16(c.Comp))
		return b.Bytes()
	}
	u16(&b, uint16(c.Comp))
	b.Write(Encode(c.Comp, [][]byte{c.Data}, r.W(), r.H(), depth, psb, c.Packed))
	for i := 0; i < c.Extra; i++ {
		b.WriteByte(0)
	}
	return b.Bytes()
}

// ChanRect is the rectangle the channel's samples cover.
func (l *Layer) ChanRect(id int16) Rect {
	switch id {
	case -3:
		return l.Mask.RealRect
	case -2:
		return l.Mask.Rect
	}
	return l.Rect
}

func (d *Doc) layerInfo() []byte {
	var b bytes.Buffer
	n := int16(len(d.Layers))
	if d.NegCount {
		n = -n
	}
	u16(&b, uint16(n))
	var img bytes.Buffer
	for i := range d.Layers {
		l := &d.Layers[i]
		l.Rect.write(&b)
		u16(&b, uint16(len(l.Chans)))
		for k := range l.Chans {
			c := &l.Chans[k]
			cd := ChannelData(c, l.ChanRect(c.ID), d.Depth, d.PSB)
			u16(&b, uint16(c.ID))
			writeLen(&b, len(cd), d.PSB)
			img.Write(cd)
		}
		b.WriteString("8BIM")
		b.WriteString(l.BlendMode)
		b.WriteByte(l.Opacity)
		b.WriteByte(l.Clipping)
		b.WriteByte(l.Flags)
		b.WriteByte(d.Filler)
		if l.NoExtra {
			u32(&b, 0)
			continue
		}
		var e bytes.Buffer
		m := l.Mask.Bytes()
		u32(&e, uint32(len(m)))
		e.Write(m)
		u32(&e, uint32(len(l.BlendRanges)))
		e.Write(l.BlendRanges)
		e.WriteByte(byte(len(l.Name)))
		e.WriteString(l.Name)
		for k := 1 + len(l.Name); k%4 != 0; k++ {
			e.WriteByte(d.Filler)
		}
		writeInfos(&e, l.Infos, d.PSB)
		u32(&b, uint32(e.Len()))
		b.Write(e.Bytes())
	}
	b.Write(img.Bytes())
	for i := 0; i < d.LayerPad; i++ {
		b.WriteByte(d.Filler)
	}
	return b.Bytes()
}

// LayerBlock is the layer list of d as an additional layer information block.
func (d *Doc) LayerBlock(key string) Info {
	data := d.layerInfo()
	return Info{Key: key, Data: data, Pad: -len(data) & 3}
}

// Write serialises the document.
func (d *Doc) Write() ([]byte, Layout) {
	var b bytes.Buffer
	var lo Layout
	b.WriteString("8BPS")
	if d.PSB {
		u16(&b, 2)
	} else {
		u16(&b, 1)
	}
	b.Write(bytes.Repeat([]byte{d.Filler}, 6))
	u16(&b, uint16(d.Channels))
	u32(&b, uint32(d.H))
	u32(&b, uint32(d.W))
	u16(&b, uint16(d.Depth))
	u16(&b, uint16(d.Mode))
	lo.HeaderEnd = b.Len()
	u32(&b, uint32(len(d.ModeData)))
	b.Write(d.ModeData)
	lo.ColorModeEnd = b.Len()

	var rs bytes.Buffer
	for _, r := range d.Resources {
		sig := r.Sig
		if sig == "" {
			sig = "8BIM"
		}
		rs.WriteString(sig)
		u16(&rs, uint16(r.ID))
		rs.WriteByte(byte(len(r.Name)))
		rs.WriteString(r.Name)
		if len(r.Name)%2 == 0 {
			rs.WriteByte(d.Filler)
		}
		u32(&rs, uint32(len(r.Data)))
		rs.Write(r.Data)
		if len(r.Data)%2 != 0 {
			rs.WriteByte(d.Filler)
		}
	}
	u32(&b, uint32(rs.Len()))
	b.Write(rs.Bytes())
	lo.ResourcesEnd = b.Len()

	var s bytes.Buffer
	switch d.Loc {
	case LocEmpty:
	default:
		li := []byte(nil)
		if d.Loc == LocMain && len(d.Layers) > 0 {
			li = d.layerInfo()
			if len(li)%2 != 0 {
				li = append(li, 0)
			}
		}
		writeLen(&s, len(li), d.PSB)
		s.Write(li)
		if d.HasGlobal || d.Loc == Loc16 || d.Loc == Loc32 || d.Loc == LocLayr || len(d.Infos) > 0 {
			u32(&s, uint32(len(d.Global)))
			s.Write(d.Global)
		}
		if d.Loc == Loc16 || d.Loc == Loc32 || d.Loc == LocLayr {
			key := map[int]string{Loc16: "Lr16", Loc32: "Lr32", LocLayr: "Layr"}[d.Loc]
			data := d.layerInfo()
			pad := 0
			for (len(data)+pad)%4 != 0 {
				pad++
			}
			writeInfos(&s, []Info{{Key: key, Data: data, Pad: pad}}, d.PSB)
		}
		writeInfos(&s, d.Infos, d.PSB)
		for i := 0; i < d.SectionPad; i++ {
			s.WriteByte(0)
		}
	}
	writeLen(&b, s.Len(), d.PSB)
	b.Write(s.Bytes())
	lo.LayersEnd = b.Len()

	u16(&b, uint16(d.Comp))
	b.Write(Encode(d.Comp, d.Planes, d.W, d.H, d.Depth, d.PSB, d.Packed))
	lo.End = b.Len()
	return b.Bytes(), lo
}
