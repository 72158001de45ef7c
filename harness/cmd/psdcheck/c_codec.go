package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"runtime"
	"sync"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
	"verif.local/harness/sched"
)

// unpack is the reference PackBits interpreter for one scanline of width w.
// ok is false when the data is malformed; full tells whether the row is complete.
func unpack(row []byte, w int) (out []byte, ok, full bool) {
	for i := 0; i < len(row); {
		n := int(int8(row[i]))
		i++
		switch {
		case n == -128:
		case n >= 0:
			n++
			if i+n > len(row) || len(out)+n > w {
				return nil, false, false
			}
			out = append(out, row[i:i+n]...)
			i += n
		default:
			n = 1 - n
			if i >= len(row) || len(out)+n > w {
				return nil, false, false
			}
			for k := 0; k < n; k++ {
				out = append(out, row[i])
			}
			i++
		}
	}
	return out, true, len(out) == w
}

// genRow enumerates PackBits programs for one scanline.
func genRow(c *mc.Case, w, maxPackets int, broken bool) []byte {
	var row []byte
	have := 0
	seq := byte(1)
	next := func() byte { seq = seq*5 + 3; return seq }
	for p := 0; p < maxPackets; p++ {
		rem := w - have
		type op struct{ kind, n int } // 0 literal 1 repeat 2 nop 3 stop 4 overrun literal 5 overrun repeat 6 cut literal 7 cut repeat
		var ops []op
		if rem == 0 {
			ops = append(ops, op{3, 0})
		}
		for _, n := range []int{1, 2, 3, 64, 127, 128} {
			if n < rem {
				ops = append(ops, op{0, n})
				if n > 1 {
					ops = append(ops, op{1, n})
				}
			}
		}
		if rem > 0 && rem <= 128 {
			ops = append(ops, op{0, rem})
			if rem > 1 {
				ops = append(ops, op{1, rem})
			}
		}
		ops = append(ops, op{2, 0})
		if broken {
			if rem > 0 {
				ops = append(ops, op{3, 0})
			}
			if rem < 128 {
				ops = append(ops, op{4, rem + 1})
				if rem+1 > 1 {
					ops = append(ops, op{5, rem + 1})
				} else {
					ops = append(ops, op{5, rem + 2})
				}
			}
			ops = append(ops, op{6, 1}, op{6, 3}, op{7, 2}, op{7, 128})
		}
		o := ops[c.Choose(len(ops), "pkt")]
		switch o.kind {
		case 0, 4:
			row = append(row, byte(o.n-1))
			for k := 0; k < o.n; k++ {
				row = append(row, next())
			}
			have += o.n
		case 1, 5:
			row = append(row, byte(257-o.n), next())
			have += o.n
		case 2:
			row = append(row, 0x80)
		case 3:
			return row
		case 6: // literal of n bytes of which the last is missing
			row = append(row, byte(o.n-1))
			for k := 0; k < o.n-1; k++ {
				row = append(row, next())
			}
			return row
		case 7:
			row = append(row, byte(257-o.n))
			return row
		}
		if have > w {
			return row
		}
	}
	return row
}

// rleStream assembles the row length table and the rows.
func rleStream(rows [][]byte, large bool) []byte {
	return psdw.Encode(psdw.RLE, nil, 0, 0, 8, large, rows)
}

type tailReader struct {
	r *bytes.Reader
}

func (t tailReader) Read(p []byte) (int, error) { return t.r.Read(p) }

func packCase(c *mc.Case, maxPackets int, broken bool, widths []int) {
	w := mc.Pick(c, "w", widths)
	lines := mc.Pick(c, "lines", []int{1, 2, 5})
	at := 0
	if lines > 1 {
		at = c.Choose(2, "at") * (lines - 1)
	}
	large := c.Bool("large")
	row := genRow(c, w, maxPackets, broken)
	if len(row) > 65535 && !large {
		c.Skip()
	}
	var rows [][]byte
	var want []byte
	exp, ok, full := unpack(row, w)
	for y := 0; y < lines; y++ {
		if y == at {
			rows = append(rows, row)
			e := append([]byte{}, exp...)
			for len(e) < w {
				e = append(e, 0)
			}
			want = append(want, e...)
			continue
		}
		pl := plane(2, w, 1, 8, y)
		rows = append(rows, psdw.PackRow(pl))
		want = append(want, pl...)
	}
	stream := rleStream(rows, large)
	tail := []byte{0xde, 0xad, 0xbe, 0xef}
	dest := make([]byte, w*lines)
	r := bytes.NewReader(append(append([]byte{}, stream...), tail...))
	read, err := psd.CompressionMethodRLE.Decode(dest, tailReader{r}, 0, image.Rect(0, 0, w, lines), 8, 1, large)
	c.Detail("row % x", row)
	c.Validated(1)
	c.Obs(ok, full, want)
	if !ok {
		if err == nil {
			c.Fail("malformed packet data was accepted")
		}
		return
	}
	if !full {
		return // unspecified, but must not panic
	}
	if err != nil {
		c.Fail("error %v on well-formed data", err)
	}
	if !bytes.Equal(dest, want) {
		c.Fail("decoded % x, want % x", clip(dest), clip(want))
	}
	if read != len(stream) || r.Len() != len(tail) {
		c.Fail("read %d bytes (reported %d), want %d", len(stream)+len(tail)-r.Len(), read, len(stream))
	}
}

func codecCase(c *mc.Case, w, h, comp, depth, channels int, large bool, kind int) {
	var planes [][]byte
	var want []byte
	for i := 0; i < channels; i++ {
		p := plane(kind, w, h, depth, i*3+1)
		planes = append(planes, p)
		want = append(want, p...)
	}
	if depth == 1 && comp == psdw.ZIPPred {
		c.Skip()
	}
	enc := psdw.Encode(comp, planes, w, h, depth, large, nil)
	tail := []byte{0xde, 0xad, 0xbe, 0xef, 1, 2, 3}
	rd := bytes.NewReader(append(append([]byte{}, enc...), tail...))
	hint := int64(len(enc))
	dest := make([]byte, len(want))
	x0, y0 := -3, 7
	read, err := psd.CompressionMethod(comp).Decode(dest, tailReader{rd}, hint, image.Rect(x0, y0, x0+w, y0+h), depth, channels, large)
	if err != nil {
		c.Fail("error %v", err)
	}
	if !bytes.Equal(dest, want) {
		for i := range dest {
			if dest[i] != want[i] {
				c.Fail("byte %d of %d is %02x, want %02x", i, len(dest), dest[i], want[i])
			}
		}
	}
	used := len(enc) + len(tail) - rd.Len()
	if read != used {
		c.Fail("reported %d bytes read, consumed %d", read, used)
	}
	if comp <= psdw.RLE && used != len(enc) || used > len(enc) {
		c.Fail("consumed %d bytes, encoded size %d", used, len(enc))
	}
	if comp > psdw.RLE {
		// unknown size
		rd := bytes.NewReader(append(append([]byte{}, enc...), tail...))
		d2 := make([]byte, len(want))
		if _, err := psd.CompressionMethod(comp).Decode(d2, tailReader{rd}, 0, image.Rect(0, 0, w, h), depth, channels, large); err != nil || !bytes.Equal(d2, want) {
			c.Fail("without size hint: err %v, equal %v", err, bytes.Equal(d2, want))
		}
	}
	c.Validated(1)
	c.ObsBytes(enc)
}

var procsOnce sync.Once

func init() {
	reg("C06",
		mc.Scenario{Name: "packbits-wellformed", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			n := 4
			if c.Thorough() {
				n = 5
			}
			packCase(c, n, false, []int{1, 2, 3, 4, 5, 7, 64, 127, 128, 129, 130, 256, 257})
		}},
		mc.Scenario{Name: "packbits-malformed", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			n := 3
			if c.Thorough() {
				n = 4
			}
			packCase(c, n, true, []int{1, 2, 3, 4, 127, 128, 129})
		}},
		mc.Scenario{Name: "packbits-control-bytes", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every control byte, first or second in the row
			b := byte(c.Choose(256, "control"))
			second := c.Bool("second")
			var row []byte
			if second {
				row = append(row, 1, 9, 8)
			}
			row = append(row, b)
			n := int(int8(b))
			switch {
			case n >= 0:
				for k := 0; k <= n; k++ {
					row = append(row, byte(k*3+1))
				}
			case n != -128:
				row = append(row, 0x5a)
			}
			out, _, _ := unpack(row, 1<<20)
			if len(out) == 0 {
				row = append(row, 0, 7)
				out = append(out, 7)
			}
			rows := [][]byte{row, row}
			large := c.Bool("large")
			dest := make([]byte, 2*len(out))
			_, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(rleStream(rows, large)), 0, image.Rect(0, 0, len(out), 2), 8, 1, large)
			if err != nil || !bytes.Equal(dest, append(append([]byte{}, out...), out...)) {
				c.Fail("err %v, decoded % x", err, dest)
			}
			c.Validated(1)
			c.ObsBytes(out)
		}},
		mc.Scenario{Name: "all-codecs", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			comp := c.Choose(4, "comp")
			depth := mc.Pick(c, "depth", []int{1, 8, 16, 32})
			channels := 1 + c.Choose(3, "channels-1")
			large := c.Bool("large")
			ws := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}
			hs := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17}
			if c.Thorough() {
				ws, hs = ints(1, 66), ints(1, 34)
			}
			w, h := mc.Pick(c, "w", ws), mc.Pick(c, "h", hs)
			codecCase(c, w, h, comp, depth, channels, large, (w+h+depth/8)%kinds)
		}},
		mc.Scenario{Name: "all-kinds", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			codecCase(c, mc.Pick(c, "w", []int{1, 5, 40, 300}), mc.Pick(c, "h", []int{1, 3, 20}), c.Choose(4, "comp"),
				mc.Pick(c, "depth", []int{1, 8, 16, 32}), 2, c.Bool("large"), c.Choose(kinds, "kind"))
		}},
		mc.Scenario{Name: "prediction-values", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			// every pair of adjacent bytes, with carries and wrap-around
			depth := mc.Pick(c, "depth", []int{8, 16, 32})
			a := c.Choose(256, "a")
			bs := depth / 8
			var p []byte
			for b := 0; b < 256; b++ {
				for k := 0; k < bs; k++ {
					p = append(p, byte(a+k*b))
				}
				for k := 0; k < bs; k++ {
					p = append(p, byte(b-k*a))
				}
			}
			w, h := 2, 256
			if c.Bool("wide") {
				w, h = 512, 1
			}
			enc := psdw.Encode(psdw.ZIPPred, [][]byte{p}, w, h, depth, false, nil)
			d := make([]byte, len(p))
			if _, err := psd.CompressionMethodZIPWithPrediction.Decode(d, bytes.NewReader(enc), int64(len(enc)), image.Rect(0, 0, w, h), depth, 1, false); err != nil || !bytes.Equal(d, p) {
				c.Fail("prediction not undone: err %v", err)
			}
			c.Validated(1)
			c.ObsBytes(enc)
		}},
		mc.Scenario{Name: "unknown-methods", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			hi := c.Choose(256, "hi")
			for lo := 0; lo < 256; lo++ {
				m := psd.CompressionMethod(int16(hi<<8 | lo))
				if m >= 0 && m <= 3 {
					continue
				}
				d := make([]byte, 2)
				if _, err := m.Decode(d, bytes.NewReader(make([]byte, 100)), 0, image.Rect(0, 0, 2, 1), 8, 1, false); err == nil {
					c.Fail("method %d was accepted", m)
				}
				c.Validated(1)
			}
		}},
		mc.Scenario{Name: "truncated-streams", Bound: -1, Quick: true, Fn: func(c *mc.Case) {
			comp := c.Choose(4, "comp")
			depth := mc.Pick(c, "depth", []int{1, 8, 16, 32})
			large := c.Bool("large")
			w, h := mc.Pick(c, "w", []int{1, 4, 9}), mc.Pick(c, "h", []int{1, 2, 6})
			p := plane(2, w, h, depth, 3)
			enc := psdw.Encode(comp, [][]byte{p}, w, h, depth, large, nil)
			for n := 0; n < len(enc); n++ {
				d := make([]byte, len(p))
				_, err := psd.CompressionMethod(comp).Decode(d, bytes.NewReader(enc[:n]), int64(mc.Pick(c, "", []int{n})), image.Rect(0, 0, w, h), depth, 1, large)
				if err == nil && (comp <= psdw.RLE || !bytes.Equal(d, p)) {
					c.Fail("truncated to %d of %d bytes: no error", n, len(enc))
				}
				c.Validated(1)
			}
		}},
	)

	// C07: the result does not depend on the number of CPUs
	reg("C07",
		mc.Scenario{Name: "gomaxprocs-documents", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			f := mc.Pick(c, "form", []form{{3, 8, 4}, {1, 8, 1}, {3, 16, 3}, {1, 32, 1}, {0, 1, 1}, {4, 16, 5}})
			hs := ints(1, 20)
			hs = append(hs, 31, 32, 33, 64, 65)
			h := mc.Pick(c, "h", hs)
			w := mc.Pick(c, "w", []int{1, 5, 9})
			psb := h%2 == 0
			d := newDoc(f, w, h, psdw.RLE, psb, (w+h)%kinds)
			if f.Mode != 0 {
				d.Loc = psdw.LocMain
				d.Layers = []psdw.Layer{stdLayer(f, psdw.Rect{T: -1, L: 3, B: int32(h) - 1, R: int32(w) + 3}, psdw.RLE, h%kinds, 7, true)}
			}
			old := runtime.GOMAXPROCS(0)
			defer runtime.GOMAXPROCS(old)
			top := 9
			if c.Thorough() {
				top = 24
			}
			for n := 1; n <= top; n++ {
				runtime.GOMAXPROCS(n)
				c.Detail("GOMAXPROCS %d", n)
				decodeDoc(c, d, nil)
			}
		}},
		mc.Scenario{Name: "gomaxprocs-rows", Bound: -1, Serial: true, Quick: true, Fn: func(c *mc.Case) {
			// rows that are too short, too long or malformed: the outcome must be the same for all CPU counts
			w := mc.Pick(c, "w", []int{1, 3, 4})
			lines := mc.Pick(c, "lines", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17})
			rows, want, wantErr := damagedRows(c, w, lines)
			stream := rleStream(rows, lines%2 == 0)
			old := runtime.GOMAXPROCS(0)
			defer runtime.GOMAXPROCS(old)
			var ref []byte
			var refErr bool
			for i, n := range []int{1, 2, 3, 4, 5, 6, 8, 16} {
				runtime.GOMAXPROCS(n)
				dest := make([]byte, w*lines)
				_, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(stream), 0, image.Rect(0, 0, w, lines), 8, 1, lines%2 == 0)
				c.Validated(1)
				if (err != nil) != wantErr {
					c.Fail("GOMAXPROCS %d: err %v, want error %v", n, err, wantErr)
				}
				if i == 0 {
					ref, refErr = dest, err != nil
				} else if refErr != (err != nil) || err == nil && !bytes.Equal(ref, dest) {
					c.Fail("GOMAXPROCS %d: err %v data % x; with 1 CPU error %v data % x", n, err, dest, refErr, ref)
				}
				if err == nil && !bytes.Equal(dest, want) {
					c.Fail("GOMAXPROCS %d: data % x, want % x", n, dest, want)
				}
			}
			c.Obs(wantErr, want)
		}},
	)
	reg("C07",
		mc.Scenario{Name: "schedules-rows", Quick: true, Instr: true, Tolerant: true, Bound: 2, Fn: rowSchedules([]int{1, 4}, []int{4, 6, 7})},
		mc.Scenario{Name: "schedules-rows-3", Instr: true, Tolerant: true, Bound: 3, Fn: rowSchedules([]int{1, 3, 4}, []int{4, 5, 6, 7, 8, 9})},
		mc.Scenario{Name: "schedules-documents", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: documentSchedules([]int{4, 7})},
		mc.Scenario{Name: "schedules-documents-2", Instr: true, Tolerant: true, Bound: 2, Fn: documentSchedules([]int{4, 6, 9})},
	)
	reg("C07", mc.Scenario{Name: "races", Bound: -1, Race: true, Quick: true, Fn: func(c *mc.Case) {
		// every pair of conflicting accesses that no synchronisation orders is reported by the race detector
		procsOnce.Do(func() { runtime.GOMAXPROCS(4) })
		f := mc.Pick(c, "form", []form{{3, 8, 4}, {1, 8, 1}, {3, 16, 3}, {1, 32, 1}, {0, 1, 1}, {4, 16, 5}})
		w, h := mc.Pick(c, "w", []int{1, 2, 9}), mc.Pick(c, "h", []int{1, 2, 3, 4, 7, 9, 16})
		d := newDoc(f, w, h, psdw.RLE, c.Bool("psb"), (w+h)%kinds)
		if f.Mode != 0 {
			d.Loc = psdw.LocMain
			d.Layers = []psdw.Layer{stdLayer(f, psdw.Rect{T: -1, L: 3, B: int32(h) - 1, R: int32(w) + 3}, psdw.RLE, h%kinds, 7, true)}
		}
		decodeDoc(c, d, nil)
		// and with a malformed row
		row := psdw.PackLiteral(plane(0, w, 1, 8, 1))
		rows := make([][]byte, h)
		for y := range rows {
			rows[y] = row
		}
		at := c.Choose(h, "at")
		rows[at] = mc.Pick(c, "bad", [][]byte{nil, {0x00}, {0x81, 0x66}, {0x7f}, append(append([]byte{}, row...), 0, 1)})
		dest := make([]byte, w*h)
		psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(rleStream(rows, false)), 0, image.Rect(0, 0, w, h), 8, 1, false)
		c.Validated(2)
	}})
	_ = fmt.Sprint
	_ = io.EOF
}

// damagedRows is a choice of rows of which up to two are too short, too long or
// malformed, and what decoding them gives.
func damagedRows(c *mc.Case, w, lines int) (rows [][]byte, want []byte, wantErr bool) {
	type rk struct{ at, kind int }
	k1 := rk{c.Choose(lines, "at"), c.Choose(6, "kind")}
	k2 := rk{c.Choose(lines, "at2"), c.Choose(6, "kind2")}
	if k2.at < k1.at || k2.at == k1.at && k2.kind != 0 {
		c.Skip()
	}
	for y := 0; y < lines; y++ {
		pl := plane(0, w, 1, 8, y)
		kind := 0
		if y == k1.at {
			kind = k1.kind
		}
		if y == k2.at && k2.at != k1.at {
			kind = k2.kind
		}
		row := psdw.PackLiteral(pl)
		switch kind {
		case 1: // empty row
			row = nil
		case 2: // one sample short
			row = psdw.PackLiteral(pl[:w-1])
		case 3: // one sample too many
			row = psdw.PackLiteral(append(append([]byte{}, pl...), 0x77))
		case 4: // cut
			row = row[:len(row)-1]
		case 5: // repeat overrun
			row = []byte{byte(257 - w - 3), 0x66}
		}
		out, ok, _ := unpack(row, w)
		if !ok {
			wantErr = true
		}
		for len(out) < w {
			out = append(out, 0)
		}
		want = append(want, out...)
		rows = append(rows, row)
	}
	return
}

func rowSchedules(widths, heights []int) func(c *mc.Case) {
	return func(c *mc.Case) {
		w, lines := mc.Pick(c, "w", widths), mc.Pick(c, "lines", heights)
		rows, want, wantErr := damagedRows(c, w, lines)
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{2, 3, 4})}
		large := lines%2 == 0
		stream := rleStream(rows, large)
		var dest, atReturn []byte
		var err error
		s, dead := sched.RunWith(c, s, func(*sched.Sched) {
			dest = make([]byte, w*lines)
			_, err = psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(stream), 0, image.Rect(0, 0, w, lines), 8, 1, large)
			atReturn = append([]byte(nil), dest...)
		})
		if dead {
			c.Fail("deadlock, or a goroutine is left behind, after %v", s.Trace())
		}
		if (err != nil) != wantErr {
			c.Fail("schedule %v: err %v, want error %v", s.Trace(), err, wantErr)
		}
		if err == nil && !bytes.Equal(atReturn, want) {
			c.Fail("schedule %v: data % x, want % x", s.Trace(), atReturn, want)
		}
		if !bytes.Equal(atReturn, dest) {
			c.Fail("schedule %v: the data changed after Decode returned: % x, then % x", s.Trace(), atReturn, dest)
		}
		c.Obs(wantErr, want)
		c.Validated(1)
	}
}

func documentSchedules(heights []int) func(c *mc.Case) {
	return func(c *mc.Case) {
		f := mc.Pick(c, "form", []form{{3, 8, 4}, {1, 16, 1}, {0, 1, 1}, {4, 16, 5}})
		w, h := mc.Pick(c, "w", []int{1, 5}), mc.Pick(c, "h", heights)
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{2, 3})}
		d := newDoc(f, w, h, psdw.RLE, h%2 == 0, (w+h)%kinds)
		if f.Mode != 0 && c.Bool("layer") {
			d.Loc = psdw.LocMain
			d.Layers = []psdw.Layer{stdLayer(f, psdw.Rect{T: -1, L: 3, B: int32(h) - 1, R: int32(w) + 3}, psdw.RLE, h%kinds, 7, true)}
		}
		if s, dead := sched.RunWith(c, s, func(*sched.Sched) { decodeDoc(c, d, nil) }); dead {
			c.Fail("deadlock, or a goroutine is left behind, after %v", s.Trace())
		}
	}
}
