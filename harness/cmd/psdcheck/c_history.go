package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"reflect"
	"runtime"
	"sync"

	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdref"
	"verif.local/harness/psdw"
	"verif.local/harness/sched"
)

// C33: decodings do not influence each other.

// written is a document and its encoding.
type written struct {
	d  *psdw.Doc
	b  []byte
	lo psdw.Layout
}

var writtenDocs = sync.OnceValue(func() []written {
	var ws []written
	for _, d := range docs {
		b, lo := d.Write()
		ws = append(ws, written{d, b, lo})
	}
	return ws
})

var errStop = errors.New("stopped by the caller")

// panicReader panics at a position.
type panicReader struct {
	r  io.Reader
	at int
}

func (p *panicReader) Read(b []byte) (int, error) {
	if p.at <= 0 {
		panic(errStop)
	}
	if len(b) > p.at {
		b = b[:p.at]
	}
	n, err := p.r.Read(b)
	p.at -= n
	return n, err
}

// Ways to decode; all but the first ones do not come to the end.
const (
	wayPlain = iota
	wayNoLayers
	wayNoMerged
	wayRegistry
	wayConfig
	wayStopped
	wayPanicCallback
	wayCutLayers
	wayCutMerged
	wayCutResources
	wayPanicReader
	wayChanged
	ways
)

var wayNames = []string{"complete", "without layer images", "without merged image", "image.Decode", "DecodeConfig", "stopped by ConfigLoaded", "panic in LayerImageLoaded",
	"cut in the layers", "cut in the merged image", "cut in the resources", "panic of the reader", "with a changed byte"}

// decodeWay decodes w in one way. The document is nil when there is none to be had.
func decodeWay(c *mc.Case, w written, way int) (p *psd.PSD, o *psd.DecodeOptions) {
	o = &psd.DecodeOptions{}
	b := append([]byte(nil), w.b...)
	var r io.Reader = bytes.NewReader(b)
	wantOK := true
	defer func() {
		// the input is the caller's again
		for i := range b {
			b[i] ^= 0x5a
		}
		if e := recover(); e != nil {
			if e != errStop {
				panic(e)
			}
			p = nil
		}
	}()
	mid := (w.lo.ResourcesEnd + w.lo.LayersEnd) / 2
	switch way {
	case wayNoLayers:
		o.SkipLayerImage = true
	case wayNoMerged:
		o.SkipMergedImage = true
	case wayRegistry:
		m, _, err := image.Decode(r)
		if err != nil || m.Bounds() != image.Rect(0, 0, w.d.W, w.d.H) {
			c.Fail("image.Decode: %v %v", m, err)
		}
		return nil, nil
	case wayConfig:
		cfg, _, err := psd.DecodeConfig(r)
		if err != nil {
			c.Fail("DecodeConfig: %v", err)
		}
		if err := psdref.CheckConfig(w.d, &cfg); err != nil {
			c.Fail("%v", err)
		}
		scribble(reflect.ValueOf(&cfg))
		return nil, nil
	case wayStopped:
		o.ConfigLoaded = func(psd.Config) error { return errStop }
		wantOK = false
	case wayPanicCallback:
		if len(w.d.Layers) == 0 {
			c.Skip()
		}
		o.LayerImageLoaded = func(*psd.Layer, int, int) { panic(errStop) }
	case wayCutLayers:
		r, wantOK = bytes.NewReader(b[:mid]), false
	case wayCutMerged:
		r, wantOK = bytes.NewReader(b[:w.lo.End-1]), false
	case wayCutResources:
		r, wantOK = bytes.NewReader(b[:w.lo.ResourcesEnd-2]), false
	case wayPanicReader:
		r = &panicReader{r, mid}
	case wayChanged:
		// whatever that means
		b[mid] ^= 0xff
		b[w.lo.LayersEnd+(w.lo.End-w.lo.LayersEnd)/2] ^= 0x81
		psd.Decode(r, o)
		return nil, nil
	}
	p, _, err := psd.Decode(r, o)
	if way == wayCutMerged && w.d.Comp >= psdw.ZIP {
		// the end of a ZIP stream carries no samples
		return nil, nil
	}
	if wantOK != (err == nil) {
		c.Fail("%s: error %v", wayNames[way], err)
	}
	return p, o
}

func checkWay(c *mc.Case, what string, w written, p *psd.PSD, o *psd.DecodeOptions) {
	if err := psdref.CheckDoc(w.d, p, psdref.Opt{NoLayerImage: o.SkipLayerImage, NoMerged: o.SkipMergedImage}); err != nil {
		c.Fail("%s: %v", what, err)
	}
	c.Validated(1)
}

// scribble changes everything that v gives access to.
func scribble(v reflect.Value) { scribbleSeen(v, map[uintptr]bool{}) }

func scribbleSeen(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribbleSeen(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribbleSeen(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribbleSeen(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0xa5
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribbleSeen(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribbleSeen(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("?")
		}
	}
}

func histories(n int) func(*mc.Case) {
	return func(c *mc.Case) {
		ws := writtenDocs()
		change := c.Bool("change")
		type result struct {
			w written
			p *psd.PSD
			o *psd.DecodeOptions
			s string
		}
		var rs []result
		for i := 0; i < n; i++ {
			last := i == n-1
			w := ws[c.Choose(len(ws), "doc")]
			way := wayPlain
			if !last {
				way = c.Choose(ways, "way")
			}
			c.Obs(way)
			p, o := decodeWay(c, w, way)
			if p != nil {
				s := fmt.Sprintf("decoding %d (%s)", i, wayNames[way])
				checkWay(c, s, w, p, o)
				if change && !last {
					scribble(reflect.ValueOf(p))
				} else {
					rs = append(rs, result{w, p, o, s})
				}
			}
		}
		for _, r := range rs {
			checkWay(c, r.s+", after all of them", r.w, r.p, r.o)
		}
		if len(rs) > 1 {
			// change the last one
			l := rs[len(rs)-1]
			scribble(reflect.ValueOf(l.p))
			for _, r := range rs[:len(rs)-1] {
				checkWay(c, r.s+", after another one was changed", r.w, r.p, r.o)
			}
		}
	}
}

// nested decodes a document inside of a callback of another decoding.
func nested(c *mc.Case) {
	ws := writtenDocs()
	a, b := ws[c.Choose(len(ws), "outer")], ws[c.Choose(len(ws), "inner")]
	o := docOptions(c)
	way := c.Choose(ways, "way")
	at := c.Choose(1+len(a.d.Layers), "at")
	if at > 0 && o.SkipLayerImage {
		c.Skip()
	}
	var ip *psd.PSD
	var io *psd.DecodeOptions
	calls := 0
	do := func() {
		if calls == at {
			ip, io = decodeWay(c, b, way)
			if ip != nil {
				checkWay(c, "inner decoding", b, ip, io)
			}
		}
		calls++
	}
	o.ConfigLoaded = func(psd.Config) error { do(); return nil }
	o.LayerImageLoaded = func(*psd.Layer, int, int) { do() }
	p, _, err := psd.Decode(bytes.NewReader(a.b), o)
	if err != nil {
		c.Fail("outer decoding: %v", err)
	}
	checkWay(c, "outer decoding", a, p, o)
	if ip != nil {
		checkWay(c, "inner decoding, after the outer one", b, ip, io)
		scribble(reflect.ValueOf(ip))
		checkWay(c, "outer decoding, after the inner one was changed", a, p, o)
	}
}

// pointReader stops at a scheduling point before every read.
type pointReader struct {
	r io.Reader
	n int
}

func (p *pointReader) Read(b []byte) (int, error) {
	p.n++
	sched.Current().P(fmt.Sprintf("read %03d", p.n))
	return p.r.Read(b)
}

// interleaved decodes documents at once; every read is a scheduling point.
func interleaved(which []int, n int, before []int) func(*mc.Case) {
	return func(c *mc.Case) {
		ws := writtenDocs()
		if before != nil {
			decodeWay(c, ws[which[c.Choose(len(which), "before")]], mc.Pick(c, "way", before))
		}
		pick := make([]written, n)
		prev := 0
		for i := range pick {
			k := prev + c.Choose(len(which)-prev, "doc")
			prev = k
			pick[i] = ws[which[k]]
		}
		o := docOptions(c)
		ps, errs := make([]*psd.PSD, n), make([]error, n)
		s, dead := sched.Run(c, func(*sched.Sched) {
			var wg sync.WaitGroup
			for i := range pick {
				wg.Add(1)
				sched.Go(func() {
					defer wg.Done()
					opt := *o
					opt.ConfigLoaded = func(psd.Config) error { sched.Current().P("config"); return nil }
					opt.LayerImageLoaded = func(_ *psd.Layer, i, _ int) { sched.Current().P(fmt.Sprintf("layer %d", i)) }
					ps[i], _, errs[i] = psd.Decode(&pointReader{r: bytes.NewReader(pick[i].b)}, &opt)
				})
			}
			wg.Wait()
		})
		if dead {
			c.Fail("deadlock after %v", s.Trace())
		}
		for i, p := range ps {
			if errs[i] != nil {
				c.Fail("decoding %d fails: %v after %v", i, errs[i], s.Trace())
			}
			checkWay(c, fmt.Sprintf("decoding %d of %d at once", i, n), pick[i], p, o)
		}
	}
}

// atOnce is for the race detector.
func atOnce(c *mc.Case) {
	procsOnce.Do(func() { runtime.GOMAXPROCS(4) })
	ws := writtenDocs()
	a := c.Choose(len(ws), "a")
	b := a + c.Choose(len(ws)-a, "b")
	wayA, wayB := c.Choose(ways, "way"), wayPlain
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed interface{}
	for _, x := range []struct {
		w   written
		way int
	}{{ws[a], wayA}, {ws[b], wayB}} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					failed = e
					mu.Unlock()
				}
			}()
			p, o := decodeWay(c, x.w, x.way)
			if p != nil {
				if err := psdref.CheckDoc(x.w.d, p, psdref.Opt{NoLayerImage: o.SkipLayerImage, NoMerged: o.SkipMergedImage}); err != nil {
					panic(fmt.Sprintf("%s, at the same time as another one: %v", wayNames[x.way], err))
				}
				scribble(reflect.ValueOf(p))
			}
		}()
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	c.Validated(2)
}

func init() {
	// small documents of different kinds
	few := []int{0, 2, 5, 8}
	zips := []int{2, 3, 7}
	p := reg("C33",
		mc.Scenario{Name: "histories", Bound: -1, Quick: true, Fn: histories(2)},
		mc.Scenario{Name: "histories-3", Bound: -1, Quick: true, Fn: histories(3)},
		mc.Scenario{Name: "nested", Bound: -1, Quick: true, Fn: nested},
		mc.Scenario{Name: "interleaved", Tolerant: true, Bound: 1, Quick: true, Fn: interleaved(ints(0, len(docs)-1), 2, nil)},
		mc.Scenario{Name: "interleaved-after", Tolerant: true, Bound: 1, Quick: true, Fn: interleaved(zips, 2, []int{wayStopped, wayPanicCallback, wayCutLayers, wayCutMerged, wayPanicReader, wayChanged})},
		mc.Scenario{Name: "interleaved-2", Tolerant: true, Bound: 2, Fn: interleaved(few, 2, nil)},
		mc.Scenario{Name: "interleaved-3", Tolerant: true, Bound: 1, Fn: interleaved(few, 3, nil)},
		mc.Scenario{Name: "races", Bound: -1, Race: true, Quick: true, Fn: atOnce},
	)
	p.Assumptions = append(p.Assumptions, "a scheduling point is a read or a callback; accesses between them are covered by the race detector")
}
