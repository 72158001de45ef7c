package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"io"
	"runtime"
	"sync"

	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"verif.local/harness/compref"
	"verif.local/harness/mc"
	"verif.local/harness/sched"
)

const sw, sh = 2, 6 // canvas of the schedule scenarios, drawn in tiles of one pixel

var tall = image.Rect(0, 0, sw, sh)

var schedDocs = []struct {
	name string
	mk   func() *compref.Doc
}{
	{"folder", func() *compref.Doc {
		return &compref.Doc{W: sw, H: sh, Nodes: []*compref.Node{
			leafNode("a", 0, tall),
			folderNode("F", "norm", with(leafNode("b", 1, image.Rect(0, 1, 1, 5)), func(n *compref.Node) {
				n.Mask = &compref.Mask{Rect: image.Rect(0, 2, 1, 4), Color: 255, At: maskAt(1)}
			})),
		}}
	}},
	{"clip", func() *compref.Doc {
		return &compref.Doc{W: sw, H: sh, Nodes: []*compref.Node{
			folderNode("P", "pass", leafNode("a", 0, image.Rect(0, 0, 1, 6))),
			leafNode("b", 1, image.Rect(0, 2, 2, 4)),
			with(leafNode("k", 2, image.Rect(0, 3, 2, 6)), func(n *compref.Node) { n.Clip = true }),
		}}
	}},
}

func schedDoc(c *mc.Case) *compref.Doc {
	h := schedDocs[c.Choose(len(schedDocs), "document")]
	return h.mk()
}

// ended tells whether an error says that the operation was cancelled.
func ended(err error) bool {
	return errors.Is(err, composite.ErrAborted) || errors.Is(err, context.Canceled)
}

func mustRender(c *mc.Case, what string, t *composite.Tree, d *compref.Doc) {
	m := image.NewNRGBA(tall)
	for i := range m.Pix {
		m.Pix[i] = 99
	}
	if err := t.Renderer.Render(bg, m); err != nil {
		c.Fail("%s: Render: %v", what, err)
	}
	compare(c, what, m, d, tall, image.Point{})
}

var flip = mapping{f64.Aff3{-1, 0, sw, 0, -1, sh}, "rotate 180"}

func mustThumbs(c *mc.Case, what string, ts map[int]*image.NRGBA, d *compref.Doc, size int) {
	for _, n := range d.All() {
		want := thumb(n, size)
		if (want == nil) != (ts[n.SeqID] == nil) || want != nil && !sameImg(want, ts[n.SeqID]) {
			c.Fail("%s: thumbnail of %q differs", what, n.Name)
		}
	}
}

// operation runs one operation on the tree and checks its result; an error is
// returned when it says that it was cancelled.
func operation(c *mc.Case, op string, ctx context.Context, t *composite.Tree, d *compref.Doc) error {
	fail := func(err error) error {
		if !ended(err) {
			c.Fail("%s: %v", op, err)
		}
		return err
	}
	switch op {
	case "Render", "RenderDiff":
		m := image.NewNRGBA(tall)
		f := t.Renderer.Render
		if op == "RenderDiff" {
			f = t.Renderer.RenderDiff
		}
		if err := f(ctx, m); err != nil {
			return fail(err)
		}
		compare(c, op, m, d, tall, image.Point{})
	case "Transform":
		nt, err := t.Transform(ctx, flip.m, 0)
		if err != nil {
			return fail(err)
		}
		compareMapped(c, op, nt, d, flip, 1)
	case "Thumbnails":
		ts, err := t.Thumbnails(ctx, 1)
		if err != nil {
			return fail(err)
		}
		mustThumbs(c, op, ts, d, 1)
	case "ThumbnailSheet":
		m, rs, err := t.ThumbnailSheet(ctx, 1)
		if err != nil {
			return fail(err)
		}
		n := 0
		for _, k := range d.All() {
			if w := thumb(k, 1); w != nil {
				n++
				if r := rs[k.SeqID]; r.Empty() || !r.In(m.Rect) {
					c.Fail("%s: rectangle %v of %q", op, r, k.Name)
				} else if got := m.SubImage(image.Rectangle{r.Min, r.Min.Add(w.Rect.Size())}).(*image.NRGBA); !w.Rect.Empty() && !sameImg(got, w) {
					c.Fail("%s: thumbnail of %q differs", op, k.Name)
				}
			}
		}
		if len(rs) != n {
			c.Fail("%s: %d thumbnails instead of %d", op, len(rs), n)
		}
	case "New":
		own := *d // writing a document numbers its nodes
		own.Nodes = copyNodes(d.Nodes)
		nt, err := composite.New(ctx, bytes.NewReader(own.Bytes()), &composite.Options{TileSize: 1})
		if err != nil {
			if nt != nil {
				c.Fail("New: both a tree and the error %v", err)
			}
			return fail(err)
		}
		sameTree(c, &nt.Root, d.Nodes)
		mustRender(c, "New", nt, d)
	case "Clone":
		nt := t.Clone()
		inside(c, "clone", &nt.Root, nil)
		mustRender(c, "Clone", nt, d)
	}
	return nil
}

func copyNodes(ns []*compref.Node) (r []*compref.Node) {
	for _, n := range ns {
		k := *n
		k.Kids = copyNodes(n.Kids)
		r = append(r, &k)
	}
	return
}

var operations = []string{"Render", "RenderDiff", "Transform", "Thumbnails", "ThumbnailSheet", "New"}

// controlled runs f under the scheduler.
func controlled(c *mc.Case, what string, s *sched.Sched, f func()) {
	s, dead := sched.RunWith(c, s, func(*sched.Sched) { f() })
	if dead {
		c.Fail("%s: deadlock, or a goroutine is left behind, after %v", what, s.Trace())
	}
}

// prepared is the tree an operation starts from.
func prepared(c *mc.Case, d *compref.Doc, warm bool) *composite.Tree {
	t := load(c, d, &composite.Options{TileSize: 1})
	if warm {
		mustRender(c, "first Render", t, d)
	}
	return t
}

func cancelAt(procs []int) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := schedDoc(c)
		op := mc.Pick(c, "operation", operations)
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", procs), Reverse: c.Bool("reverse maps")}
		t := prepared(c, d, false)
		var err error
		controlled(c, op, s, func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			sched.GoLast(func() {
				sched.Current().P("cancel")
				cancel()
			})
			err = operation(c, op, ctx, t, d)
		})
		c.Obs(op, err != nil)
		// whatever happened, the tree is as good as before
		mustRender(c, "Render after "+op, t, d)
		c.Validated(1)
	}
}

// failing reader: New ends, with an error, and so do its goroutines.
type failingReader struct {
	r    io.Reader
	left int
	c    *mc.Case
}

var errRead = errors.New("the disk is broken")

func (f *failingReader) Read(p []byte) (int, error) {
	if g := sched.Current(); g != nil {
		g.P("read")
	}
	if f.left == 0 {
		return 0, errRead
	}
	f.left--
	return f.r.Read(p)
}

func readFaults(c *mc.Case) {
	d := schedDoc(c)
	b := d.Bytes()
	reads := 0
	composite.New(bg, countReader{bytes.NewReader(b), &reads}, &composite.Options{TileSize: 1})
	at := c.Choose(reads+1, "failing read")
	s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{1, 2})}
	withCancel := c.Bool("cancel")
	var err error
	var t *composite.Tree
	controlled(c, fmt.Sprintf("New, read %d of %d fails", at, reads), s, func() {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if withCancel {
			sched.GoLast(func() {
				sched.Current().P("cancel")
				cancel()
			})
		}
		t, err = composite.New(ctx, &failingReader{bytes.NewReader(b), at, c}, &composite.Options{TileSize: 1})
	})
	if err == nil {
		if at < reads {
			c.Fail("New: no error although read %d of %d failed", at, reads)
		}
		mustRender(c, "New", t, d)
	} else if t != nil {
		c.Fail("New: both a tree and the error %v", err)
	}
	c.Validated(1)
}

type countReader struct {
	r io.Reader
	n *int
}

func (r countReader) Read(p []byte) (int, error) { *r.n++; return r.r.Read(p) }

// pairs: two operations on the same tree at the same time.
func pairs(c *mc.Case, first, second []string, free bool) {
	d := schedDoc(c)
	a, b := mc.Pick(c, "first", first), mc.Pick(c, "second", second)
	warm := c.Bool("rendered before")
	t := prepared(c, d, warm)
	run := func(op string) {
		c := c
		if free {
			c = &mc.Case{} // a case belongs to one goroutine
		}
		if op == "RenderDiff" {
			// an image that is up to date stays up to date
			m := image.NewNRGBA(tall)
			if warm {
				mustRenderTo(c, t.Clone(), m)
			} else {
				return
			}
			if err := t.Renderer.RenderDiff(bg, m); err != nil {
				c.Fail("RenderDiff: %v", err)
			}
			compare(c, "RenderDiff", m, d, tall, image.Point{})
			return
		}
		if op == "announce" {
			for _, n := range d.All() {
				t.Renderer.SetDirtyByLayer(find(&t.Root, n.Name))
			}
			return
		}
		operation(c, op, bg, t, d)
	}
	if free {
		setProcs(4)
		for i := 0; i < 50; i++ {
			parallel(func() { run(a) }, func() { run(b) })
		}
	} else {
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{1, 2})}
		controlled(c, a+" and "+b, s, func() {
			sched.Go(func() { run(a) })
			run(b)
		})
	}
	mustRender(c, "Render after "+a+" and "+b, t, d)
	c.Validated(1)
}

func mustRenderTo(c *mc.Case, t *composite.Tree, m *image.NRGBA) {
	if err := t.Renderer.Render(bg, m); err != nil {
		c.Fail("Render: %v", err)
	}
}

// parallel runs both and passes panics on.
func parallel(fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var p interface{}
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					p = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if p != nil {
		panic(p)
	}
}

// changesWhile: attributes change, and are announced, while the tree is rendered
// (the rendering may show any of the states, the next one shows the last).
func changesWhile(depth int) func(c *mc.Case) {
	return func(c *mc.Case) {
		d := schedDoc(c)
		t := prepared(c, d, c.Bool("rendered before"))
		diff := image.NewNRGBA(tall)
		mustRenderTo(c, t.Clone(), diff)
		op := mc.Pick(c, "operation", []string{"Render", "RenderDiff", "cancelled RenderDiff"})
		cs := changesOf(d)
		var use []change
		for i := 0; i < depth; i++ {
			use = append(use, cs[c.Choose(len(cs), "change")])
		}
		s := &sched.Sched{Delay: true, Procs: mc.Pick(c, "procs", []int{1, 2})}
		what := op
		controlled(c, op, s, func() {
			sched.GoLast(func() {
				for _, k := range use {
					sched.Current().P("change")
					what += ", " + apply(d, t, k)
				}
			})
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if op == "cancelled RenderDiff" {
				sched.GoLast(func() {
					sched.Current().P("cancel")
					cancel()
				})
			}
			var err error
			if op == "Render" {
				err = t.Renderer.Render(ctx, diff)
			} else {
				err = t.Renderer.RenderDiff(ctx, diff)
			}
			if err != nil && !ended(err) {
				c.Fail("%s: %v", op, err)
			}
		})
		if !legal(d) {
			c.Skip()
		}
		if err := t.Renderer.RenderDiff(bg, diff); err != nil {
			c.Fail("RenderDiff: %v", err)
		}
		compare(c, what+" meanwhile; then RenderDiff", diff, d, tall, image.Point{})
		mustRender(c, what+" meanwhile; then Render", t, d)
		c.Validated(1)
	}
}

var procsOnce sync.Once

func setProcs(n int) { procsOnce.Do(func() { runtime.GOMAXPROCS(n) }) }

// processors: nothing depends on GOMAXPROCS.
func processors(c *mc.Case) {
	n := 1 + c.Choose(17, "procs-1")
	h := 1 + c.Choose(24, "rows-1")
	ts := mc.Pick(c, "tile", []int{1, 2, 3, 5})
	nl := mc.Pick(c, "layers", []int{1, 2, 3, 7, 12})
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(n))
	d := &compref.Doc{W: 3, H: h}
	for i := 0; i < nl; i++ {
		l := leafNode(fmt.Sprint("l", i), i, image.Rect(i%2-1, -i, 3, h-i%3))
		if i%3 == 1 {
			l.Mask = &compref.Mask{Rect: image.Rect(0, 0, 2, h), Color: uint8(255 * (i % 2)), At: maskAt(i)}
		}
		if i%4 == 3 {
			l = folderNode(fmt.Sprint("f", i), "norm", l)
		}
		d.Nodes = append(d.Nodes, l)
	}
	t := load(c, d, &composite.Options{TileSize: ts})
	r := image.Rect(0, 0, 3, h)
	m := canvas(t, r)
	mustRenderTo(c, t, m)
	compare(c, fmt.Sprintf("GOMAXPROCS=%d", n), m, d, r, image.Point{})
	fl := mapping{f64.Aff3{-1, 0, 3, 0, -1, float64(h)}, "rotate 180"}
	nt, err := t.Transform(bg, fl.m, 0)
	if err != nil {
		c.Fail("Transform: %v", err)
	}
	compareMapped(c, fmt.Sprintf("GOMAXPROCS=%d: Transform", n), nt, d, fl, 1)
	th, err := t.Thumbnails(bg, 1)
	if err != nil {
		c.Fail("Thumbnails: %v", err)
	}
	mustThumbs(c, fmt.Sprintf("GOMAXPROCS=%d: Thumbnails", n), th, d, 1)
	if err := operation(c, "ThumbnailSheet", bg, t, d); err != nil {
		c.Fail("ThumbnailSheet: %v", err)
	}
	c.Validated(4)
}

func init() {
	reg("C26",
		mc.Scenario{Name: "cancel", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: cancelAt([]int{1, 2, 3})},
		mc.Scenario{Name: "cancel-2", Instr: true, Tolerant: true, Bound: 2, Fn: cancelAt([]int{2})},
		mc.Scenario{Name: "read-faults", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: readFaults},
		mc.Scenario{Name: "read-faults-2", Instr: true, Tolerant: true, Bound: 2, Fn: readFaults},
	)
	reg("C27",
		mc.Scenario{Name: "processors", Quick: true, Serial: true, Bound: -1, Fn: processors},
		mc.Scenario{Name: "pairs", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: func(c *mc.Case) {
			pairs(c, append([]string{"Clone", "announce"}, operations[:5]...), append([]string{"announce"}, operations[:3]...), false)
		}},
		mc.Scenario{Name: "pairs-2", Instr: true, Tolerant: true, Bound: 2, Fn: func(c *mc.Case) {
			pairs(c, append([]string{"Clone", "announce"}, operations[:5]...), append([]string{"announce"}, operations[:3]...), false)
		}},
		mc.Scenario{Name: "changes-meanwhile", Quick: true, Instr: true, Tolerant: true, Bound: 1, Fn: changesWhile(1)},
		mc.Scenario{Name: "changes-meanwhile-2", Instr: true, Tolerant: true, Bound: 2, Fn: changesWhile(2)},
		mc.Scenario{Name: "races", Quick: true, Race: true, Bound: -1, Fn: func(c *mc.Case) {
			pairs(c, append([]string{"Clone", "announce"}, operations...), append([]string{"announce"}, operations...), true)
		}},
	)
}
