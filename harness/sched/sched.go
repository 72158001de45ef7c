// Package sched runs real goroutines under a controlled scheduler: every
// goroutine stops at the points the harness inserts (calls of an image, of a
// reader, synchronisation operations of instrumented packages) and continues
// only when the explorer picks it. A bubble of testing/synctest tells when every
// goroutine is blocked, so no timing is involved; a state in which nothing can
// continue is a deadlock.
package sched

import (
	"context"
	"fmt"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	_ "testing/synctest"
	"unsafe"

	"verif.local/harness/mc"
)

//go:linkname bubbleRun internal/synctest.Run
func bubbleRun(f func())

//go:linkname bubbleWait internal/synctest.Wait
func bubbleWait()

type req struct {
	who   any
	label string
	grant chan struct{}
}

// Sched is the scheduler of one execution.
type Sched struct {
	c       *mc.Case
	mu      sync.Mutex
	pending []*req
	last    any
	Steps   int
	Switch  int
	MaxStep int
	Procs   int  // what instrumented packages see as GOMAXPROCS, 0: the real value
	Delay   bool // every choice but the default one costs a deviation (delay bounding)
	Reverse bool // order of maps in instrumented packages
	trace   []string
	off     bool
	live    int32 // instrumented goroutines that have not ended
	crashed *outcome
}

// G is a goroutine that the scheduler knows.
type G struct {
	S    *Sched
	Path string
	kids int
}

// Goroutines are recognized by their profiler labels, which is much cheaper than
// asking for the goroutine's number. Goroutines that are not instrumented inherit
// the labels of the one that started them.
var gs sync.Map // label set -> *G

//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

func (g *G) enter() (leave func()) {
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("path", g.Path)))
	l := profLabel()
	gs.Store(l, g)
	return func() { gs.Delete(l) }
}

func gid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := b[len("goroutine "):n]
	id := 0
	for _, c := range f {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

// Current is the running goroutine, nil when it is not controlled.
func Current() *G {
	l := profLabel()
	if l == nil {
		return nil
	}
	if g, ok := gs.Load(l); ok {
		return g.(*G)
	}
	return nil
}

// P is a scheduling point of a controlled goroutine; nil means that there is none.
func (g *G) P(label string) {
	if g != nil {
		g.S.point(g, g.Path+" "+label)
	}
}

// Go starts f. Without a controlled parent it is a plain go statement.
func Go(f func()) { goNamed("", f) }

// GoLast starts f in a goroutine that comes last in the default order.
func GoLast(f func()) { goNamed("~", f) }

func goNamed(name string, f func()) {
	g := Current()
	if g == nil {
		go f()
		return
	}
	g.kids++
	k := &G{S: g.S, Path: fmt.Sprintf("%s.%02d", g.Path, g.kids)}
	if name != "" {
		k.Path = name + k.Path
	}
	atomic.AddInt32(&g.S.live, 1)
	go func() {
		leave := k.enter()
		defer func() {
			if r := recover(); r != nil {
				g.S.mu.Lock()
				if g.S.crashed == nil {
					g.S.crashed = &outcome{r, string(debug.Stack())}
				}
				g.S.mu.Unlock()
			}
			leave()
			atomic.AddInt32(&g.S.live, -1)
		}()
		k.P("start")
		f()
	}()
}

// P is a scheduling point. Labels order the goroutines that wait, so they must
// be deterministic.
func (s *Sched) P(label string) {
	if s == nil || s.off {
		return
	}
	s.point(gid(), label)
}

func (s *Sched) point(who any, label string) {
	if s.off {
		return
	}
	r := &req{who, label, make(chan struct{})}
	s.mu.Lock()
	s.pending = append(s.pending, r)
	s.mu.Unlock()
	<-r.grant
}

// Trace is the sequence of points passed.
func (s *Sched) Trace() []string { return s.trace }

type outcome struct {
	p     interface{}
	stack string
}

// Run executes f (and the goroutines it starts) under the explorer's control.
// A switch away from a goroutine that could continue costs one deviation.
func Run(c *mc.Case, f func(s *Sched)) (s *Sched, deadlock bool) {
	return RunWith(c, &Sched{}, f)
}

// RunWith is Run with the settings of s.
func RunWith(c *mc.Case, s *Sched, f func(s *Sched)) (_ *Sched, deadlock bool) {
	s.c, s.MaxStep = c, 100000
	var fail interface{}
	var stack string
	func() {
		defer func() {
			if r := recover(); r != nil {
				// goroutines of the bubble are blocked forever
				if t := fmt.Sprint(r); strings.Contains(t, "deadlock") {
					deadlock = true
				} else {
					panic(r)
				}
			}
		}()
		bubbleRun(func() {
			done := make(chan outcome, 1)
			go func() {
				leave := (&G{S: s, Path: "0"}).enter()
				defer func() {
					leave()
					if r := recover(); r != nil {
						done <- outcome{r, string(debug.Stack())}
					} else {
						done <- outcome{}
					}
				}()
				f(s)
			}()
			defer func() {
				if r := recover(); r != nil {
					fail, stack = r, string(debug.Stack())
				}
			}()
			finished := false
			for {
				bubbleWait()
				if !finished {
					select {
					case o := <-done:
						finished = true
						if o.p != nil {
							fail, stack = o.p, o.stack
						}
					default:
					}
				}
				s.mu.Lock()
				if s.crashed != nil && fail == nil {
					fail, stack = s.crashed.p, s.crashed.stack
				}
				ps := s.pending
				s.mu.Unlock()
				if len(ps) == 0 {
					if !finished {
						deadlock = true
					}
					return
				}
				sort.SliceStable(ps, func(i, j int) bool { return ps[i].label < ps[j].label })
				k := -1
				for i, r := range ps {
					if r.who == s.last {
						k = i
					}
				}
				var pick int
				if fail != nil {
					pick = 0 // drain
				} else if k >= 0 {
					pick = c.Dev(len(ps), "switch")
					// 0 stands for the running goroutine
					if pick == 0 {
						pick = k
					} else {
						if pick <= k {
							pick--
						}
						s.Switch++
					}
				} else if len(ps) > 1 {
					if s.Delay {
						pick = c.Dev(len(ps), "next")
					} else {
						pick = c.Choose(len(ps), "next")
					}
				}
				r := ps[pick]
				s.mu.Lock()
				s.pending = append(append([]*req{}, ps[:pick]...), ps[pick+1:]...)
				s.mu.Unlock()
				s.last = r.who
				s.Steps++
				if len(s.trace) < 4000 {
					s.trace = append(s.trace, r.label)
				}
				if s.Steps > s.MaxStep {
					fail = fmt.Sprintf("no termination within %d steps", s.MaxStep)
					s.off = true
				}
				r.grant <- struct{}{}
			}
		})
	}()
	c.Visited(s.Steps, s.Steps)
	if fail != nil {
		if stack != "" {
			c.Detail("%s", stack)
		}
		panic(fail)
	}
	return s, deadlock
}

// Choose is a choice of the environment at a point, such as the ready clause of
// a select statement.
func (g *G) Choose(n int, label string) int {
	if g == nil || n < 2 {
		return 0
	}
	return g.S.c.Dev(n, label)
}
