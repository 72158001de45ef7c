// Package vsync stands in for package sync, for channel operations and for go
// statements in packages rewritten by cmd/instrument. In goroutines that the
// scheduler of package sched controls, every operation is a scheduling point;
// elsewhere the operations just work.
package vsync

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"sync"

	"verif.local/harness/sched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// gate lets goroutines wait for a change of a state.
type gate struct {
	mu sync.Mutex
	ch chan struct{}
}

// wait blocks until f, evaluated under the lock, is true; f may change the state.
func (g *gate) wait(what string, f func() bool) {
	me := sched.Current()
	me.P(what)
	for {
		g.mu.Lock()
		if f() {
			g.mu.Unlock()
			return
		}
		if g.ch == nil {
			g.ch = make(chan struct{})
		}
		ch := g.ch
		g.mu.Unlock()
		<-ch
		me.P(what + " again")
	}
}

// change changes the state and wakes everything that waits.
func (g *gate) change(f func()) {
	g.mu.Lock()
	defer g.mu.Unlock()
	f()
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	g    gate
	held bool
}

func (m *Mutex) Lock() {
	m.g.wait("lock", func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	})
}

func (m *Mutex) TryLock() (ok bool) {
	sched.Current().P("trylock")
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	ok = !m.held
	m.held = true
	return
}

func (m *Mutex) Unlock() {
	m.g.change(func() {
		if !m.held {
			panic("sync: unlock of unlocked mutex")
		}
		m.held = false
	})
}

// RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	g       gate
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	queued := false
	m.g.wait("lock", func() bool {
		if m.w || m.r > 0 {
			if !queued {
				queued = true
				m.waiting++
			}
			return false
		}
		if queued {
			m.waiting--
		}
		m.w = true
		return true
	})
}

func (m *RWMutex) TryLock() bool {
	sched.Current().P("trylock")
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	m.g.change(func() {
		if !m.w {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.w = false
	})
}

func (m *RWMutex) RLock() {
	m.g.wait("rlock", func() bool {
		if m.w || m.waiting > 0 {
			return false
		}
		m.r++
		return true
	})
}

func (m *RWMutex) TryRLock() bool {
	sched.Current().P("tryrlock")
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	m.g.change(func() {
		if m.r == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	})
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a counter to become zero.
type WaitGroup struct {
	g gate
	n int
}

func (w *WaitGroup) Add(n int) {
	w.g.change(func() {
		if w.n += n; w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
	})
	if n < 0 {
		sched.Current().P("done")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() { w.g.wait("wait", func() bool { return w.n == 0 }) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	m sync.Mutex
	q []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.m.Lock()
	c.q = append(c.q, ch)
	c.m.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	defer c.m.Unlock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	defer c.m.Unlock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
}

// Pool hands out what was put last.
type Pool struct {
	noCopy sync.Mutex
	l      []any
	New    func() any
}

func (p *Pool) Get() any {
	p.noCopy.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.noCopy.Unlock()
		return x
	}
	p.noCopy.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.noCopy.Lock()
	p.l = append(p.l, x)
	p.noCopy.Unlock()
}

// ---------------------------------------------------------------- statements

// GoCall is the statement go f(args...).
func GoCall(f any, args ...any) { sched.Go(bind(f, args, false)) }

// GoCallSlice is the statement go f(args...) whose last argument is a slice.
func GoCallSlice(f any, args ...any) { sched.Go(bind(f, args, true)) }

func bind(f any, args []any, slice bool) func() {
	if fn, ok := f.(func()); ok && len(args) == 0 {
		return fn
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var t reflect.Type
		if ft.IsVariadic() && !slice && i >= ft.NumIn()-1 {
			t = ft.In(ft.NumIn() - 1).Elem()
		} else {
			t = ft.In(i)
		}
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(t)
		} else if !v.Type().AssignableTo(t) {
			v = v.Convert(t)
		}
		in[i] = v
	}
	return func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}
}

// GOMAXPROCS is what the scheduler pretends.
func GOMAXPROCS(n int) int {
	if g := sched.Current(); g != nil && g.S.Procs > 0 && n <= 0 {
		return g.S.Procs
	}
	return runtime.GOMAXPROCS(n)
}

func NumCPU() int {
	if g := sched.Current(); g != nil && g.S.Procs > 0 {
		return g.S.Procs
	}
	return runtime.NumCPU()
}

func Gosched() {
	if g := sched.Current(); g != nil {
		g.P("gosched")
		return
	}
	runtime.Gosched()
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	g := sched.Current()
	g.P("receive")
	select {
	case v, ok := <-ch:
		return v, ok
	default:
	}
	v, ok := <-ch
	g.P("received")
	return v, ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		g := sched.Current()
		g.P("send")
		select {
		case ch <- v:
			return
		default:
		}
		ch <- v
		g.P("sent")
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	sched.Current().P("close")
	close(ch)
}

// RangeChan is range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// RangeMap is range m in a fixed order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		type e struct {
			s string
			k K
		}
		es := make([]e, 0, len(m))
		for k := range m {
			es = append(es, e{key(k), k})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s })
		g := sched.Current()
		for i := range es {
			k := es[i].k
			if g != nil && g.S.Reverse {
				k = es[len(es)-1-i].k
			}
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func key(k any) string {
	if v := reflect.ValueOf(k); v.Kind() == reflect.Pointer {
		return ""
	}
	return fmt.Sprintf("%12v", k)
}

// Case is a clause of a select statement.
type Case interface{ c() reflect.SelectCase }

// RecvCase is case v, ok := <-ch.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (r *RecvCase[T]) c() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

func (r *RecvCase[T]) set(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		r.V, _ = v.Interface().(T)
	}
}

type sendCase struct{ sc reflect.SelectCase }

func (s sendCase) c() reflect.SelectCase { return s.sc }

// S is case ch <- v.
func S[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return sendCase{reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}}
	}
}

// Select is a select statement; -1 stands for its default clause. When several
// clauses are ready, the explorer decides which one is taken.
func Select(def bool, cases ...Case) int {
	g := sched.Current()
	g.P("select")
	sc := make([]reflect.SelectCase, len(cases))
	for i, c := range cases {
		sc[i] = c.c()
	}
	finish := func(i int, v reflect.Value, ok bool) int {
		if r, is := cases[i].(interface{ set(reflect.Value, bool) }); is {
			r.set(v, ok)
		}
		return i
	}
	if g == nil {
		if def {
			sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(sc)
		if i == len(cases) {
			return -1
		}
		return finish(i, v, ok)
	}
	first := g.Choose(len(cases), "clause")
	for k := range sc {
		i := (first + k) % len(sc)
		if j, v, ok := reflect.Select([]reflect.SelectCase{sc[i], {Dir: reflect.SelectDefault}}); j == 0 {
			return finish(i, v, ok)
		}
	}
	if def {
		return -1
	}
	i, v, ok := reflect.Select(sc)
	g.P("selected")
	return finish(i, v, ok)
}
