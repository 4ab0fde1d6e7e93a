// Package vsync stands in for package sync in instrumented code: every operation is a scheduling
// point, and a blocked goroutine blocks on a channel, so that the controller notices.
package vsync

import (
	"sync"

	"github.com/anivanovic/gotit/verifmc/vsched"
)

type waiters struct {
	mu sync.Mutex
	ws []chan struct{}
}

// try runs f under the list's lock; if it fails the caller is queued on the returned channel.
func (w *waiters) try(f func() bool) chan struct{} {
	w.mu.Lock()
	defer w.mu.Unlock()
	if f() {
		return nil
	}
	c := make(chan struct{})
	w.ws = append(w.ws, c)
	return c
}

func (w *waiters) wake(f func()) {
	w.mu.Lock()
	f()
	ws := w.ws
	w.ws = nil
	w.mu.Unlock()
	for _, c := range ws {
		close(c)
	}
}

func (w *waiters) block(f func() bool) {
	vsched.Point()
	for {
		c := w.try(f)
		if c == nil {
			return
		}
		<-c
		vsched.Point()
	}
}

type Locker = sync.Locker

type Mutex struct {
	m sync.Mutex
	w waiters
}

func (m *Mutex) Lock()         { m.w.block(m.m.TryLock) }
func (m *Mutex) TryLock() bool { vsched.Point(); return m.m.TryLock() }
func (m *Mutex) Unlock() {
	m.w.wake(m.m.Unlock)
}

type RWMutex struct {
	m sync.RWMutex
	w waiters
}

func (m *RWMutex) Lock()          { m.w.block(m.m.TryLock) }
func (m *RWMutex) RLock()         { m.w.block(m.m.TryRLock) }
func (m *RWMutex) TryLock() bool  { vsched.Point(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vsched.Point(); return m.m.TryRLock() }
func (m *RWMutex) Unlock() {
	m.w.wake(m.m.Unlock)
}
func (m *RWMutex) RUnlock() {
	m.w.wake(m.m.RUnlock)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	w waiters
}

func (g *WaitGroup) Add(d int) {
	vsched.Point()
	var neg bool
	g.w.mu.Lock()
	g.n += d
	neg = g.n < 0
	var ws []chan struct{}
	if g.n == 0 {
		ws = g.w.ws
		g.w.ws = nil
	}
	g.w.mu.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
	for _, c := range ws {
		close(c)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() { g.w.block(func() bool { return g.n == 0 }) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L Locker
	w waiters
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := c.w.try(func() bool { return false })
	c.L.Unlock()
	<-ch
	vsched.Point()
	c.L.Lock()
}
func (c *Cond) Broadcast() { vsched.Point(); c.w.wake(func() {}) }
func (c *Cond) Signal() {
	vsched.Point()
	c.w.mu.Lock()
	var ch chan struct{}
	if len(c.w.ws) > 0 {
		ch, c.w.ws = c.w.ws[0], c.w.ws[1:]
	}
	c.w.mu.Unlock()
	if ch != nil {
		close(ch)
	}
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Point(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.Point(); m.m.Clear() }

type Pool = sync.Pool

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
