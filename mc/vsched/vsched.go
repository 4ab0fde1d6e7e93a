// Package vsched is a controlled scheduler. The code under test is instrumented with Point calls
// (tools/instr); a controlled goroutine stops at each of them until the controller lets it go on, so
// that one runs at a time and every switch is a choice of the explorer. Runs inside a synctest
// bubble: real channel operations and timers work, the controller sees when everybody is blocked.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/anivanovic/gotit/verifmc/vrt"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

type thread struct {
	magic  *int
	id     int
	name   string
	gate   chan struct{}
	parked bool
	done   bool
	s      *Sched
	steps  int
	low    bool
}

var magic = new(int)

// Sched is one controlled execution.
type Sched struct {
	x       *vrt.X
	mu      sync.Mutex
	fin     sync.Mutex // orders the end of a thread before the return of Run
	threads []*thread
	note    chan struct{}
	last    *thread
	o       Opts
	stop    bool
	Steps   int
	// Low (optional) says whether threads of SpawnLow may begin at this step; it is asked once a step.
	Low func() bool
	// Hold (optional) says that only threads of SpawnLow are offered as deviations at the moment.
	Hold func() bool
	// Idle is called when no thread can run at the moment (before time passes).
	Idle func()
}

// Opts of a controlled execution.
type Opts struct {
	Delay bool          // every choice other than the default costs a deviation (delay bounding)
	Limit time.Duration // virtual time without any runnable thread that counts as a deadlock (default 30 min)
	Max   int           // steps (default 200000)
}

var active *Sched

// Active says whether a controlled execution is running.
func Active() bool { return active != nil }

func cur() *thread {
	if active == nil {
		return nil
	}
	t := (*thread)(getLabel())
	if t == nil || t.magic != magic || t.s != active {
		return nil
	}
	return t
}

// Name of the current thread.
func Name() string {
	if t := cur(); t != nil {
		return t.name
	}
	return ""
}

// Point is a scheduling point.
//
//go:noinline
func Point() {
	t := cur()
	if t == nil {
		return
	}
	s := t.s
	raceOff()
	s.mu.Lock()
	if s.stop {
		s.mu.Unlock()
		raceOn()
		return
	}
	t.parked = true
	t.steps++
	s.mu.Unlock()
	select {
	case s.note <- struct{}{}:
	default:
	}
	<-t.gate
	raceOn()
}

// Split is a scheduling point between the evaluation of a value and its use.
//
//go:noinline
func Split[T any](v T) T {
	Point()
	return v
}

// Go starts a controlled goroutine (an ordinary one if the caller is not controlled).
//
//go:noinline
func Go(f func()) {
	t := cur()
	if t == nil {
		go f()
		return
	}
	t.s.Spawn(fmt.Sprintf("%s.%d", t.name, len(t.s.threads)), f)
	Point()
}

// Spawn adds a controlled goroutine.
//
//go:noinline
func (s *Sched) Spawn(name string, f func()) { s.spawn(name, false, f) }

// SpawnLow adds a goroutine that begins only when the explorer deviates for it: the others, and the
// passing of time, come first. From then on it is like any other.
//
//go:noinline
func (s *Sched) SpawnLow(name string, f func()) { s.spawn(name, true, f) }

func (s *Sched) spawn(name string, low bool, f func()) {
	raceOff()
	s.mu.Lock()
	t := &thread{magic: magic, id: len(s.threads), name: name, gate: make(chan struct{}), s: s, low: low}
	s.threads = append(s.threads, t)
	s.mu.Unlock()
	raceOn()
	go func() {
		setLabel(unsafe.Pointer(t))
		defer func() {
			r := recover()
			if r != nil {
				fmt.Println("VSCHED panic", r, string(debug.Stack()))
				s.x.HandlePanic(r)
			}
			s.fin.Lock()
			s.fin.Unlock()
			raceOff()
			s.mu.Lock()
			t.done = true
			s.mu.Unlock()
			select {
			case s.note <- struct{}{}:
			default:
			}
			raceOn()
		}()
		Point()
		f()
	}()
}

// New starts a controlled execution; call Run after Spawn.
func New(x *vrt.X, o Opts) *Sched {
	if o.Limit == 0 {
		o.Limit = 30 * time.Minute
	}
	if o.Max == 0 {
		o.Max = 200000
	}
	setLabel(nil)
	s := &Sched{x: x, note: make(chan struct{}, 1), o: o}
	active = s
	return s
}

// Run lets the threads run to their end, one at a time. done (optional) ends it earlier.
func (s *Sched) Run(done func() bool) {
	for {
		raceOff()
		synctest.Wait()
		s.mu.Lock()
		var c, low []*thread
		alive := 0
		for _, t := range s.threads {
			if t.done {
				continue
			}
			if t.low {
				if t.parked {
					low = append(low, t)
				}
				continue
			}
			alive++
			if t.parked {
				c = append(c, t)
			}
		}
		s.mu.Unlock()
		raceOn()
		if alive == 0 || (done != nil && done()) {
			s.fin.Lock()
			s.fin.Unlock()
			return
		}
		if len(low) > 0 && s.Low != nil && !s.Low() {
			low = nil
		}
		if len(c) == 0 && len(low) > 0 {
			if k := s.x.Dev(1+len(low), "pass"); k > 0 {
				low[k-1].low = false
				c, low = low[k-1:k], nil
			}
		}
		if len(c) == 0 {
			if s.Idle != nil {
				s.Idle()
			}
			t := time.NewTimer(s.o.Limit)
			late := false
			raceOff()
			select {
			case <-s.note:
			case <-t.C:
				late = true
			}
			raceOn()
			if late {
				names := ""
				for _, t := range s.threads {
					if !t.done {
						names += " " + t.name
					}
				}
				s.x.Fail("deadlock", "blocked for ever:%s", names)
			}
			t.Stop()
			continue
		}
		// the thread that ran last first, then the others in turn
		def := 0
		preempt := false
		for i, t := range c {
			if t == s.last {
				def, preempt = i, true
			}
		}
		if !preempt && s.last != nil {
			for i, t := range c {
				if t.id > s.last.id {
					def = i
					break
				}
			}
		}
		k := 0
		alts := len(c)
		if s.Hold != nil && s.Hold() {
			alts = 1
		}
		if alts+len(low) > 1 {
			if preempt || s.o.Delay || len(low) > 0 {
				k = s.x.Dev(alts+len(low), "switch")
				if k >= alts {
					t := low[k-alts]
					t.low = false
					c, def, k = []*thread{t}, 0, 0
				}
			} else {
				k = s.x.Choose(len(c), "run")
			}
		}
		t := c[(def+k)%len(c)]
		if k != 0 || t != s.last {
			s.x.Logf("[%s]", t.name)
		}
		s.last = t
		s.Steps++
		if s.Steps > s.o.Max {
			s.x.Fail("livelock", "%d steps without an end", s.Steps)
		}
		raceOff()
		s.mu.Lock()
		t.parked = false
		s.mu.Unlock()
		t.gate <- struct{}{}
		raceOn()
	}
}

// Stop ends control: all threads run freely from here on.
func (s *Sched) Stop() {
	raceOff()
	defer raceOn()
	s.mu.Lock()
	s.stop = true
	for _, t := range s.threads {
		if t.parked {
			t.parked = false
			g := t.gate
			go func() { g <- struct{}{} }()
		}
	}
	s.mu.Unlock()
	synctest.Wait()
	if active == s {
		active = nil
	}
}
