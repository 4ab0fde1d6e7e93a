package c15

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C15") }

const (
	sec = time.Second
	ms  = time.Millisecond
	// a cancelled download returns within
	bound = 12 * time.Second
)

var (
	small  = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 10}}, PieceLen: 4}
	tiny   = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 4}}, PieceLen: 2}
	multi  = &vtor.Layout{Name: "d", Files: []vtor.File{{"a", 5}, {"e", 0}, {"x/b", 1}, {"x/c", 5}}, PieceLen: 4}
	blocks = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 300*1024 + 5}}, PieceLen: 256 * 1024}
)

const (
	p0 = "10.6.0.1:6881"
	p1 = "10.6.0.2:6881"
	tr = "10.0.0.9:1"
	ht = "10.0.0.8:80"
)

// D is one download that is going to be stopped.
type D struct {
	*vswarm.W
	before   int // goroutines before
	mu       sync.Mutex
	answered map[*vswarm.RC]map[int]int // bytes of each piece sent
	verified map[int]bool
	trace    string
	disk     time.Duration // a write takes
	writes   atomic.Int64
}

// watch notes, at every request, the pieces whose data the client has taken before it: it has
// verified them, otherwise it would not ask on.
func (d *D) watch(r *vswarm.Remote) {
	msg := r.Msg
	r.Msg = func(rc *vswarm.RC, m vnet.M) {
		d.mu.Lock()
		if !m.Keep && m.ID == 6 && rc.C.Pending() == 0 {
			for i, n := range d.answered[rc] {
				if n >= d.L.PieceSize(i) {
					d.verified[i] = true
				}
			}
		}
		if !m.Keep && m.ID == 6 {
			if d.answered[rc] == nil {
				d.answered[rc] = map[int]int{}
			}
			if a := d.Answer(m); a != nil && msg == nil {
				d.answered[rc][int(m.U(0))] += len(a) - 13
			}
		}
		d.mu.Unlock()
		if msg != nil {
			msg(rc, m)
		} else {
			rc.Seed(m)
		}
	}
}

type scenario struct {
	name string
	l    *vtor.Layout
	set  func(d *D)
	http bool
	long bool // does not end by itself
}

func udp(d *D, addrs ...string) {
	d.UDP(tr, func(int) vswarm.UReply { return vswarm.UReply{Interval: 60, Addrs: addrs} })
}

func seed(d *D, addr, kind string) {
	r := d.Peer(addr)
	if kind == "" {
		d.watch(r)
		return
	}
	vswarm.InstallSeed(r, kind)
}

var scenarios []scenario

func init() {
	add := func(name string, l *vtor.Layout, http, long bool, set func(d *D)) {
		scenarios = append(scenarios, scenario{name, l, set, http, long})
	}
	add("two pieces", tiny, false, false, func(d *D) { seed(d, p0, ""); udp(d, p0) })
	add("seed", small, false, false, func(d *D) { seed(d, p0, ""); udp(d, p0) })
	add("seed, files", multi, false, false, func(d *D) { seed(d, p0, ""); udp(d, p0) })
	add("two seeds", multi, false, false, func(d *D) { seed(d, p0, ""); seed(d, p1, "400 ms"); udp(d, p0, p1) })
	add("slow seed", small, false, false, func(d *D) { seed(d, p0, "400 ms"); udp(d, p0) })
	add("blocks", blocks, false, false, func(d *D) { seed(d, p0, ""); udp(d, p0) })
	for _, b := range vswarm.Bads {
		if b.K > 1 {
			continue
		}
		switch b.Name {
		case "short answer", "long answer", "empty answer", "wrong index", "wrong offset", "another piece", "huge prefix", "junk besides", "half a handshake":
			continue
		}
		add("peer: "+b.String(), small, false, true, func(d *D) { b.Install(d.Peer(p0)); udp(d, p0) })
	}
	add("seed and silent peer", multi, false, false, func(d *D) {
		vswarm.Bad{Name: "silent after answer"}.Install(d.Peer(p1))
		seed(d, p0, "400 ms")
		udp(d, p1, p0)
	})
	for k := 1; k <= 5; k++ {
		add(fmt.Sprintf("udp tracker fails %d", k), small, false, true, func(d *D) {
			d.UDP(tr, func(int) vswarm.UReply { return vswarm.UReply{Kind: k, Interval: 60} })
		})
	}
	add("nobody", small, false, true, func(d *D) { udp(d) })
	h := func(name string, long bool, r vswarm.TReply) {
		add("http tracker "+name, small, true, long, func(d *D) {
			seed(d, p0, "400 ms")
			d.HTTP(ht, func(int, string) vswarm.TReply { return r })
		})
	}
	h("closes", false, vswarm.TReply{Status: 200, Body: vswarm.List(60, p0)})
	h("keeps alive", false, vswarm.TReply{Status: 200, Body: vswarm.List(60, p0), Keep: true})
	h("keeps alive, nobody", true, vswarm.TReply{Status: 200, Body: vswarm.List(2, "10.9.9.9:1"), Keep: true})
	h("fails", true, vswarm.TReply{Status: 500, Body: []byte("no"), Keep: true})
	h("hangs", true, vswarm.TReply{})
	h("breaks", true, vswarm.TReply{Status: -1})
	h("is late", false, vswarm.TReply{Status: 200, Body: vswarm.List(60, p0), After: 3 * sec, Keep: true})
	add("http tracker black hole", small, true, true, func(d *D) { d.Net.Host(ht, func(*vnet.Conn) error { return vnet.ErrBlackhole }) })
	add("udp tracker black hole", small, false, true, func(d *D) { d.Net.Host(tr, func(*vnet.Conn) error { return vnet.ErrBlackhole }) })
	add("bad url", small, false, true, func(d *D) {})
}

func start(x *vrt.X, sc scenario, limit int) *D {
	runtime.Gosched()
	n := runtime.NumGoroutine()
	l := *sc.l
	l.Announce = "udp://" + tr
	if sc.http {
		l.Announce = "http://" + ht + "/announce"
	}
	if sc.name == "bad url" {
		l.Announce = "gopher://x"
	}
	d := &D{W: vswarm.New(x, &l, limit), before: n, answered: map[*vswarm.RC]map[int]int{}, verified: map[int]bool{}, trace: sc.name}
	sc.set(d)
	vtor.OnWrite(d.Dir, func(string, []byte, int64) (int, error) {
		d.writes.Add(1)
		time.Sleep(d.disk)
		return 0, nil
	})
	return d
}

// the ways to stop
var ways = []string{"cancel", "stop", "cancel and stop", "stop twice"}

func (d *D) do(way int) {
	switch way {
	case 0:
		d.Cancel()
	case 1:
		d.M.Stop()
	case 2:
		d.Cancel()
		d.M.Stop()
	case 3:
		d.M.Stop()
		d.M.Stop()
	}
}

func foreign() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	out := ""
	for i, g := range strings.Split(string(b), "\n\n") {
		if i == 0 || strings.Contains(g, "vrt.watchdog") || strings.Contains(g, "testing.(*M)") || strings.Contains(g, "testing.runTests") ||
			strings.Contains(g, "testing.(*T).Run(") || strings.Contains(g, "synctest.Run(") || strings.Contains(g, "verifmc/") && !strings.Contains(g, "gotit/pkg") {
			continue
		}
		out += g + "\n\n"
	}
	return out
}

// clean checks that nothing is left of a download that has returned and was stopped.
func (d *D) clean() {
	x := d.X
	synctest.Wait()
	if o := d.Net.Open(); len(o) > 0 {
		x.Fail("open", "download and stop have returned, %v is still open (%s)", o[0], d.trace)
	}
	for k := 0; runtime.NumGoroutine() > d.before && k < 20; k++ {
		runtime.Gosched()
	}
	if n := runtime.NumGoroutine(); n > d.before {
		if f := foreign(); f != "" {
			x.Fail("goroutine", "download and stop have returned, %d goroutines are left (%s)\n%s", n-d.before, d.trace, f)
		}
	}
	d.stored()
	dials, shown, writes := len(d.Net.Dials()), len(d.Out.Last()), d.writes.Load()
	time.Sleep(5 * time.Minute)
	if n := len(d.Net.Dials()); n != dials {
		x.Fail("dial", "%d dials after download and stop have returned (%s)", n-dials, d.trace)
	}
	if n := len(d.Out.Last()); n != shown {
		x.Fail("display", "the display is written after download and stop have returned (%s)", d.trace)
	}
	if n := d.writes.Load(); n != writes {
		x.Fail("write", "a file is written after download and stop have returned (%s)", d.trace)
	}
	if p, st := vrt.Try(d.M.Stop); p != nil {
		x.Fail("stop", "stopping again crashes: %v (%s)\n%s", p, d.trace, st)
	}
	if len(d.Net.Dials()) != dials || len(d.Out.Last()) != shown {
		x.Fail("stop", "stopping again does something (%s)", d.trace)
	}
	os.VerifWriteHook = nil
	d.Release()
}

// stored checks that every verified piece is on disk.
func (d *D) stored() {
	x := d.X
	d.mu.Lock()
	ver := d.verified
	d.verified = map[int]bool{}
	d.mu.Unlock()
	for i := range ver {
		if why := d.has(i); why != "" {
			x.Fail("lost", "piece %d was verified, but %s (%s)", i, why, d.trace)
		}
	}
}

// has says what is missing of a piece on disk, or "".
func (d *D) has(i int) string {
	lo, hi := i*d.L.PieceLen, i*d.L.PieceLen+d.L.PieceSize(i)
	off := 0
	for k, p := range d.L.Paths(d.Dir) {
		n := d.L.Files[k].Len
		b, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		for q := max(lo, off); q < min(hi, off+n); q++ {
			if q-off >= len(b) || b[q-off] != d.L.Byte(q) {
				return fmt.Sprintf("position %d of file %d is not on disk", q-off, k)
			}
		}
		off += n
	}
	return ""
}

// returned waits for the return of Download after it was stopped.
func (d *D) returned() {
	at := time.Now()
	bound := bound + time.Duration(d.L.Pieces()+4)*d.disk // the disk may be behind
	if !d.Wait(bound) {
		d.X.Fail("hangs", "the download has not returned %v after it was stopped (%s)", bound, d.trace)
	}
	d.X.Logf("%s: returned after %v", d.trace, time.Since(at))
}

// Stopped before the n-th network operation.
func TestOperations(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "at every network operation", Bubble: true}, func(x *vrt.X) {
		sc := scenarios[x.Choose(len(scenarios), "scenario")]
		n := x.Choose(vrt.Pick(64, 160), "operation")
		way := x.Choose(len(ways), "way")
		d := start(x, sc, 2)
		d.trace += fmt.Sprintf(", %s at operation %d", ways[way], n)
		var ops atomic.Int64
		stopped := make(chan struct{})
		var once sync.Once
		fire := func() {
			once.Do(func() {
				go func() { d.do(way); close(stopped) }()
			})
		}
		vnet.BeforeOp = func(string) {
			if int(ops.Add(1)) == n+1 {
				fire()
				runtime.Gosched()
			}
		}
		d.Go()
		limit := time.NewTimer(90 * sec)
		select {
		case <-stopped:
		case <-d.Done: // finished by itself, or the operation did not come
		case <-limit.C:
			x.Logf("only %d operations", ops.Load())
			fire()
		}
		limit.Stop()
		d.returned()
		vnet.BeforeOp = func(string) {}
		fire()
		<-stopped
		d.M.Stop()
		d.clean()
		x.Outcome(sc.name, way, n, ops.Load() > int64(n))
	})
}

// Stopped at moments in time.
func TestTimes(t *testing.T) {
	var at []time.Duration
	for _, b := range []time.Duration{0, 10 * ms, 450 * ms, 900 * ms, sec, 1250 * ms, 2 * sec, 2900 * ms, 3 * sec, 4100 * ms, 5 * sec, 7 * sec, 10 * sec, 14 * sec, 15500 * ms, 20 * sec, 29900 * ms, 30 * sec, 31 * sec, 45 * sec, 59 * sec, 60 * sec, 61 * sec, 75 * sec, 113 * sec, 114 * sec, 130 * sec, 300 * sec} {
		at = append(at, b, b+7*ms+3)
	}
	vrt.Explore(t, vrt.Opts{Section: "at moments in time", Bubble: true}, func(x *vrt.X) {
		sc := scenarios[x.Choose(len(scenarios), "scenario")]
		m := at[x.Choose(len(at), "moment")]
		way := x.Choose(len(ways), "way")
		d := start(x, sc, 1+x.Choose(2, "limit"))
		d.trace += fmt.Sprintf(", %s at %v", ways[way], m)
		d.Go()
		d.Wait(m)
		own := d.Finished()
		d.do(way)
		d.returned()
		d.M.Stop()
		d.clean()
		x.Outcome(sc.name, way, m, own)
	})
}

// Stopped while the writer is behind: the disk takes its time for every write.
func TestSlowDisk(t *testing.T) {
	many := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 1300}}, PieceLen: 1}
	var at []time.Duration
	for m := time.Duration(0); m < 12*sec; m += vrt.Pick(230*ms, 70*ms) {
		at = append(at, m)
	}
	vrt.Explore(t, vrt.Opts{Section: "a slow disk", Bubble: true}, func(x *vrt.X) {
		l := vrt.Of(x, "layout", small, multi, blocks, many)
		m := at[x.Choose(len(at), "moment")]
		way := x.Choose(len(ways), "way")
		disk := vrt.Of(x, "write", 25*ms, 350*ms, 1200*ms, 4*sec)
		if l == many && disk > 25*ms {
			x.Outcome("left out")
			return
		}
		two := x.Bool("two seeds")
		d := start(x, scenario{"slow disk", l, func(d *D) {
			seed(d, p0, "")
			if two {
				seed(d, p1, "")
			}
			udp(d, p0, p1)
		}, false, false}, 2)
		d.disk = disk
		d.trace += fmt.Sprintf(", a write takes %v, %s at %v, %+v, %v", disk, ways[way], m, *l, two)
		d.Go()
		d.Wait(m)
		own := d.Finished()
		d.do(way)
		d.returned()
		d.M.Stop()
		d.clean()
		x.Outcome(l.PieceLen, way, disk, m, own, two)
	})
}

// Stopped before it is started, or never started.
func TestNever(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "before the start", Bubble: true}, func(x *vrt.X) {
		sc := scenarios[x.Choose(len(scenarios), "scenario")]
		way := x.Choose(len(ways), "way")
		run := x.Bool("start after")
		d := start(x, sc, 2)
		d.trace += fmt.Sprintf(", %s before the start, started: %v", ways[way], run)
		if p, st := vrt.Try(func() { d.do(way) }); p != nil {
			x.Fail("stop", "stopping a download that was not started crashes: %v (%s)\n%s", p, d.trace, st)
		}
		if run {
			d.Go()
			d.returned()
		}
		if n := len(d.Net.Dials()); n > 0 && !run {
			x.Fail("dial", "%d dials of a download that never started (%s)", n, d.trace)
		}
		d.M.Stop()
		d.clean()
		x.Outcome(sc.name, way, run, len(d.Net.Dials()))
	})
}

// Stopped at every step of the program.
func TestSteps(t *testing.T) {
	steps(t, "at every step", vrt.Pick(1, 2), "seed", "two seeds", "seed and silent peer", "peer: refuses 0", "peer: flapping choke 0",
		"peer: corrupt answer 0", "udp tracker fails 4", "nobody")
}

// Stopped at every step, and then every step delayed.
func TestDelays(t *testing.T) {
	steps(t, "at every step, then a delay", vrt.Pick(2, 3), "two pieces")
}

func steps(t *testing.T, section string, devs int, names ...string) {
	var scs []scenario
	for _, n := range names {
		for _, s := range scenarios {
			if s.name == n {
				scs = append(scs, s)
			}
		}
	}
	vrt.Explore(t, vrt.Opts{Section: section, Bubble: true, DevBound: devs, ShardDepth: 3}, func(x *vrt.X) {
		sc := scs[x.Choose(len(scs), "scenario")]
		way := x.Choose(3, "way")
		part := x.Choose(16, "part") // the steps at which it may be stopped
		d := start(x, sc, 2)
		d.trace += ", " + ways[way] + " at some step"
		s := vsched.New(x, vsched.Opts{Delay: true})
		s.Spawn("download", func() { d.Err = d.M.Download(d.Ctx); close(d.Done) })
		var fired atomic.Bool
		s.SpawnLow("stopper", func() {
			fired.Store(true)
			d.do(way)
		})
		s.Hold = func() bool { return !fired.Load() } // other orders only once it was stopped
		var over atomic.Bool
		step := 0
		s.Low = func() bool { step++; return step%16 == part && !over.Load() }
		var late *time.Timer
		end := time.AfterFunc(vrt.Pick(4*sec, 12*sec), func() { over.Store(true); d.Cancel() })
		s.Idle = func() {
			if fired.Load() && late == nil {
				end.Stop()
				late = time.AfterFunc(bound, func() {
					x.Fail("hangs", "the download has not returned %v after it was stopped (%s)", bound, d.trace)
				})
			}
		}
		s.Run(d.Finished)
		d.stored() // now, not when what is left has run
		end.Stop()
		if late != nil {
			late.Stop()
		}
		s.Stop()
		d.M.Stop()
		d.clean()
		x.Outcome(sc.name, way, fired.Load(), len(d.Net.Dials()))
	})
}
