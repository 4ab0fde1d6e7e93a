package c30

import (
	"fmt"
	"os"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C30") }

const (
	sec  = time.Second
	half = "10.6.0.1:6881"
	bad0 = "10.6.0.2:6881"
	bad1 = "10.6.0.3:6882"
	trk  = "10.0.0.9:1"
	trk2 = "10.0.0.8:80"
)

var lay = &vtor.Layout{Name: "d", Files: []vtor.File{{"a", 5}, {"x/b", 1}, {"x/c", 8}}, PieceLen: 4}

var layBlocks = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 7 * 128 << 10}}, PieceLen: 3 * 128 << 10}

// want is what the client holds at one moment.
type want struct {
	gor, fds int
	heap     uint64
	tcp, udp int
}

func (w want) String() string {
	return fmt.Sprintf("%d goroutines, %d files, %d TCP and %d UDP connections, %d KiB", w.gor, w.fds, w.tcp, w.udp, w.heap>>10)
}

func sample(w *vswarm.W, heap bool) want {
	synctest.Wait()
	w.Net.Forget()
	w.Out.Forget()
	s := want{gor: runtime.NumGoroutine()}
	if e, err := os.ReadDir("/proc/self/fd"); err == nil {
		s.fds = len(e)
	}
	for _, c := range w.Net.Open() {
		if c.Network == "udp" {
			s.udp++
		} else {
			s.tcp++
		}
	}
	if heap {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		s.heap = m.HeapAlloc
	}
	return s
}

// least is the least of each kind.
func (w want) least(o want) want {
	return want{min(w.gor, o.gor), min(w.fds, o.fds), min(w.heap, o.heap), min(w.tcp, o.tcp), min(w.udp, o.udp)}
}

// over says whether any of it is more than o.
func (w want) over(o want, heap bool) bool {
	return w.gor > o.gor || w.fds > o.fds || w.tcp > o.tcp || w.udp > o.udp || heap && w.heap > o.heap
}

// watch lets the download run for n intervals of a minute after a first part of the same length and compares: what
// is held for good shows in the least seen in each part.
func watch(w *vswarm.W, n, limit, trackers int, heap bool, forget func(), what string) want {
	part := func() want {
		var lo want
		for i := 0; i < n; i++ {
			time.Sleep(20 * sec)
			a := sample(w, false)
			time.Sleep(40*sec + time.Duration(i%7)*sec)
			forget()
			b := sample(w, heap && i > n-4)
			if b.heap == 0 {
				b.heap = 1 << 62
			}
			a.heap = b.heap
			for _, s := range []want{a, b} {
				if s.tcp > limit+trackers || s.udp > trackers {
					w.X.Fail("connections", "%v held with at most %d peers and %d trackers (%s)", s, limit, trackers, what)
				}
			}
			if i == 0 {
				lo = a
			}
			lo = lo.least(a).least(b)
		}
		return lo
	}
	part()
	one := part()
	two := part()
	if w.Finished() {
		w.X.Fail("returned", "an incomplete download that nobody cancelled has returned (%s)", what)
	}
	slack := max(3, n/4) - 1
	room := func(s want) want {
		return want{s.gor + slack, s.fds + slack, s.heap + uint64(n)<<9, s.tcp + slack, s.udp + slack}
	}
	// A leak goes on at the same pace; a cache that has grown once does not.
	for k, prev := 0, one; ; k++ {
		if !two.over(room(prev), heap) {
			return two
		}
		if k == 3 {
			break
		}
		prev = two
		two = part()
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	w.X.Fail("piles up", "what the download holds piles up: %v, and %d minutes later %v (%s)\n%s", one, 4*n, two, what, buf)
	return two
}

// halfSeed offers all but the last piece.
func halfSeed(r *vswarm.Remote, last int) {
	r.Msg = func(rc *vswarm.RC, m vnet.M) {
		if m.ID == 2 && !m.Keep && !rc.Greet {
			rc.Greet = true
			for i := 0; i < last; i++ {
				rc.Send(vnet.Have(uint32(i)))
			}
			rc.Send(vnet.Unchoke())
			return
		}
		rc.Seed(m)
	}
}

// open makes the last piece one that nobody can deliver, so that the download never ends.
func open(x *vrt.X, l *vtor.Layout, announce string, list [][]string, limit int) *vswarm.W {
	c := *l
	c.Announce, c.List = announce, list
	h := c.Hashes()
	h[len(h)-1] ^= 1
	return vswarm.NewH(x, &c, h, limit)
}

func trackers(w *vswarm.W, kind, every int, addrs []string) *vswarm.Tracker {
	switch kind {
	case 0:
		return w.UDP(trk, func(int) vswarm.UReply { return vswarm.UReply{Interval: uint32(every), Addrs: addrs} })
	case 1:
		return w.HTTP(trk2, func(int, string) vswarm.TReply {
			return vswarm.TReply{Status: 200, Body: vswarm.List(every, addrs...)}
		})
	default:
		return w.HTTP(trk2, func(int, string) vswarm.TReply {
			return vswarm.TReply{Status: 200, Keep: true, Body: vswarm.List(every, addrs...)}
		})
	}
}

func url(kind int) string {
	if kind == 0 {
		return "udp://" + trk
	}
	return "http://" + trk2 + "/announce"
}

var seconds = []vswarm.Bad{{Name: "refuses"}, {Name: "corrupt answer"}, {Name: "handshake only"}, {Name: "wrong hash"}, {Name: "ends after request"},
	{Name: "black hole"}, {Name: "never unchokes"}, {Name: "silent after answer"}, {Name: "pushes everything"}, {Name: "huge prefix"}, {Name: "blocks our writes"}, {Name: "everything twice"}}

// Peers of every kind come and go.
func TestPeers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "peers that come and go", Bubble: true}, func(x *vrt.X) {
		b := vswarm.Bads[x.Choose(len(vswarm.Bads), "peer")]
		kind := x.Choose(3, "tracker")
		b2 := seconds[x.Choose(vrt.Pick(5, len(seconds)), "second")]
		limit := vrt.Of(x, "limit", 1, 3)
		l := vrt.Of(x, "layout", lay, layBlocks)
		every := vrt.Of(x, "interval", 60, 2)
		if (l == layBlocks || every == 2) && kind > 0 || l == layBlocks && every == 2 {
			x.Outcome("left out")
			return
		}
		w := open(x, l, url(kind), nil, limit)
		var rs []*vswarm.Remote
		rs = append(rs, w.Peer(half), w.Peer(bad0), w.Peer(bad1))
		halfSeed(rs[0], l.Pieces()-1)
		b.Install(rs[1])
		b2.Install(rs[2])
		tr := trackers(w, kind, every, []string{bad0, bad1, half})
		w.Go()
		what := fmt.Sprintf("%v and %v, tracker %d, limit %d, pieces of %d, every %d s", b, b2, kind, limit, l.PieceLen, every)
		end := watch(w, vrt.Pick(12, 40), limit, 1, true, func() {
			tr.Forget()
			for _, r := range rs {
				r.Forget()
			}
		}, what)
		w.End()
		x.Outcome(b, b2, kind, limit, l.PieceLen, every, end.gor, end.tcp, end.udp)
	})
}

// Trackers fail in every way, over and over.
func TestTrackers(t *testing.T) {
	type tk struct {
		name string
		url  string
		set  func(w *vswarm.W, addr string) *vswarm.Tracker
	}
	u := func(k int) tk {
		return tk{fmt.Sprint("udp ", k), "udp://%s", func(w *vswarm.W, a string) *vswarm.Tracker {
			return w.UDP(a, func(n int) vswarm.UReply { return vswarm.UReply{Kind: k, Interval: 60, Addrs: []string{bad0}} })
		}}
	}
	h := func(name string, f func(n int) vswarm.TReply) tk {
		return tk{"http " + name, "http://%s/announce", func(w *vswarm.W, a string) *vswarm.Tracker {
			return w.HTTP(a, func(n int, _ string) vswarm.TReply { return f(n) })
		}}
	}
	ok := vswarm.List(60, bad0)
	kinds := []tk{u(0), u(1), u(2), u(3), u(4), u(5),
		h("good", func(int) vswarm.TReply { return vswarm.TReply{Status: 200, Body: ok} }),
		h("keep-alive", func(int) vswarm.TReply { return vswarm.TReply{Status: 200, Body: ok, Keep: true} }),
		h("refuses", func(int) vswarm.TReply { return vswarm.TReply{Status: 403, Body: []byte("no")} }),
		h("refuses, keep-alive", func(int) vswarm.TReply { return vswarm.TReply{Status: 500, Body: []byte("no"), Keep: true} }),
		h("junk", func(int) vswarm.TReply { return vswarm.TReply{Status: 200, Body: []byte("<html>")} }),
		h("junk, keep-alive", func(int) vswarm.TReply { return vswarm.TReply{Status: 200, Body: []byte("<html>"), Keep: true} }),
		h("failure, keep-alive", func(int) vswarm.TReply {
			return vswarm.TReply{Status: 200, Body: []byte("d14:failure reason4:busye"), Keep: true}
		}),
		h("resets", func(int) vswarm.TReply { return vswarm.TReply{Status: -1} }),
		h("silent", func(int) vswarm.TReply { return vswarm.TReply{} }),
		h("slow", func(int) vswarm.TReply { return vswarm.TReply{Status: 200, Body: ok, Keep: true, After: 20 * sec} }),
		h("in turn", func(n int) vswarm.TReply {
			return []vswarm.TReply{{Status: 200, Body: ok, Keep: true}, {Status: 404, Keep: true}, {Status: -1}, {Status: 200, Body: []byte("d"), Keep: true}}[n%4]
		}),
	}
	vrt.Explore(t, vrt.Opts{Section: "trackers that fail over and over", Bubble: true}, func(x *vrt.X) {
		a := kinds[x.Choose(len(kinds), "first")]
		b := kinds[x.Choose(len(kinds), "second")]
		p := vrt.Of(x, "peer", vswarm.Bad{Name: "refuses"}, vswarm.Bad{Name: "wrong hash"}, vswarm.Bad{Name: "ends after request"})
		w := open(x, lay, fmt.Sprintf(a.url, trk), [][]string{{fmt.Sprintf(b.url, trk2)}}, 2)
		ta, tb := a.set(w, trk), b.set(w, trk2)
		r := w.Peer(bad0)
		p.Install(r)
		w.Go()
		what := fmt.Sprintf("trackers %s and %s, %v", a.name, b.name, p)
		end := watch(w, vrt.Pick(12, 40), 2, 2, true, func() {
			r.Forget()
			ta.Forget()
			tb.Forget()
		}, what)
		w.End()
		x.Outcome(a.name, b.name, p, end.gor, end.tcp, end.udp)
	})
}

// Trackers name many peers every time.
func TestLists(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "long lists", Bubble: true}, func(x *vrt.X) {
		num := vrt.Of(x, "peers", 50, 500, 3000)
		kind := x.Choose(3, "tracker")
		b := vrt.Of(x, "peer", vswarm.Bad{Name: "refuses"}, vswarm.Bad{Name: "wrong hash"}, vswarm.Bad{Name: "ends after request"}, vswarm.Bad{Name: "never unchokes"}, vswarm.Bad{Name: "corrupt answer"})
		limit := vrt.Of(x, "limit", 1, 20)
		w := open(x, lay, url(kind), nil, limit)
		var addrs []string
		var rs []*vswarm.Remote
		for i := 0; i < num; i++ {
			a := fmt.Sprintf("10.7.%d.%d:%d", i/250, i%250+1, 1+i%7)
			addrs = append(addrs, a)
			w.Net.Touch(a)
			r := w.Peer(a)
			b.Install(r)
			rs = append(rs, r)
		}
		tr := trackers(w, kind, 60, addrs)
		w.Go()
		what := fmt.Sprintf("%d peers of the kind %v, tracker %d, limit %d", num, b, kind, limit)
		end := watch(w, vrt.Pick(12, 40), limit, 1, true, func() {
			tr.Forget()
			for _, r := range rs {
				r.Forget()
			}
		}, what)
		w.End()
		x.Outcome(num, kind, b, limit, end.gor, end.tcp, end.udp)
	})
}
