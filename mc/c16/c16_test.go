package c16

import (
	"fmt"
	"net/netip"
	"regexp"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C16") }

var layout = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 4}}, PieceLen: 4}

var addrs = []string{"10.5.0.1:1", "10.5.0.2:1", "10.5.0.1:2", "[2001:db8::1]:1", "10.5.0.3:7", "10.5.0.4:7"}

func mk(w *vswarm.W, a int) *peer.Peer {
	return peer.NewPeer(netip.MustParseAddrPort(addrs[a]), w.T, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 1), zap.NewNop())
}

// All sequences of additions.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of additions", Bubble: true}, func(x *vrt.X) {
		limit := x.Choose(5, "limit")
		as := make([]int, vrt.Pick(5, 6))
		for k := range as {
			as[k] = x.Choose(5, "address")
		}
		w := vswarm.New(x, layout, limit)
		in := map[int]bool{}
		trace := ""
		for _, a := range as {
			got := w.M.AddPeer(mk(w, a))
			want := !in[a] && len(in) < limit
			trace += fmt.Sprintf("%s %v; ", addrs[a], got)
			if got != want {
				x.Fail("accepted", "limit %d, a peer is accepted: %v instead of %v (%s)", limit, got, want, trace)
			}
			if got {
				in[a] = true
			}
		}
		w.M.Stop()
		w.Release()
		x.Outcome(limit, trace)
	})
}

// All interleavings of deliverers with overlapping addresses.
func TestThreads(t *testing.T) {
	lists := [][]int{{0, 1}, {1, 0}, {0}, {0, 0}, {1, 2}, {2, 0, 1}}
	vrt.Explore(t, vrt.Opts{Section: "interleavings of additions", Bubble: true, DevBound: vrt.Pick(2, 3), ShardDepth: 3}, func(x *vrt.X) {
		limit := x.Choose(4, "limit")
		n := 2 + x.Choose(2, "deliverers")
		ls := make([]int, n)
		for i := range ls {
			nl := len(lists)
			if n == 3 {
				nl = vrt.Pick(4, nl)
			}
			ls[i] = x.Choose(nl, "list")
			if i > 0 && ls[i] < ls[i-1] {
				x.Outcome("symmetric")
				return
			}
		}
		w := vswarm.New(x, layout, limit)
		s := vsched.New(x, vsched.Opts{})
		acc := make([]int, len(addrs)) // no map: the race detector would see it
		total := 0
		distinct := map[int]bool{}
		trace := ""
		for i, l := range ls {
			var ps []*peer.Peer
			for _, a := range lists[l] {
				distinct[a] = true
				ps = append(ps, mk(w, a))
			}
			s.Spawn(fmt.Sprint(i), func() {
				for k, p := range ps {
					if w.M.AddPeer(p) {
						a := lists[l][k]
						acc[a]++
						total++
						trace += fmt.Sprintf("%d accepts %s; ", i, addrs[a])
						if acc[a] > 1 {
							x.Fail("twice", "%s is accepted twice (limit %d, %s)", addrs[a], limit, trace)
						}
						if total > limit {
							x.Fail("limit", "%d peers are accepted, the limit is %d (%s)", total, limit, trace)
						}
					}
				}
			})
		}
		s.Run(nil)
		s.Stop()
		if want := min(limit, len(distinct)); total != want {
			x.Fail("room", "%d of %d addresses are accepted, the limit is %d (%s)", total, len(distinct), limit, trace)
		}
		w.M.Stop()
		w.Release()
		x.Outcome(limit, ls, trace)
	})
}

var shown = regexp.MustCompile(`peers \((\d+)\)`)

// reported is the number of peers on the display.
func reported(w *vswarm.W) int {
	m := shown.FindAllStringSubmatch(w.Out.Last(), -1)
	if len(m) == 0 {
		return -1
	}
	n, err := strconv.Atoi(m[len(m)-1][1])
	if err != nil {
		return 1 << 40
	}
	return n
}

// watch fails as soon as too many connections are open.
func watch(w *vswarm.W, limit int, trackers map[string]bool, trace *string) {
	var mu sync.Mutex
	open := map[string]int{}
	total := 0
	w.Net.OnOpen = func(_ int, c *vnet.Conn) {
		if c.Network != "tcp" || trackers[c.Addr] {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		open[c.Addr]++
		total++
		c.OnClose = func(c *vnet.Conn) {
			mu.Lock()
			defer mu.Unlock()
			open[c.Addr]--
			total--
		}
		if open[c.Addr] > 1 {
			w.X.Fail("twice", "two connections to %s are open (%s)", c.Addr, *trace)
		}
		if total > limit {
			w.X.Fail("limit", "%d connections are open, the limit is %d (%s)", total, limit, *trace)
		}
	}
}

const sec = time.Second

// peers that stay, or end in one of several ways
const (
	stays = iota
	refuses
	badShake
	leaves // after 3 s
	leavesNow
	silent // no handshake
	nPeer
)

func behave(r *vswarm.Remote, kind int) {
	r.Msg = func(rc *vswarm.RC, m vnet.M) {}
	switch kind {
	case refuses:
		r.Accept = func(*vswarm.RC) error { return vnet.ErrRefused }
	case badShake:
		r.Hello = func(rc *vswarm.RC) { rc.C.Push(make([]byte, 68)) }
	case leaves:
		r.Msg = func(rc *vswarm.RC, m vnet.M) {
			if len(rc.Msgs) == 1 {
				time.AfterFunc(3*sec, rc.Drop)
			}
		}
	case leavesNow:
		r.Hello = func(rc *vswarm.RC) { rc.Hello(); rc.Drop() }
	case silent:
		r.Hello = func(rc *vswarm.RC) {}
	}
}

// A tracker delivers lists of peers, all sequences; the peers stay or end.
func TestDeliveries(t *testing.T) {
	lists := [][]int{{}, {0, 1}, {1, 2, 0}, {0, 0, 4}, {2, 4, 5, 1, 0}}
	vrt.Explore(t, vrt.Opts{Section: "deliveries", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		limit := x.Choose(4, "limit")
		k0 := x.Choose(nPeer, "first peer")
		k1 := x.Choose(nPeer, "second peer")
		rounds := vrt.Pick(3, 4)
		seq := make([]int, rounds)
		for i := range seq {
			seq[i] = x.Choose(len(lists), "list")
		}
		l := *layout
		l.Announce = "http://10.0.0.9/announce"
		w := vswarm.New(x, &l, limit)
		trace := fmt.Sprintf("limit %d, lists %v, peers %d %d", limit, seq, k0, k1)
		watch(w, limit, map[string]bool{"10.0.0.9:80": true}, &trace)
		kinds := []int{k0, k1, stays, stays, stays, leaves}
		rs := make([]*vswarm.Remote, len(addrs))
		for i, a := range addrs {
			rs[i] = w.Peer(a)
			behave(rs[i], kinds[i])
		}
		alive := map[int]bool{} // expected: staying peers in the pool
		tr := w.HTTP("10.0.0.9:80", func(n int, _ string) vswarm.TReply {
			var as []string
			if n < rounds {
				for _, a := range lists[seq[n]] {
					as = append(as, addrs[a])
				}
			}
			return vswarm.TReply{Status: 200, Body: vswarm.List(60, as...)}
		})
		w.Go()
		for n := 0; n < rounds; n++ {
			if !tr.Next(n, 2*time.Minute) {
				x.Fail("announce", "no announce %d", n)
			}
			before := make([]int, len(addrs))
			for i := range rs {
				before[i] = len(rs[i].Conns)
			}
			_ = before
			time.Sleep(50 * sec) // everything that ends has ended
			synctest.Wait()
			// accepted in the order of the list
			pool := map[int]bool{}
			for a := range alive {
				pool[a] = true
			}
			for _, a := range lists[seq[n]] {
				if !pool[a] && len(pool) < limit {
					pool[a] = true
					if kinds[a] == stays {
						alive[a] = true
					}
					if len(rs[a].Conns) == before[a] && !dialled(w, addrs[a], tr.Times[n]) {
						x.Fail("not-accepted", "%s was delivered, not in the pool, and there was room, but it was not connected to (round %d, %s)", addrs[a], n, trace)
					}
				} else if !pool[a] && dialled(w, addrs[a], tr.Times[n]) {
					x.Fail("accepted", "%s is connected to although there is no room (round %d, %s)", addrs[a], n, trace)
				}
			}
			open := 0
			for _, c := range w.Net.Open() {
				if c.Network == "tcp" && c.Addr != "10.0.0.9:80" {
					open++
				}
			}
			if open != len(alive) {
				x.Fail("open", "%d connections are open, %d peers are in the pool (round %d, %s)", open, len(alive), n, trace)
			}
			if r := reported(w); r != len(alive) {
				x.Fail("reported", "%d peers are reported, %d are in the pool (round %d, %s)", r, len(alive), n, trace)
			}
		}
		w.End()
		x.Outcome(trace, len(alive))
	})
}

// dialled says whether the address was dialled from the given moment on.
func dialled(w *vswarm.W, addr string, from time.Duration) bool {
	for _, d := range w.Net.Dials() {
		if d.Addr == addr && d.At.Sub(w.Start) >= from {
			return true
		}
	}
	return false
}

func chain(f func(*vnet.Conn), g func(int, *vnet.Conn)) func(int, *vnet.Conn) {
	return func(n int, c *vnet.Conn) { f(c); g(n, c) }
}

// Two and three trackers deliver overlapping lists at the same moment, under every order of the
// steps of the manager up to a number of delays.
func TestTrackers(t *testing.T) {
	lists := [][]string{{addrs[0], addrs[1]}, {addrs[1], addrs[0]}, {addrs[0]}, {addrs[4], addrs[0]}}
	vrt.Explore(t, vrt.Opts{Section: "trackers at once", Bubble: true, DevBound: vrt.Pick(1, 2), ShardDepth: 3}, func(x *vrt.X) {
		limit := 1 + x.Choose(vrt.Pick(2, 3), "limit")
		a := x.Choose(len(lists), "list")
		b := x.Choose(len(lists), "list")
		ends := x.Choose(3, "peers")
		l := *layout
		l.Announce = "udp://10.0.0.8:1"
		l.List = [][]string{{"udp://10.0.0.9:1"}}
		w := vswarm.New(x, &l, limit)
		trace := fmt.Sprintf("limit %d, lists %v %v", limit, lists[a], lists[b])
		watch(w, limit, nil, &trace)
		distinct := map[string]bool{}
		for _, ad := range append(append([]string{}, lists[a]...), lists[b]...) {
			distinct[ad] = true
		}
		for _, ad := range addrs {
			behave(w.Peer(ad), []int{stays, leavesNow, refuses}[ends])
		}
		w.UDP("10.0.0.8:1", func(int) vswarm.UReply { return vswarm.UReply{Interval: 1000, Addrs: lists[a]} })
		w.UDP("10.0.0.9:1", func(int) vswarm.UReply { return vswarm.UReply{Interval: 1000, Addrs: lists[b]} })
		s := vsched.New(x, vsched.Opts{Delay: true})
		// trackers are started in the order of a map; the lists are swapped in another execution
		first := map[string]string{}
		var mu sync.Mutex
		w.Net.OnOpen = chain(func(c *vnet.Conn) {
			mu.Lock()
			defer mu.Unlock()
			if c.Network == "udp" {
				first[c.Addr] = vsched.Name()
				if a, b := first["10.0.0.8:1"], first["10.0.0.9:1"]; a != "" && b != "" && a > b {
					x.Again()
				}
			}
		}, w.Net.OnOpen)
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		timer := time.AfterFunc(20*sec, func() {
			open := 0
			for _, c := range w.Net.Open() {
				if c.Network == "tcp" {
					open++
				}
			}
			want := 0
			if ends == 0 {
				want = min(limit, len(distinct))
			}
			if open != want {
				x.Fail("open", "%d connections are open instead of %d (%s)", open, want, trace)
			}
			if r := reported(w); r != want {
				x.Fail("reported", "%d peers are reported instead of %d (%s)", r, want, trace)
			}
			w.Cancel()
		})
		s.Run(w.Finished)
		timer.Stop()
		s.Stop()
		w.End()
		x.Outcome(trace, ends)
	})
}

// A peer ends at the moment the tracker delivers it again.
func TestAgain(t *testing.T) {
	lists := [][]string{{addrs[0]}, {addrs[0], addrs[1]}, {addrs[1], addrs[0]}}
	vrt.Explore(t, vrt.Opts{Section: "ends while delivered again", Bubble: true, DevBound: vrt.Pick(1, 2), ShardDepth: 3}, func(x *vrt.X) {
		limit := 1 + x.Choose(2, "limit")
		list := lists[x.Choose(len(lists), "list")]
		how := x.Choose(4, "end")
		again(x, limit, list, how, 3)
	})
	vrt.Explore(t, vrt.Opts{Section: "ends while delivered again, more delays", Bubble: true, DevBound: vrt.Pick(4, 6), ShardDepth: 2}, func(x *vrt.X) {
		again(x, 1+x.Choose(2, "limit"), lists[0], x.Choose(4, "end"), 2)
	})
}

func again(x *vrt.X, limit int, list []string, how, rounds int) {
	{
		l := *layout
		l.Announce = "udp://10.0.0.8:1"
		w := vswarm.New(x, &l, limit)
		trace := fmt.Sprintf("limit %d, list %v, end %d", limit, list, how)
		watch(w, limit, nil, &trace)
		r := w.Peer(addrs[0])
		behave(r, stays)
		behave(w.Peer(addrs[1]), stays)
		var at atomic.Int64
		w.UDP("10.0.0.8:1", func(n int) vswarm.UReply {
			if n == 1 {
				at.Store(int64(time.Since(w.Start)))
			}
			if n > 0 && n < rounds && len(r.Conns) > 0 {
				rc := r.Conns[len(r.Conns)-1]
				switch how {
				case 0:
					rc.Drop()
				case 1:
					rc.Closed = true
					rc.C.Reset()
				case 2: // no message at all
					rc.Send([]byte{0xff, 0xff, 0xff, 0xff, 9})
				case 3:
					time.AfterFunc(0, rc.Drop)
				}
			}
			if n >= rounds {
				return vswarm.UReply{Interval: 1000}
			}
			return vswarm.UReply{Interval: 3, Addrs: list}
		})
		s := vsched.New(x, vsched.Opts{Delay: true})
		if rounds == 2 { // only the moment of the second delivery
			s.Hold = func() bool { return at.Load() == 0 || int64(time.Since(w.Start)) != at.Load() }
		}
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		timer := time.AfterFunc(time.Duration(3*rounds+2)*sec, func() {
			open := 0
			for _, c := range w.Net.Open() {
				if c.Network == "tcp" {
					open++
				}
			}
			if r := reported(w); r != open {
				x.Fail("reported", "%d peers are reported, %d connections are open (%s)", r, open, trace)
			}
			w.Cancel()
		})
		s.Run(w.Finished)
		timer.Stop()
		s.Stop()
		w.End()
		x.Outcome(trace, len(r.Conns))
	}
}
