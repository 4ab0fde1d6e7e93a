package c14

import (
	"fmt"
	"math/rand"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C14") }

const (
	sec = time.Second
	ms  = time.Millisecond
	B   = 128 * 1024
)

var layouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 10}}, PieceLen: 4},
	{Name: "d", Files: []vtor.File{{"a", 5}, {"e", 0}, {"x/b", 1}, {"x/c", 5}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 9}}, PieceLen: 1},
	{Name: "one", Single: true, Files: []vtor.File{{Len: 3}}, PieceLen: 8},
	// pieces of several blocks
	{Name: "t", Single: true, Files: []vtor.File{{Len: 3*B + 5}}, PieceLen: 2 * B},
	{Name: "d", Files: []vtor.File{{"a", B - 1}, {"b", B + 2}, {"c", B / 2}}, PieceLen: B + 1},
}

type bad = vswarm.Bad

var (
	bads  = vswarm.Bads
	seeds = vswarm.Seeds
)

const (
	seedA = "10.6.0.1:6881"
	bad0  = "10.6.0.2:6881"
	bad1  = "10.6.0.3:6882"
	bad2  = "10.6.0.4:1"
	trk   = "10.0.0.9:1"
)

func open(x *vrt.X, l *vtor.Layout, limit int) *vswarm.W {
	c := *l
	c.Announce = "udp://" + trk
	return vswarm.New(x, &c, limit)
}

// tracker delivers first, then later twice, then only the seed, every minute. (The others have
// finitely many faults: peers that take every piece, stall, and come back each time for ever can keep
// a seed from its turn for as long as they like.)
func tracker(w *vswarm.W, first, later []string) *vswarm.Tracker {
	return w.UDP(trk, func(n int) vswarm.UReply {
		switch {
		case n == 0:
			return vswarm.UReply{Interval: 60, Addrs: first}
		case n < 3:
			return vswarm.UReply{Interval: 60, Addrs: later}
		}
		return vswarm.UReply{Interval: 60, Addrs: []string{seedA}}
	})
}

// arrive: the seed comes first, last, or a minute later than the others.
func arrive(w *vswarm.W, how int, others ...string) {
	all := append(append([]string{}, others...), seedA)
	switch how {
	case 0:
		tracker(w, append([]string{seedA}, others...), all)
	case 1:
		tracker(w, all, all)
	default:
		tracker(w, others, all)
	}
}

// enough for every other peer to take and lose a piece for 30 s, one after the other, after each announce
var horizon = 4 * time.Hour

func finish(w *vswarm.W, trace string) {
	if !w.Wait(horizon) {
		missing := ""
		for i := 0; i < w.L.Pieces(); i++ {
			if why := w.L.Verify(w.Dir, func(j int) bool { return j == i }); why == "" {
				missing += fmt.Sprint(" ", i)
			}
		}
		w.X.Fail("stuck", "the download does not finish within %v although a seed answers everything (%s)%s", horizon, trace, missing)
	}
	judge(w, trace)
	w.End()
}

func judge(w *vswarm.W, trace string) {
	if w.Err != nil {
		w.X.Fail("error", "a finished download returns %v (%s)", w.Err, trace)
	}
	if why := w.L.Verify(w.Dir, nil); why != "" {
		w.X.Fail("content", "the download has returned, but %s (%s)", why, trace)
	}
	if !w.T.Done() {
		w.X.Fail("done", "the download has returned, but is not reported complete (%s)", trace)
	}
}

// One other peer.
func TestOne(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "a seed and one other peer", Bubble: true}, func(x *vrt.X) {
		b := bads[x.Choose(len(bads), "other")]
		how := x.Choose(3, "arrival")
		sd := seeds[x.Choose(len(seeds), "seed")]
		l := layouts[x.Choose(4, "layout")]
		w := open(x, l, 2+x.Choose(2, "room"))
		vswarm.InstallSeed(w.Peer(seedA), sd)
		b.Install(w.Peer(bad0))
		arrive(w, how, bad0)
		w.Go()
		finish(w, fmt.Sprintf("%v, arrival %d, seed %s, layout %+v", b, how, sd, *l))
		x.Outcome(b, how, sd, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// A seed that says something besides, once or again and again.
func TestChatty(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "a seed that says something besides", Bubble: true}, func(x *vrt.X) {
		l := layouts[vrt.Of(x, "layout", 0, 1, 4)]
		says := map[string][]byte{}
		what := ""
		add := func(ms []vnet.Named) {
			m, at := ms[x.Choose(len(ms), "message")], vswarm.Ats[x.Choose(len(vswarm.Ats), "when")]
			what += fmt.Sprintf("%s %s; ", m.N, at)
			says[at] = append(says[at], m.B...)
		}
		ms := vnet.Harmless(l.Pieces())
		// these are true, whenever they are said
		add(append(ms, vnet.Named{"unchoke", vnet.Unchoke()}, vnet.Named{"have", vnet.Have(uint32(l.Pieces() - 1))}))
		if x.Bool("another") {
			if !vrt.Thorough() && l != layouts[0] {
				x.Outcome("left out")
				return
			}
			ms = vrt.Pick([]vnet.Named{ms[2], ms[3], ms[9]}, ms)
			add(ms)
		}
		w := open(x, l, 2)
		vswarm.InstallChatty(w.Peer(seedA), says)
		arrive(w, 1, bad0)
		w.Go()
		finish(w, fmt.Sprintf("%s layout %+v", what, *l))
		x.Outcome(what, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// Pieces of several blocks.
func TestBlocks(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "pieces of several blocks", Bubble: true}, func(x *vrt.X) {
		b := bads[x.Choose(len(bads), "other")]
		how := x.Choose(3, "arrival")
		sd := seeds[vrt.Of(x, "seed", vrt.Pick([]int{1, 5}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8})...)]
		l := layouts[4+x.Choose(2, "layout")]
		w := open(x, l, 2)
		vswarm.InstallSeed(w.Peer(seedA), sd)
		b.Install(w.Peer(bad0))
		arrive(w, how, bad0)
		w.Go()
		finish(w, fmt.Sprintf("%v, arrival %d, seed %s, layout %+v", b, how, sd, *l))
		x.Outcome(b, how, sd, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// Two other peers, all pairs.
func TestTwo(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "a seed and two other peers", Bubble: true}, func(x *vrt.X) {
		i := x.Choose(len(bads), "other")
		j := x.Choose(len(bads), "other")
		how := 1 + x.Choose(2, "arrival")
		sd := seeds[vrt.Of(x, "seed", vrt.Pick([]int{0, 1}, []int{0, 1, 5, 7})...)]
		l := layouts[vrt.Of(x, "layout", vrt.Pick([]int{0, 1}, []int{0, 1, 2})...)]
		w := open(x, l, 3)
		vswarm.InstallSeed(w.Peer(seedA), sd)
		bads[i].Install(w.Peer(bad0))
		bads[j].Install(w.Peer(bad1))
		arrive(w, how, bad0, bad1)
		w.Go()
		finish(w, fmt.Sprintf("%v and %v, arrival %d, seed %s, layout %+v", bads[i], bads[j], how, sd, *l))
		x.Outcome(i, j, how, sd, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// Three other peers of the kinds that take a piece and do not give it.
func TestThree(t *testing.T) {
	var ks []bad
	for _, b := range bads {
		switch b.Name {
		case "silent after answer", "chokes after answer", "corrupt answer", "ends after request", "flapping choke", "short answer", "another piece", "answers in 31 s":
			if b.K < vrt.Pick(1, 2) {
				ks = append(ks, b)
			}
		}
	}
	vrt.Explore(t, vrt.Opts{Section: "a seed and three other peers", Bubble: true}, func(x *vrt.X) {
		i, j, k := x.Choose(len(ks), "other"), x.Choose(len(ks), "other"), x.Choose(len(ks), "other")
		how := x.Choose(3, "arrival")
		sd := seeds[vrt.Of(x, "seed", 0, 1, 5)]
		l := layouts[vrt.Of(x, "layout", vrt.Pick([]int{1}, []int{0, 1, 2, 3})...)]
		w := open(x, l, 4)
		vswarm.InstallSeed(w.Peer(seedA), sd)
		ks[i].Install(w.Peer(bad0))
		ks[j].Install(w.Peer(bad1))
		ks[k].Install(w.Peer(bad2))
		arrive(w, how, bad0, bad1, bad2)
		w.Go()
		finish(w, fmt.Sprintf("%v, %v and %v, arrival %d, seed %s, layout %+v", ks[i], ks[j], ks[k], how, sd, *l))
		x.Outcome(i, j, k, how, sd, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// Many other peers of one kind or of all kinds together.
func TestMany(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many other peers", Bubble: true}, func(x *vrt.X) {
		i := x.Choose(len(bads)+1, "others")
		how := x.Choose(3, "arrival")
		n := vrt.Of(x, "number", 3, 12, len(bads))
		l := layouts[x.Choose(3, "layout")]
		w := open(x, l, n+1)
		vswarm.InstallSeed(w.Peer(seedA), seeds[1])
		var as []string
		for k := 0; k < n; k++ {
			a := fmt.Sprintf("10.7.0.%d:7", k+1)
			as = append(as, a)
			if i < len(bads) {
				bads[i].Install(w.Peer(a))
			} else {
				bads[k%len(bads)].Install(w.Peer(a))
			}
		}
		arrive(w, how, as...)
		w.Go()
		finish(w, fmt.Sprintf("%d peers of kind %d, arrival %d, layout %+v", n, i, how, *l))
		x.Outcome(i, n, how, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// The seed itself fails for a while: the first connections to it go wrong.
func TestTransient(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "transient faults of the seed", Bubble: true}, func(x *vrt.X) {
		b := bads[x.Choose(len(bads), "fault")]
		n := 1 + x.Choose(3, "faulty connections")
		other := x.Choose(3, "other")
		l := layouts[vrt.Of(x, "layout", 0, 1, 4)]
		w := open(x, l, 3)
		r := w.Peer(seedA)
		b.Install(r)
		accept, hello, msg := r.Accept, r.Hello, r.Msg
		num := func(rc *vswarm.RC) int {
			for i, c := range r.Conns {
				if c == rc {
					return i
				}
			}
			return 0
		}
		r.Accept = func(rc *vswarm.RC) error {
			if accept == nil || num(rc) >= n {
				return nil
			}
			return accept(rc)
		}
		r.Hello = func(rc *vswarm.RC) {
			if hello == nil || num(rc) >= n {
				rc.Hello()
				return
			}
			hello(rc)
		}
		r.Msg = func(rc *vswarm.RC, m vnet.M) {
			if msg == nil || num(rc) >= n {
				rc.Seed(m)
				return
			}
			msg(rc, m)
		}
		as := []string{seedA}
		if other > 0 {
			bad{[]string{"", "silent after answer", "flapping choke"}[other], 1}.Install(w.Peer(bad0))
			as = append(as, bad0)
		}
		tracker(w, as, as)
		w.Go()
		// some faults leave the session running for ever: the seed does not answer then
		switch b.Name {
		case "handshake only", "never unchokes", "nothing to offer", "one piece only", "flapping choke", "chokes after answer":
			if !w.Wait(3 * time.Minute) {
				for _, rc := range r.Conns {
					rc.Drop()
				}
				n = len(r.Conns)
			}
		}
		finish(w, fmt.Sprintf("seed: %v on the first %d connections, other %d, layout %+v", b, n, other, *l))
		x.Outcome(b, n, other, l.PieceLen, w.DoneAt.Sub(w.Start))
	})
}

// The tracker fails for a while, or names addresses nobody answers at.
func TestTracker(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "transient faults of the tracker", Bubble: true}, func(x *vrt.X) {
		var kinds [3]int
		for i := range kinds {
			kinds[i] = x.Choose(6, "reply")
		}
		l := layouts[x.Choose(2, "layout")]
		w := open(x, l, 2)
		w.Peer(seedA)
		w.UDP(trk, func(n int) vswarm.UReply {
			if n < len(kinds) {
				return vswarm.UReply{Kind: kinds[n], Interval: 60, Addrs: []string{"10.9.9.9:1"}}
			}
			return vswarm.UReply{Interval: 60, Addrs: []string{"10.9.9.8:1", seedA}}
		})
		w.Go()
		if !w.Wait(4 * time.Hour) {
			x.Fail("stuck", "the download does not finish although tracker and seed answer (replies %v)", kinds)
		}
		judge(w, fmt.Sprint(kinds))
		w.End()
		x.Outcome(kinds, w.DoneAt.Sub(w.Start))
	})
}

// The tracker fails in the same way (or in two ways in turn) for a long while.
func TestTrackerLong(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "long lasting faults of the tracker", Bubble: true}, func(x *vrt.X) {
		k := 1 + x.Choose(5, "failure")
		k2 := 1 + x.Choose(5, "failure")
		times := 1 + x.Choose(vrt.Pick(23, 60), "times")
		w := open(x, layouts[0], 2)
		w.Peer(seedA)
		w.UDP(trk, func(n int) vswarm.UReply {
			if n < times {
				if n%2 == 1 {
					return vswarm.UReply{Kind: k2, Interval: 60}
				}
				return vswarm.UReply{Kind: k, Interval: 60}
			}
			return vswarm.UReply{Interval: 60, Addrs: []string{seedA}}
		})
		w.Go()
		if !w.Wait(48 * time.Hour) {
			x.Fail("stuck", "the download does not finish although tracker and seed answer again after %d failures %d, %d in turn", times, k, k2)
		}
		judge(w, fmt.Sprint(k, k2, times))
		w.End()
		x.Outcome(k, k2, times, w.DoneAt.Sub(w.Start))
	})
}

// Peers at addresses of all forms, delivered in every form a tracker has.
func TestAddresses(t *testing.T) {
	addrs := []string{"1.2.3.4:1", "255.254.253.252:65535", "10.6.0.1:80", "10.6.0.1:256", "10.6.0.1:255", "127.0.0.1:6881", "100.64.0.1:51413", "223.1.2.3:2", "10.0.0.1:32768", "128.128.128.128:32767",
		"[2001:db8::7]:6881", "[2001:db8:1:2:3:4:5:6]:1", "[::1]:65535", "[fd00::1]:80", "[::ffff:10.6.0.9]:6881", "[2001:db8::a00:1]:10"}
	kinds := []bad{{"refuses", 0}, {"black hole", 0}, {"silent after answer", 0}, {"corrupt answer", 1}, {"none", 0}}
	vrt.Explore(t, vrt.Opts{Section: "addresses", Bubble: true}, func(x *vrt.X) {
		sd := addrs[x.Choose(len(addrs), "seed")]
		other := addrs[x.Choose(len(addrs), "other")]
		form := x.Choose(4, "form")
		v6 := sd[0] == '[' || other[0] == '['
		if sd == other || v6 && form != 2 {
			x.Outcome("left out")
			return
		}
		b := kinds[x.Choose(len(kinds), "kind")]
		first := x.Choose(2, "order")
		c := *layouts[0]
		c.Announce = "udp://" + trk
		if form > 0 {
			c.Announce = "http://" + trk + "/announce"
		}
		w := vswarm.New(x, &c, 2)
		w.Peer(sd)
		b.Install(w.Peer(other))
		list := []string{other, sd}
		if first == 1 {
			list = []string{sd, other}
		}
		dict := func() []byte {
			l := vben.L()
			for _, a := range list {
				ap := netip.MustParseAddrPort(a)
				l.L = append(l.L, vben.D().Set("ip", vben.S(ap.Addr().String())).Set("port", vben.I(int64(ap.Port()))))
			}
			return []byte(vben.D().Set("interval", vben.I(60)).Set("peers", l).Enc())
		}
		if form == 0 {
			w.UDP(trk, func(n int) vswarm.UReply { return vswarm.UReply{Interval: 60, Addrs: list} })
		} else {
			w.HTTP(trk, func(n int, _ string) vswarm.TReply {
				switch {
				case form == 1 || form == 3 && n%2 == 0 && !v6:
					return vswarm.TReply{Status: 200, Body: vswarm.List(60, list...)}
				default:
					return vswarm.TReply{Status: 200, Body: dict()}
				}
			})
		}
		w.Go()
		finish(w, fmt.Sprintf("seed %s, %v %s, form %d", sd, b, other, form))
		x.Outcome(sd, other, form, b, first, w.DoneAt.Sub(w.Start))
	})
}

// The disk takes its time for every write.
func TestSlowDisk(t *testing.T) {
	many := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 1300}}, PieceLen: 1}
	kinds := []bad{{"none", 0}, {"silent after answer", 1}, {"corrupt answer", 1}, {"ends after request", 1}, {"chokes after answer", 1}, {"everything twice", 0}, {"pushes everything", 0}, {"flapping choke", 0}}
	vrt.Explore(t, vrt.Opts{Section: "a slow disk", Bubble: true}, func(x *vrt.X) {
		b := kinds[x.Choose(len(kinds), "other")]
		how := x.Choose(3, "arrival")
		l := vrt.Of(x, "layout", layouts[0], layouts[1], layouts[2], many)
		d := vrt.Of(x, "write", 1*ms, 40*ms, 1100*ms, 20*sec)
		if l == many && d > 2*sec {
			x.Outcome("left out")
			return
		}
		w := open(x, l, 2)
		defer vtor.OnWrite(w.Dir, func(string, []byte, int64) (int, error) { time.Sleep(d); return 0, nil })()
		w.Peer(seedA)
		b.Install(w.Peer(bad0))
		arrive(w, how, bad0)
		w.Go()
		finish(w, fmt.Sprintf("%v, arrival %d, layout %+v, a write takes %v", b, how, *l, d))
		x.Outcome(b, how, l.PieceLen, d, w.DoneAt.Sub(w.Start))
	})
}

// The steps of the manager, the sessions and the writer in other orders.
func TestSchedules(t *testing.T) {
	kinds := []bad{{"silent after answer", 0}, {"corrupt answer", 0}, {"ends after request", 1}, {"chokes after answer", 1}, {"everything twice", 0}, {"none", 0}, {"pushes everything", 0}, {"corrupt answer", 1}, {"flapping choke", 0}}
	vrt.Explore(t, vrt.Opts{Section: "schedules", Bubble: true, DevBound: vrt.Pick(1, 2), ShardDepth: 3}, func(x *vrt.X) {
		b := kinds[x.Choose(len(kinds), "other")]
		l := layouts[vrt.Of(x, "layout", 0, 1)]
		how := x.Choose(3, "arrival")
		w := open(x, l, 2)
		rand.Seed(1)
		w.Peer(seedA)
		b.Install(w.Peer(bad0))
		arrive(w, how, bad0)
		s := vsched.New(x, vsched.Opts{Delay: true})
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		late := time.AfterFunc(horizon, func() { x.Fail("stuck", "the download does not finish (%v, arrival %d)", b, how) })
		s.Run(w.Finished)
		late.Stop()
		s.Stop()
		judge(w, fmt.Sprintf("%v, arrival %d", b, how))
		w.End()
		x.Outcome(b, how, l.Name)
	})
}
