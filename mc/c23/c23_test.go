package c23

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C23") }

const (
	sec   = time.Second
	slack = 3 * sec // an attempt may take a while
)

// An attempt of a tracker: successful with an interval, or failing.
type att struct {
	name string
	ok   bool
	iv   int64 // seconds, <= 0 for no usable one
	http vswarm.TReply
	udp  vswarm.UReply
}

func httpOK(name string, v *vben.V, iv int64) att {
	return att{name: name, ok: true, iv: iv, http: vswarm.TReply{Status: 200, Body: []byte(vswarm.ListV(v, v != nil, "10.5.0.1:1").Enc())}}
}

var httpKinds = []att{
	httpOK("interval 60", vben.I(60), 60),
	httpOK("interval 1800", vben.I(1800), 1800),
	httpOK("interval 7", vben.I(7), 7),
	httpOK("interval 1", vben.I(1), 1),
	httpOK("no interval", nil, 0),
	httpOK("interval 0", vben.I(0), 0),
	httpOK("interval -5", vben.I(-5), 0),
	httpOK("interval -2^63", vben.I(math.MinInt64), 0),
	httpOK("interval 2^63-1", vben.I(math.MaxInt64), 0),
	httpOK("interval 2^55", vben.I(1<<55), 0),
	{name: "failure reason", http: vswarm.TReply{Status: 200, Body: []byte("d14:failure reason2:noe")}},
	{name: "status 500", http: vswarm.TReply{Status: 500, Body: []byte(vswarm.List(3, "10.5.0.1:1"))}},
	{name: "broken connection", http: vswarm.TReply{Status: -1}},
	{name: "undecodable", http: vswarm.TReply{Status: 200, Body: []byte("<html>")}},
	{name: "failure reason with an interval", http: vswarm.TReply{Status: 200, Body: []byte("d14:failure reason2:no8:intervali4ee")}},
}

var udpKinds = []att{
	{name: "interval 60", ok: true, iv: 60, udp: vswarm.UReply{Interval: 60, Addrs: []string{"10.5.0.1:1"}}},
	{name: "interval 1800", ok: true, iv: 1800, udp: vswarm.UReply{Interval: 1800}},
	{name: "interval 7", ok: true, iv: 7, udp: vswarm.UReply{Interval: 7}},
	{name: "interval 0", ok: true, iv: 0, udp: vswarm.UReply{Interval: 0}},
	{name: "interval 20000", ok: true, iv: 20000, udp: vswarm.UReply{Interval: 20000}},
	{name: "silence", udp: vswarm.UReply{Kind: 1}},
	{name: "silence to the announce", udp: vswarm.UReply{Kind: 2, Interval: 5}},
	{name: "error to connect", udp: vswarm.UReply{Kind: 3}},
	{name: "error to announce", udp: vswarm.UReply{Kind: 4}},
	{name: "junk", udp: vswarm.UReply{Kind: 5}},
}

// state of the pacing oracle; a set of them is kept because a gap can be read in two ways.
type state struct {
	fails int           // failed attempts in this burst (0: the last attempt succeeded)
	pause time.Duration // last pause in this burst
	iv    int64         // interval in force, 0: the default
}

const maxFails = 10

// interval says whether a gap is the interval in force.
func interval(iv int64, gap time.Duration) bool {
	if iv > 0 {
		d := time.Duration(iv) * sec
		return gap >= d-time.Millisecond && gap <= d+slack
	}
	return gap >= time.Minute-time.Millisecond && gap <= 2*time.Hour
}

func next(ss []state, gap time.Duration, a att) []state {
	var out []state
	after := func(s state, fails int, pause time.Duration) {
		if a.ok {
			out = append(out, state{iv: max(a.iv, 0)})
		} else {
			out = append(out, state{fails: fails + 1, pause: pause, iv: s.iv})
		}
	}
	for _, s := range ss {
		if s.fails == 0 {
			if interval(s.iv, gap) {
				after(s, 0, 0)
			}
			continue
		}
		// a retry
		if s.fails < maxFails && gap > s.pause+time.Millisecond && (s.fails > 1 || gap <= 10*sec) {
			after(s, s.fails, gap)
		}
		// retries are used up
		if s.fails > 1 && interval(s.iv, gap) {
			after(s, 0, 0)
		}
	}
	return out
}

var layout = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 4}}, PieceLen: 4}

func lay(announce string, list ...string) *vtor.Layout {
	l := *layout
	l.Announce = announce
	if len(list) > 0 {
		l.List = [][]string{list}
	}
	return &l
}

// One tracker, every sequence of replies, then failures for good or successes for good.
func TestOne(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "one tracker", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		udp := x.Bool("udp")
		depth := vrt.Pick(3, 4)
		kinds := httpKinds
		if udp {
			kinds = udpKinds
		}
		seq := make([]att, depth)
		trace := ""
		for i := range seq {
			seq[i] = kinds[x.Choose(len(kinds), "reply")]
			trace += seq[i].name + "; "
		}
		tail := kinds[vrt.Of(x, "then", 0, len(kinds)-1)]
		trace += "then " + tail.name
		l := lay("http://10.0.0.9/announce")
		if udp {
			l = lay("udp://10.0.0.9:6969")
		}
		w := vswarm.New(x, l, 10)
		at := func(n int) att {
			if n < len(seq) {
				return seq[n]
			}
			return tail
		}
		var tr *vswarm.Tracker
		if udp {
			tr = w.UDP("10.0.0.9:6969", func(n int) vswarm.UReply { return at(n).udp })
		} else {
			tr = w.HTTP("10.0.0.9:80", func(n int, _ string) vswarm.TReply { return at(n).http })
		}
		w.Go()
		synctest.Wait()
		if len(tr.Times) == 0 {
			time.Sleep(sec)
			synctest.Wait()
		}
		if len(tr.Times) == 0 {
			x.Fail("first", "the tracker gets no announce at the start")
		}
		ss := []state{{}}
		if !at(0).ok {
			ss = []state{{fails: 1}}
		} else {
			ss[0].iv = max(at(0).iv, 0)
		}
		limit := depth + 3
		if !tail.ok {
			limit = depth + vrt.Pick(12, maxFails+3)
		}
		for n := 1; n < limit; n++ {
			// wait for the next attempt, as long as any reading allows
			from := time.Since(w.Start)
			longest := 2*time.Hour + slack
			for _, s := range ss {
				if s.iv > 0 {
					longest = max(longest, time.Duration(s.iv)*sec+slack)
				}
			}
			tr.Next(n, longest+sec)
			if len(tr.Times) <= n {
				x.Fail("stopped", "no announce follows the %d-th for %v (%s; times %v)", n, time.Since(w.Start)-from, trace, tr.Times)
			}
			gap := tr.Times[n] - tr.Times[n-1]
			prev := ss
			ss = next(ss, gap, at(n))
			if len(ss) == 0 {
				x.Fail("pace", "announce %d comes %v after the one before, expected was one of %+v (%s; times %v)", n+1, gap, prev, trace, tr.Times)
			}
			if len(ss) > 200 {
				ss = ss[:200]
			}
		}
		w.End()
		n := len(tr.Times)
		time.Sleep(time.Hour)
		synctest.Wait()
		if len(tr.Times) != n {
			x.Fail("after-end", "the tracker gets announces after the download has returned")
		}
		x.Outcome(udp, trace, tr.Times)
	})
}

// bad trackers next to a good one.
func TestTwo(t *testing.T) {
	bads := []string{
		"", "tcp://10.0.0.8:80", "http://[::1", "wss://10.0.0.8/announce", "udp://", "http://", "udp://10.0.0.8:99999", "http://10.0.0.8:http/", "%zz",
		"http://10.0.0.7/refuse", "http://10.0.0.6/hole", "http://10.0.0.5/silent", "http://10.0.0.4/error", "http://10.0.0.3/junk", "udp://10.0.1.1:1", "udp://10.0.1.2:1", "udp://10.0.1.3:1", "udp://10.0.1.4:1", "http://10.0.0.2/slow",
	}
	vrt.Explore(t, vrt.Opts{Section: "next to a failing one", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		a := x.Choose(len(bads), "other")
		b := x.Choose(len(bads), "another")
		if b < a {
			x.Outcome("symmetric")
			return
		}
		udp := x.Bool("udp")
		pos := x.Choose(3, "position")
		good := "http://10.0.0.9/announce"
		if udp {
			good = "udp://10.0.0.9:6969"
		}
		us := []string{bads[a], bads[b]}
		us = append(us[:pos], append([]string{good}, us[pos:]...)...)
		w := vswarm.New(x, lay(us[0], us[1:]...), 10)
		seed := w.Peer("10.5.0.1:1")
		seed.Msg = func(rc *vswarm.RC, m vnet.M) {} // never sends anything
		w.Net.Host("10.0.0.6:80", func(c *vnet.Conn) error { return vnet.ErrBlackhole })
		w.HTTP("10.0.0.5:80", func(int, string) vswarm.TReply { return vswarm.TReply{} })
		w.HTTP("10.0.0.4:80", func(int, string) vswarm.TReply { return vswarm.TReply{Status: 503} })
		w.HTTP("10.0.0.3:80", func(int, string) vswarm.TReply { return vswarm.TReply{Status: 200, Body: []byte("d5:peers4:abcde")} })
		w.HTTP("10.0.0.2:80", func(int, string) vswarm.TReply {
			return vswarm.TReply{Status: 200, Body: vswarm.List(100), After: 45 * sec}
		})
		for i := 1; i <= 3; i++ {
			w.UDP(fmt.Sprintf("10.0.1.%d:1", i), func(int) vswarm.UReply { return vswarm.UReply{Kind: []int{1, 3, 5}[i-1]} })
		}
		w.Net.Host("10.0.1.4:1", func(c *vnet.Conn) error { return vnet.ErrRefused })
		var tr *vswarm.Tracker
		if udp {
			tr = w.UDP("10.0.0.9:6969", func(int) vswarm.UReply { return vswarm.UReply{Interval: 100, Addrs: []string{"10.5.0.1:1"}} })
		} else {
			tr = w.HTTP("10.0.0.9:80", func(int, string) vswarm.TReply {
				return vswarm.TReply{Status: 200, Body: vswarm.List(100, "10.5.0.1:1")}
			})
		}
		w.Go()
		what := fmt.Sprintf("next to %q and %q", bads[a], bads[b])
		for n := 0; n < 4; n++ {
			lo, hi := time.Duration(n)*100*sec, time.Duration(n)*(100*sec+slack)+sec
			time.Sleep(hi - time.Since(w.Start))
			synctest.Wait()
			if w.Finished() {
				x.Fail("returned", "the download returns %v, %s", w.Err, what)
			}
			if len(tr.Times) != n+1 || tr.Times[n] < lo {
				x.Fail("pace", "the good tracker is announced to at %v instead of every 100 s, %s", tr.Times, what)
			}
		}
		if len(seed.Conns) == 0 {
			x.Fail("peers", "the peer of the good tracker is not used, %s", what)
		}
		w.End()
		x.Outcome(a, b, udp, pos)
	})
}

// Every tracker of the torrent gets its first announce at once, repeated addresses only one.
func TestMany(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "several trackers", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		nh := x.Choose(6, "http")
		nu := x.Choose(6, "udp")
		dup := x.Choose(3, "repeated")
		shape := x.Choose(3, "tiers")
		var us []string
		for i := 0; i < nh; i++ {
			us = append(us, fmt.Sprintf("http://10.0.2.%d/a", i+1))
		}
		for i := 0; i < nu; i++ {
			us = append(us, fmt.Sprintf("udp://10.0.3.%d:7", i+1))
		}
		if len(us) == 0 {
			x.Outcome("none")
			return
		}
		all := append([]string{}, us...)
		for i := 0; i < dup; i++ {
			all = append(all, us[(i*3)%len(us)])
		}
		l := *layout
		l.Announce = all[0]
		switch shape {
		case 0:
			l.List = [][]string{all[1:]}
		case 1:
			for _, u := range all {
				l.List = append(l.List, []string{u})
			}
		case 2:
			k := len(all) / 2
			l.List = [][]string{all[:k], all[k:]}
		}
		w := vswarm.New(x, &l, 10)
		ivs := []int{50, 91, 32, 173, 60, 244, 45, 100, 37, 80}
		if x.Bool("rising") {
			ivs = []int{31, 34, 40, 50, 65, 85, 110, 140, 170, 200}
		}
		var ts []*vswarm.Tracker
		for i := 0; i < nh; i++ {
			ts = append(ts, w.HTTP(fmt.Sprintf("10.0.2.%d:80", i+1), func(int, string) vswarm.TReply {
				return vswarm.TReply{Status: 200, Body: vswarm.List(ivs[i])}
			}))
		}
		for i := 0; i < nu; i++ {
			ts = append(ts, w.UDP(fmt.Sprintf("10.0.3.%d:7", i+1), func(int) vswarm.UReply { return vswarm.UReply{Interval: uint32(ivs[9-i])} }))
		}
		w.Go()
		time.Sleep(sec)
		synctest.Wait()
		for i, tr := range ts {
			if len(tr.Times) != 1 {
				x.Fail("first", "tracker %d of %v has %d announces after the start", i, l.List, len(tr.Times))
			}
		}
		end := 760 * sec
		time.Sleep(end - time.Since(w.Start))
		synctest.Wait()
		for i, tr := range ts {
			iv := time.Duration(ivs[i%10]) * sec
			if i >= nh {
				iv = time.Duration(ivs[9-(i-nh)]) * sec
			}
			for k := 1; k <= len(tr.Times); k++ {
				last := end
				if k < len(tr.Times) {
					last = tr.Times[k]
				}
				if d := last - tr.Times[k-1]; d > iv+slack || k < len(tr.Times) && d < iv {
					x.Fail("pace", "tracker %d of %v is announced to at %v, its interval is %v", i, l.List, tr.Times, iv)
				}
			}
		}
		w.End()
		x.Outcome(nh, nu, dup, shape)
	})
}

// Every interval has its own length; all bits of the number count.
func TestIntervals(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "intervals", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		udp := x.Bool("udp")
		var ivs []int64
		for b := int64(0); b < vrt.Pick(int64(18), 20); b++ {
			ivs = append(ivs, 1<<b|b)
			if b < 12 {
				ivs = append(ivs, 1<<b-1, 3<<b)
			}
		}
		iv := max(ivs[x.Choose(len(ivs), "interval")], 1)
		peers := 0
		if iv < 1<<14 {
			peers = x.Choose(3, "peers")
		}
		as := []string{"10.5.0.1:1", "10.5.0.2:1"}[:peers]
		l := lay("http://10.0.0.9/announce")
		if udp {
			l = lay("udp://10.0.0.9:6969")
		}
		w := vswarm.New(x, l, 10)
		tr := w.HTTP("10.0.0.9:80", func(n int, _ string) vswarm.TReply {
			if n > 0 {
				return vswarm.TReply{Status: 200, Body: vswarm.List(1<<30, as...)}
			}
			return vswarm.TReply{Status: 200, Body: vswarm.List(int(iv), as...)}
		})
		if udp {
			tr = w.UDP("10.0.0.9:6969", func(n int) vswarm.UReply {
				if n > 0 {
					return vswarm.UReply{Interval: 1 << 30}
				}
				return vswarm.UReply{Interval: uint32(iv), Addrs: as}
			})
		}
		go func() { w.Err = w.M.Download(w.Ctx); close(w.Done) }()
		tr.Next(1, time.Duration(iv)*sec+slack)
		if len(tr.Times) < 2 || tr.Times[1]-tr.Times[0] < time.Duration(iv)*sec {
			x.Fail("pace", "the interval is %d s, announces come at %v", iv, tr.Times)
		}
		w.End()
		x.Outcome(udp, iv, peers)
	})
}

// However full the pool is, the trackers are announced to.
func TestFull(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "a full pool", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		limit := x.Choose(5, "limit")
		peers := x.Choose(5, "peers")
		udp := x.Bool("udp")
		ends := x.Bool("peers end")
		l := lay("http://10.0.0.9/announce")
		if udp {
			l = lay("udp://10.0.0.9:6969")
		}
		w := vswarm.New(x, l, limit)
		var as []string
		for i := 0; i < peers; i++ {
			a := fmt.Sprintf("10.5.0.%d:1", i+1)
			as = append(as, a)
			w.Peer(a).Msg = func(rc *vswarm.RC, m vnet.M) {
				if ends && len(rc.Msgs) == 1 {
					time.AfterFunc(30*sec, rc.Drop)
				}
			}
		}
		tr := w.HTTP("10.0.0.9:80", func(int, string) vswarm.TReply { return vswarm.TReply{Status: 200, Body: vswarm.List(100, as...)} })
		if udp {
			tr = w.UDP("10.0.0.9:6969", func(int) vswarm.UReply { return vswarm.UReply{Interval: 100, Addrs: as} })
		}
		w.Go()
		for n := 0; n < 5; n++ {
			tr.Next(n, 100*sec+slack)
			if len(tr.Times) != n+1 || n > 0 && tr.Times[n]-tr.Times[n-1] < 100*sec {
				x.Fail("pace", "announces come at %v instead of every 100 s (limit %d, %d peers)", tr.Times, limit, peers)
			}
		}
		w.End()
		x.Outcome(limit, peers, udp, ends)
	})
}

// The end, by cancelling at any time or by completion: no announces afterwards.
func TestUntil(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "until the end", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		mode := x.Choose(6, "tracker")
		at := x.Choose(vrt.Pick(90, 400), "end")
		udp := x.Bool("udp")
		l := lay("http://10.0.0.9/announce")
		if udp {
			l = lay("udp://10.0.0.9:6969")
		}
		w := vswarm.New(x, l, 10)
		var as []string
		if mode == 5 { // completes
			s := w.Peer("10.5.0.1:1")
			n := 0
			s.Msg = func(rc *vswarm.RC, m vnet.M) {
				if m.ID == 6 && n == 0 {
					n++
					a := w.Answer(m)
					time.AfterFunc(time.Duration(at)*300*time.Millisecond+500*time.Millisecond, func() { rc.Send(a) })
					return
				}
				rc.Seed(m)
			}
			as = []string{"10.5.0.1:1"}
		}
		tr := w.HTTP("10.0.0.9:80", func(n int, _ string) vswarm.TReply {
			switch mode {
			case 1:
				return vswarm.TReply{Status: 500}
			case 2:
				return vswarm.TReply{}
			case 3:
				return vswarm.TReply{Status: -1}
			case 4:
				return vswarm.TReply{Status: 200, Body: vswarm.List(2), After: sec}
			}
			return vswarm.TReply{Status: 200, Body: vswarm.List(5, as...)}
		})
		tu := w.UDP("10.0.0.9:6969", func(n int) vswarm.UReply {
			return vswarm.UReply{Kind: []int{0, 1, 2, 3, 4, 0}[mode], Interval: 5, Addrs: as}
		})
		w.Go()
		if mode == 5 {
			if !w.Wait(10 * time.Minute) {
				x.Outcome("not complete", at)
				w.End()
				return
			}
		} else {
			time.Sleep(time.Duration(at) * 300 * time.Millisecond)
			w.Cancel()
			if !w.Wait(time.Minute) {
				x.Fail("hangs", "a cancelled download does not return")
			}
		}
		w.M.Stop()
		n := len(tr.Times) + len(tu.Times)
		if n == 0 && at > 0 {
			x.Fail("first", "the tracker got no announce")
		}
		time.Sleep(3 * time.Hour)
		synctest.Wait()
		if len(tr.Times)+len(tu.Times) != n {
			x.Fail("after-end", "the tracker gets announces after the download has returned")
		}
		w.End()
		x.Outcome(mode, at, udp, n)
	})
}

// Two trackers at the same time, their steps in other orders.
func TestSchedules(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "two trackers, schedules", Bubble: true, DevBound: vrt.Pick(1, 2)}, func(x *vrt.X) {
		kind := x.Choose(4, "replies")
		peers := x.Choose(2, "peers")
		l := lay("udp://10.0.0.8:1", "udp://10.0.0.9:1")
		w := vswarm.New(x, l, 10)
		w.Peer("10.5.0.1:1").Msg = func(rc *vswarm.RC, m vnet.M) {} // never sends anything
		as := []string{"10.5.0.1:1"}[:peers]
		var ts [2]*vswarm.Tracker
		fails := func(k, n int) bool { return kind == 1 && k == 1 || kind == 2 && n == 1 || kind == 3 && k == 0 && n == 0 }
		ivs := []int{20, 33}
		for k := range ts {
			ts[k] = w.UDP([]string{"10.0.0.8:1", "10.0.0.9:1"}[k], func(n int) vswarm.UReply {
				if fails(k, n) {
					return vswarm.UReply{Kind: 4}
				}
				return vswarm.UReply{Interval: uint32(ivs[k]), Addrs: as}
			})
		}
		// trackers are started in the order of a map: only one order is explored
		first := map[string]string{}
		var mu sync.Mutex
		w.Net.OnOpen = func(_ int, c *vnet.Conn) {
			mu.Lock()
			defer mu.Unlock()
			if c.Network == "udp" && first[c.Addr] == "" {
				first[c.Addr] = vsched.Name()
				if a, b := first["10.0.0.8:1"], first["10.0.0.9:1"]; a != "" && b != "" && a > b {
					x.Again()
				}
			}
		}
		s := vsched.New(x, vsched.Opts{Delay: true})
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		end := 110 * sec
		timer := time.AfterFunc(end, func() {
			for k, tr := range ts {
				iv := time.Duration(ivs[k]) * sec
				prev, failing := time.Duration(-1), 0
				for n, at := range tr.Times {
					switch {
					case n == 0 && at > sec:
						x.Fail("first", "the first announce to tracker %d comes after %v", k, at)
					case n > 0 && failing == 0 && (at-prev < iv || at-prev > iv+slack):
						x.Fail("pace", "tracker %d asks for %v, the announces come at %v (replies %d)", k, iv, tr.Times, kind)
					case n > 0 && failing > 12:
						x.Fail("retries", "tracker %d fails, the announces come at %v", k, tr.Times)
					}
					prev = at
					failing++
					if !fails(k, n) {
						failing = 0
					}
				}
				if failing == 0 && end-prev > iv+slack {
					x.Fail("pace", "tracker %d asks for %v, the announces come at %v until %v (replies %d)", k, iv, tr.Times, end, kind)
				}
				if len(tr.Times) < 2 {
					x.Fail("first", "tracker %d is announced to at %v until %v (replies %d)", k, tr.Times, end, kind)
				}
			}
			w.Cancel()
		})
		s.Run(w.Finished)
		timer.Stop()
		s.Stop()
		w.End()
		x.Outcome(kind, peers, len(ts[0].Times), len(ts[1].Times))
	})
}
