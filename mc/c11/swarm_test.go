package c11

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

// claims watches who is asked for what in a whole download.
type claims struct {
	w     *vswarm.W
	have  map[*vswarm.RC]map[int]bool // what was advertised on a connection
	by    map[int]*vswarm.RC          // who holds the claim on a piece
	at    map[int]time.Time           // when it was asked last
	got   map[int]int                 // bytes of the piece answered to the holder
	done  map[int]bool                // answered completely
	trace string
	mu    sync.Mutex
}

func watch(w *vswarm.W) *claims {
	return &claims{w: w, have: map[*vswarm.RC]map[int]bool{}, by: map[int]*vswarm.RC{}, at: map[int]time.Time{}, got: map[int]int{}, done: map[int]bool{}}
}

func (c *claims) release(rc *vswarm.RC) {
	for i, r := range c.by {
		if r == rc {
			delete(c.by, i)
		}
	}
}

func (c *claims) advertise(rc *vswarm.RC, i int) {
	if c.have[rc] == nil {
		c.have[rc] = map[int]bool{}
	}
	c.have[rc][i] = true
}

// claimed is the set of pieces answered completely.
func (c *claims) claimed() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for i := range c.done {
		n |= 1 << i
	}
	return n
}

// request is called for every request of the client.
func (c *claims) request(rc *vswarm.RC, m vnet.M) {
	i, off := int(m.U(0)), int(m.U(1))
	c.trace += fmt.Sprintf("[%v: %s asked for %d+%d] ", time.Since(c.w.Start), rc.R.Addr, i, off)
	x := c.w.X
	if !c.have[rc][i] {
		x.Fail("not-advertised", "%s is asked for piece %d which it did not advertise (%s)", rc.R.Addr, i, c.trace)
	}
	if c.done[i] {
		x.Fail("again", "piece %d is asked for although it was answered completely (%s)", i, c.trace)
	}
	// an unanswered request may count as timed out after a second
	if o := c.by[i]; o != nil && (o != rc || c.got[i] > off) && !o.Closed && time.Since(c.at[i]) < time.Second {
		x.Fail("twice", "%s is asked for piece %d which %s holds (%s)", rc.R.Addr, i, o.R.Addr, c.trace)
	}
	if c.by[i] != rc || off == 0 {
		c.got[i] = 0
	}
	c.by[i], c.at[i] = rc, time.Now()
}

func (c *claims) answer(rc *vswarm.RC, m vnet.M) {
	i := int(m.U(0))
	c.got[i] += int(m.U(2))
	if c.got[i] >= c.w.L.PieceSize(i) {
		c.done[i] = true
		delete(c.by, i)
	}
	rc.Send(c.w.Answer(m))
}

// what a peer does with the requests
var kinds = []string{"serves", "serves late", "ends", "chokes", "silent", "corrupt", "ends after one", "chokes after one", "advertises late", "have"}

func (c *claims) install(r *vswarm.Remote, kind string, mask int) {
	w := c.w
	bits := func() {
		b := make([]byte, (w.L.Pieces()+7)/8)
		for i := 0; i < w.L.Pieces(); i++ {
			if mask>>i&1 == 1 {
				b[i/8] |= 0x80 >> (i % 8)
			}
		}
		rc := r.Conns[len(r.Conns)-1]
		for i := 0; i < w.L.Pieces(); i++ {
			if mask>>i&1 == 1 {
				c.advertise(rc, i)
			}
		}
		rc.Send(vnet.Bitfield(b...))
	}
	r.Msg = func(rc *vswarm.RC, m vnet.M) {
		if m.Keep {
			return
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		switch m.ID {
		case 2:
			if rc.Greet {
				return
			}
			rc.Greet = true
			switch kind {
			case "advertises late":
				rc.Send(vnet.Unchoke())
				time.AfterFunc(1300*time.Millisecond, func() {
					c.mu.Lock()
					defer c.mu.Unlock()
					if !rc.Closed {
						bits()
					}
				})
			case "have":
				rc.Send(vnet.Unchoke())
				for i := w.L.Pieces() - 1; i >= 0; i-- {
					if mask>>i&1 == 1 {
						c.advertise(rc, i)
						rc.Send(vnet.Have(uint32(i)))
					}
				}
			default:
				bits()
				rc.Send(vnet.Unchoke())
			}
		case 6:
			c.request(rc, m)
			rc.Reqs++
			k := kind
			if rc.Reqs == 1 && (k == "ends after one" || k == "chokes after one") {
				k = "serves"
			}
			switch k {
			case "serves", "advertises late", "have":
				c.answer(rc, m)
			case "serves late":
				time.AfterFunc(600*time.Millisecond, func() {
					c.mu.Lock()
					defer c.mu.Unlock()
					if !rc.Closed && !rc.C.IsClosed() {
						c.answer(rc, m)
					}
				})
			case "ends", "ends after one":
				c.release(rc)
				rc.Drop()
			case "chokes", "chokes after one":
				c.release(rc)
				rc.Send(vnet.Choke())
				time.AfterFunc(2*time.Second, func() {
					if !rc.Closed && !rc.C.IsClosed() {
						rc.Send(vnet.Unchoke())
					}
				})
			case "silent":
			case "corrupt":
				c.release(rc)
				a := w.Answer(m)
				a[len(a)-1] ^= 4
				rc.Send(a)
			}
		}
	}
}

// good says that a peer of the kind answers everything in the end.
func good(kind string) bool {
	return kind == "serves" || kind == "serves late" || kind == "advertises late" || kind == "have"
}

var swarmLayouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2, Announce: "udp://10.0.0.9:1"},
	{Name: "d", Files: []vtor.File{{"a", 1}, {"b", 2}}, PieceLen: 2, Announce: "udp://10.0.0.9:1"},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 5*128*1024 - 7}}, PieceLen: 2 * 128 * 1024, Announce: "udp://10.0.0.9:1"},
}

// Whole downloads: peers with every set of advertised pieces, which serve or fail.
func TestSwarm(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "whole downloads, two peers", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		ka := kinds[x.Choose(len(kinds), "first peer")]
		kb := kinds[x.Choose(len(kinds), "second peer")]
		l := swarmLayouts[vrt.Of(x, "layout", vrt.Pick([]int{0}, []int{0, 1, 2})...)]
		n := l.Pieces()
		ma, mb := x.Choose(1<<n, "advertised"), x.Choose(1<<n, "advertised")
		swarm(x, l, []string{ka, kb}, []int{ma, mb}, nil)
	})
}

func TestSwarmBlocks(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "whole downloads, pieces of several blocks", Bubble: true}, func(x *vrt.X) {
		ka := kinds[x.Choose(len(kinds), "first peer")]
		kb := kinds[x.Choose(len(kinds), "second peer")]
		ms := vrt.Pick([]int{7, 5, 2}, []int{0, 1, 2, 3, 4, 5, 6, 7})
		ma, mb := vrt.Of(x, "advertised", ms...), vrt.Of(x, "advertised", ms...)
		swarm(x, swarmLayouts[2], []string{ka, kb}, []int{ma, mb}, nil)
	})
}

func TestSwarmThree(t *testing.T) {
	ks := kinds
	if !vrt.Thorough() {
		ks = []string{"serves", "serves late", "ends", "chokes", "silent", "corrupt"}
	}
	vrt.Explore(t, vrt.Opts{Section: "whole downloads, three peers", Bubble: true}, func(x *vrt.X) {
		var kk [3]string
		for i := range kk {
			kk[i] = ks[x.Choose(len(ks), "peer")]
		}
		var mm [3]int
		for i := range mm {
			mm[i] = vrt.Of(x, "advertised", 7, 3, 4)
		}
		swarm(x, swarmLayouts[0], kk[:], mm[:], nil)
	})
}

// The same at every step of sessions, manager and writer.
func TestSwarmSchedules(t *testing.T) {
	ks := [][2]string{{"serves", "serves"}, {"serves late", "serves late"}, {"ends", "serves"}, {"chokes", "serves late"}, {"corrupt", "serves"}, {"have", "ends after one"}}
	vrt.Explore(t, vrt.Opts{Section: "whole downloads, schedules", Bubble: true, DevBound: vrt.Pick(1, 2), ShardDepth: 3}, func(x *vrt.X) {
		k := ks[x.Choose(len(ks), "peers")]
		l := swarmLayouts[x.Choose(2, "layout")]
		m := vrt.Of(x, "advertised", [][]int{{7, 7}, {3, 6}, {1, 7}}...)
		swarm(x, l, k[:], []int{m[0] & (1<<l.Pieces() - 1), m[1] & (1<<l.Pieces() - 1)}, vsched.New(x, vsched.Opts{Delay: true}))
	})
}

func swarm(x *vrt.X, l *vtor.Layout, ks []string, masks []int, s *vsched.Sched) {
	rand.Seed(1)
	w := vswarm.New(x, l, len(ks))
	c := watch(w)
	c.trace = fmt.Sprint(ks, masks, " ")
	var as []string
	for i, k := range ks {
		a := fmt.Sprintf("10.6.0.%d:6881", i+1)
		as = append(as, a)
		c.install(w.Peer(a), k, masks[i])
	}
	n := 0
	w.UDP("10.0.0.9:1", func(k int) vswarm.UReply {
		n = k
		r := vswarm.UReply{Interval: 45, Addrs: as}
		if k > 2 {
			r.Addrs = nil
			for i, k := range ks {
				if good(k) {
					r.Addrs = append(r.Addrs, as[i])
				}
			}
		}
		return r
	})
	want := 0
	for i, k := range ks {
		if good(k) {
			want |= masks[i]
		}
	}
	if s != nil {
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		over := false
		var poll func()
		poll = func() {
			if k := c.claimed() & want; k == want || time.Since(w.Start) > 5*time.Minute {
				w.Cancel()
			} else if !over {
				time.AfterFunc(time.Second, poll)
			}
		}
		time.AfterFunc(time.Second, poll)
		s.Run(w.Finished)
		over = true
		s.Stop()
	} else {
		w.Go()
		for end := w.Start.Add(10 * time.Minute); time.Now().Before(end) && !w.Wait(2*time.Second); {
			if c.claimed()&want == want {
				w.Wait(40 * time.Second) // nothing may be claimed again
				break
			}
		}
	}
	claimed := c.claimed()
	for i := 0; i < l.Pieces(); i++ {
		if want>>i&1 == 1 && claimed>>i&1 == 0 {
			x.Fail("coverage", "piece %d was advertised by a peer that answers everything and was not claimed in the end (%d announces, %s)", i, n, c.trace)
		}
	}
	w.End()
	x.Outcome(ks, masks, l.PieceLen, claimed)
}

// A session with requests of others waiting to be made again.
func TestWaiting(t *testing.T) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 2}
	vrt.Explore(t, vrt.Opts{Section: "requests of others waiting", Bubble: true}, func(x *vrt.X) {
		have := x.Choose(16, "advertised")
		failed := x.Choose(16, "waiting")
		order := x.Bool("falling")
		later := x.Choose(16, "advertised later")
		s := vsess.New(x, l)
		for i := 0; i < 4; i++ {
			k := i
			if order {
				k = 3 - i
			}
			if failed>>k&1 == 1 {
				b := s.T.EmptyBitset()
				b.Set(uint(k))
				if j, ok := s.T.Next(b); !ok || int(j) != k {
					x.Fail("refused", "the free piece %d is not handed out", k)
				}
				s.Q.RequestFailed(util.CreatePieceMessage(uint32(k), 0, uint32(l.PieceSize(k))))
			}
		}
		adv := have
		asked := 0
		s.OnMsg = func(m vsess.Msg) {
			if m.Keep || m.ID != 6 {
				return
			}
			i := int(m.U(0))
			if i >= 4 || adv>>i&1 == 0 {
				x.Fail("not-advertised", "the peer advertised %04b and is asked for %d (waiting %04b)", adv, i, failed)
			}
			if asked>>i&1 == 1 {
				x.Fail("twice", "the peer is asked for piece %d again (advertised %04b, waiting %04b)", i, adv, failed)
			}
			asked |= 1 << i
			s.C.Push(s.Answer(m.M))
		}
		s.Begin()
		b := byte(0)
		for i := 0; i < 4; i++ {
			if have>>i&1 == 1 {
				b |= 0x80 >> i
			}
		}
		s.Push(vnet.Bitfield(b))
		s.Push(vnet.Unchoke())
		s.Sleep(3 * time.Second)
		if asked != have {
			x.Fail("coverage", "the peer advertised %04b and was asked for %04b (waiting %04b)", have, asked, failed)
		}
		adv |= later
		for i := 0; i < 4; i++ {
			if later>>i&1 == 1 {
				s.Push(vnet.Have(uint32(i)))
			}
		}
		s.Sleep(3 * time.Second)
		if asked != adv {
			x.Fail("coverage", "the peer advertised %04b and was asked for %04b (waiting %04b)", adv, asked, failed)
		}
		s.Finish()
		s.Drop()
		x.Outcome(have, failed, order, later)
	})
}
