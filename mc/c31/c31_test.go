package c31

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C31") }

const (
	sec = time.Second
	B   = 128 * 1024
	trk = "10.0.0.9:1"
)

var addrs = []string{"10.6.0.1:6881", "10.6.0.2:6881", "10.6.0.3:6882", "10.6.0.4:1", "10.6.0.5:1", "10.6.0.6:1"}

var (
	lay3   = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 10}}, PieceLen: 4}
	lay4   = &vtor.Layout{Name: "d", Files: []vtor.File{{"a", 5}, {"e", 0}, {"x/b", 1}, {"x/c", 8}}, PieceLen: 4}
	blocks = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 7*B + 5}}, PieceLen: 3 * B}
	wide   = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 20}}, PieceLen: 1}
)

var ways = []string{"bitfield on interest", "bitfield at once", "haves on interest", "unchoke, then haves", "empty bitfield, haves much later", "bitfield and haves", "haves before, unchoke later"}

// fault: what a peer does wrong on its first connections; K: from which request on.
type fault struct {
	Name string
	K    int
}

var faults = []fault{{"none", 0},
	{"drops at request", 0}, {"drops at request", 1}, {"drops at request", 2},
	{"drops after answer", 0}, {"drops after answer", 1},
	{"chokes for 5 s", 0}, {"chokes for 5 s", 1}, {"chokes for 5 s", 2},
	{"chokes for 150 s", 0}, {"chokes for 150 s", 1},
	{"never answers", 0}, {"never answers", 1}, {"never answers", 2},
	{"refuses", 0}, {"slow", 0}, {"corrupt", 0}, {"corrupt", 1}, {"drops before unchoke", 0}, {"chokes after answer", 0}, {"chokes after answer", 1}}

// short is one of each kind.
var short = []fault{{"none", 0}, {"drops at request", 1}, {"chokes for 5 s", 0}, {"never answers", 1}, {"refuses", 0}, {"corrupt", 0}, {"slow", 0}}

// part is a peer that has some of the pieces.
type part struct {
	r    *vswarm.Remote
	has  []int
	way  string
	f    fault
	left int // connections that fail
}

// swarm records what is requested.
type swarm struct {
	mu     sync.Mutex
	w      *vswarm.W
	honest bool
	blocks map[[2]uint32]int
	told   map[*vswarm.RC]map[int]bool
	what   string
}

func (s *swarm) have(rc *vswarm.RC, is ...int) {
	s.mu.Lock()
	if s.told[rc] == nil {
		s.told[rc] = map[int]bool{}
	}
	for _, i := range is {
		s.told[rc][i] = true
	}
	s.mu.Unlock()
}

func (s *swarm) bitfield(rc *vswarm.RC, is ...int) {
	s.have(rc, is...)
	b := make([]byte, (s.w.L.Pieces()+7)/8)
	for _, i := range is {
		b[i/8] |= 0x80 >> (i % 8)
	}
	rc.Send(vnet.Bitfield(b...))
}

func (s *swarm) haves(rc *vswarm.RC, is ...int) {
	for _, i := range is {
		s.have(rc, i)
		rc.Send(vnet.Have(uint32(i)))
	}
}

// request judges a request.
func (s *swarm) request(p *part, rc *vswarm.RC, m vnet.M) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := int(m.U(0))
	if !s.told[rc][i] {
		s.w.X.Fail("not announced", "piece %d is requested from %s, which has announced %v on this connection (%s)", i, p.r.Addr, s.told[rc], s.what)
	}
	k := [2]uint32{m.U(0), m.U(1)}
	if s.blocks[k]++; s.honest && s.blocks[k] > 1 {
		s.w.X.Fail("twice", "block %v is requested again although nobody has failed (%s)", k, s.what)
	}
}

func (s *swarm) install(p *part) {
	n := 0
	p.r.Accept = func(rc *vswarm.RC) error {
		n++
		if p.f.Name == "refuses" && n <= 5*p.left {
			return vnet.ErrRefused
		}
		return nil
	}
	after := func(d time.Duration, f func()) { time.AfterFunc(d, f) }
	p.r.Hello = func(rc *vswarm.RC) {
		rc.Hello()
		switch p.way {
		case "bitfield at once":
			s.bitfield(rc, p.has...)
		case "haves before, unchoke later":
			s.haves(rc, p.has...)
		}
	}
	p.r.Msg = func(rc *vswarm.RC, m vnet.M) {
		if m.Keep {
			return
		}
		bad := n <= p.left
		switch m.ID {
		case 2:
			if rc.Greet {
				return
			}
			rc.Greet = true
			if bad && p.f.Name == "drops before unchoke" {
				rc.Drop()
				return
			}
			switch p.way {
			case "bitfield on interest":
				s.bitfield(rc, p.has...)
				rc.Send(vnet.Unchoke())
			case "bitfield at once":
				rc.Send(vnet.Unchoke())
			case "haves on interest":
				s.haves(rc, p.has...)
				rc.Send(vnet.Unchoke())
			case "unchoke, then haves":
				rc.Send(vnet.Unchoke())
				for j, i := range p.has {
					after(time.Duration(3*j+1)*sec, func() { s.haves(rc, i) })
				}
			case "empty bitfield, haves much later":
				s.bitfield(rc)
				rc.Send(vnet.Unchoke())
				after(100*sec, func() { s.haves(rc, p.has...) })
			case "bitfield and haves":
				k := (len(p.has) + 1) / 2
				s.bitfield(rc, p.has[:k]...)
				rc.Send(vnet.Unchoke())
				after(12*sec, func() { s.haves(rc, p.has[k:]...) })
			case "haves before, unchoke later":
				after(35*sec, func() { rc.Send(vnet.Unchoke()) })
			}
		case 6:
			k := rc.Reqs
			rc.Reqs++
			s.request(p, rc, m)
			hit := bad && k == p.f.K
			answer := func() { rc.Send(s.w.Answer(m)) }
			choke := func(d time.Duration) {
				rc.Send(vnet.Choke())
				after(d, func() { rc.Send(vnet.Unchoke()) })
			}
			switch {
			case hit && p.f.Name == "drops at request":
				rc.Drop()
			case hit && p.f.Name == "drops after answer":
				answer()
				rc.Drop()
			case hit && p.f.Name == "chokes for 5 s":
				choke(5 * sec)
			case hit && p.f.Name == "chokes for 150 s":
				choke(150 * sec)
			case hit && p.f.Name == "chokes after answer":
				answer()
				choke(20 * sec)
			case hit && p.f.Name == "corrupt":
				a := s.w.Answer(m)
				a[len(a)-1] ^= 1
				rc.Send(a)
			case bad && k >= p.f.K && p.f.Name == "never answers":
			case p.f.Name == "slow":
				after(10*sec, answer)
			default:
				answer()
			}
		}
	}
}

const horizon = 4 * time.Hour

// build makes the swarm: set says for every piece which peers have it, as bits.
func build(x *vrt.X, l *vtor.Layout, set []int, wayOf []string, f []fault, fails int) *swarm {
	c := *l
	c.Announce = "udp://" + trk
	n := len(wayOf)
	w := vswarm.New(x, &c, n)
	s := &swarm{w: w, honest: true, blocks: map[[2]uint32]int{}, told: map[*vswarm.RC]map[int]bool{}}
	s.what = fmt.Sprintf("pieces at %b, %v, %v on %d connections, %d pieces", set, wayOf, f, fails, l.Pieces())
	for j := 0; j < n; j++ {
		p := &part{r: w.Peer(addrs[j]), way: wayOf[j], f: f[j], left: fails}
		for i := range set {
			if set[i]>>j&1 == 1 {
				p.has = append(p.has, i)
			}
		}
		if f[j].Name != "none" && f[j].Name != "slow" {
			s.honest = false
		}
		s.install(p)
	}
	w.UDP(trk, func(int) vswarm.UReply { return vswarm.UReply{Interval: 60, Addrs: addrs[:n]} })
	return s
}

func (s *swarm) judge() {
	if s.w.Err != nil {
		s.w.X.Fail("error", "a finished download returns %v (%s)", s.w.Err, s.what)
	}
	if why := s.w.L.Verify(s.w.Dir, nil); why != "" {
		s.w.X.Fail("content", "the download has returned, but %s (%s)", why, s.what)
	}
	if !s.w.T.Done() {
		s.w.X.Fail("done", "the download has returned, but is not reported complete (%s)", s.what)
	}
}

func (s *swarm) run() {
	s.w.Go()
	if !s.w.Wait(horizon) {
		s.w.X.Fail("stuck", "the download does not finish within %v although every piece is at a peer that stays (%s)", horizon, s.what)
	}
	s.judge()
	s.w.End()
	s.w.X.Outcome(s.what, s.w.DoneAt.Sub(s.w.Start))
}

// spread chooses who has each piece.
func spread(x *vrt.X, pieces, peers int) []int {
	set := make([]int, pieces)
	for i := range set {
		set[i] = 1 + x.Choose(1<<peers-1, "holders")
	}
	return set
}

// Two peers announce in every way, one of them fails.
func TestWays(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "two peers, every way to announce", Bubble: true}, func(x *vrt.X) {
		set := spread(x, 3, 2)
		a, b := vrt.Of(x, "first", ways...), vrt.Of(x, "second", ways...)
		f := vrt.Of(x, "fault", vrt.Pick(short, faults)...)
		build(x, lay3, set, []string{a, b}, []fault{f, {"none", 0}}, 1).run()
	})
}

// Two peers fail in every way.
func TestFaults(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "two peers, every pair of faults", Bubble: true}, func(x *vrt.X) {
		set := spread(x, 3, 2)
		f, g := vrt.Of(x, "fault", faults...), vrt.Of(x, "fault", faults...)
		way := vrt.Of(x, "way", ways[0], ways[3])
		fails := vrt.Of(x, "connections", 1, 2)
		build(x, lay3, set, []string{way, ways[0]}, []fault{f, g}, fails).run()
	})
}

// Three peers.
func TestThree(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "three peers", Bubble: true}, func(x *vrt.X) {
		l := vrt.Pick(lay3, lay4)
		set := spread(x, l.Pieces(), 3)
		way := vrt.Of(x, "way", ways[0], ways[3], ways[4])
		f, g := vrt.Of(x, "fault", short...), vrt.Of(x, "fault", short...)
		build(x, l, set, []string{ways[0], way, ways[2]}, []fault{f, g, {"none", 0}}, 1).run()
	})
}

// Pieces of several blocks.
func TestBlocks(t *testing.T) {
	more := append(append([]fault{}, faults...), fault{"drops at request", 3}, fault{"drops at request", 4}, fault{"chokes for 5 s", 3}, fault{"chokes for 5 s", 4}, fault{"never answers", 3}, fault{"never answers", 4}, fault{"drops after answer", 2}, fault{"drops after answer", 3}, fault{"chokes after answer", 2}, fault{"chokes after answer", 3}, fault{"corrupt", 2}, fault{"corrupt", 4})
	vrt.Explore(t, vrt.Opts{Section: "pieces of several blocks", Bubble: true}, func(x *vrt.X) {
		f := vrt.Of(x, "fault", more...)
		set := spread(x, 3, 2)
		g := vrt.Of(x, "fault", vrt.Pick(short, more)...)
		way := vrt.Of(x, "way", ways[0], ways[3])
		build(x, blocks, set, []string{way, ways[0]}, []fault{f, g}, 1).run()
	})
}

// Every piece at one peer only, or at all but one, of up to six.
func TestMany(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "up to six peers", Bubble: true}, func(x *vrt.X) {
		n := vrt.Of(x, "peers", 1, 2, 3, 4, 5, 6)
		rot := x.Choose(6, "turn")
		pattern := vrt.Of(x, "pattern", "one holder", "all but one", "runs", "all")
		way := vrt.Of(x, "way", ways...)
		f := vrt.Of(x, "fault", short...)
		if rot >= n {
			x.Outcome("left out")
			return
		}
		set := make([]int, wide.Pieces())
		for i := range set {
			j := (i + rot) % n
			switch pattern {
			case "one holder":
				set[i] = 1 << j
			case "all but one":
				set[i] = (1<<n - 1) &^ (1 << j)
				if n == 1 {
					set[i] = 1
				}
			case "runs":
				set[i] = 1 << ((i*n/wide.Pieces() + rot) % n)
			default:
				set[i] = 1<<n - 1
			}
		}
		ws, fs := make([]string, n), make([]fault, n)
		for j := range ws {
			ws[j], fs[j] = ways[0], fault{"none", 0}
			if j%2 == 0 {
				ws[j], fs[j] = way, f
			}
		}
		build(x, wide, set, ws, fs, 2).run()
	})
}

// The steps of the manager, the sessions and the writer in other orders.
func TestSchedules(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "schedules", Bubble: true, DevBound: vrt.Pick(1, 2), ShardDepth: 3}, func(x *vrt.X) {
		set := vrt.Of(x, "holders", vrt.Pick([][]int{{3, 3, 3}, {1, 2, 3}, {1, 1, 3}}, [][]int{{3, 3, 3}, {1, 2, 3}, {1, 1, 3}, {3, 1, 3}, {2, 3, 3}})...)
		f := vrt.Of(x, "fault", vrt.Pick(short[:6], short)...)
		way := vrt.Of(x, "way", vrt.Pick(ways[:1], []string{ways[0], ways[2], ways[3]})...)
		s := build(x, lay3, set, []string{way, ways[0]}, []fault{f, {"none", 0}}, 1)
		rand.Seed(1)
		w := s.w
		sc := vsched.New(x, vsched.Opts{Delay: true})
		sc.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		late := time.AfterFunc(horizon, func() { x.Fail("stuck", "the download does not finish (%s)", s.what) })
		sc.Run(w.Finished)
		late.Stop()
		sc.Stop()
		s.judge()
		w.End()
		x.Outcome(set, f, way)
	})
}
