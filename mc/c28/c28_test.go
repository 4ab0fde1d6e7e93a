package c28

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math"
	"net/url"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"code.cloudfoundry.org/bytefmt"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C28") }

const (
	kb  = 1 << 10
	sec = time.Second
)

// run is a download whose announces and display are judged.
type run struct {
	*vswarm.W
	x     *vrt.X
	what  string
	port  int
	big   bool // too large to look at the content
	mu    sync.Mutex
	at    map[int]int           // piece -> bytes stored so far
	seen  map[int]bool          // positions stored
	when  map[int]time.Duration // piece -> moment it was completely stored
	id    string                // client id seen
	hash  string
	news  int // announces judged
	lines int // display lines judged
	vals  map[uint64]bool
	track int // usable trackers
}

func start(x *vrt.X, l *vtor.Layout, hashes []byte, limit, port int, what string) *run {
	r := &run{x: x, what: what, port: port, at: map[int]int{}, seen: map[int]bool{}, when: map[int]time.Duration{}, vals: map[uint64]bool{}}
	r.W = vswarm.NewH(x, l, hashes, limit)
	if port != 6881 {
		r.M.Stop()
		r.M = download.NewMng(r.T, zap.NewNop(), limit, port)
	}
	s := sha1.Sum([]byte(l.Info(hashes).Enc()))
	r.hash = string(s[:])
	r.Out.OnWrite = r.display
	return r
}

// written is told of every write that succeeds.
func (r *run) written(name string, b []byte, off int64) {
	pos := 0
	for i, p := range r.L.Paths(r.Dir) {
		if filepath.Clean(name) == filepath.Clean(p) {
			break
		}
		pos += r.L.Files[i].Len
	}
	pos += int(off)
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, c := range b {
		q := pos + i
		if !r.seen[q] && c == r.L.Byte(q) {
			r.seen[q] = true
			p := q / r.L.PieceLen
			r.at[p]++
			if r.at[p] == r.L.PieceSize(p) {
				r.when[p] = time.Since(r.Start)
			}
		}
	}
}

// stored returns what has to be counted at least and at most; started is when the announce began.
func (r *run) stored(started time.Duration) (lo, hi uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for p, t := range r.when {
		hi += uint64(r.L.PieceSize(p))
		if t < started {
			lo += uint64(r.L.PieceSize(p))
		}
	}
	return
}

func (r *run) announced(kind, hash, id string, down, left, up uint64, port int, started time.Duration) {
	now := time.Since(r.Start)
	what := func() string {
		return fmt.Sprintf("%s announce %d at %v (%s)", kind, r.news, now, r.what)
	}
	if hash != r.hash {
		r.x.Fail("hash", "%s: info-hash %x instead of %x", what(), hash, r.hash)
	}
	if len(id) != 20 {
		r.x.Fail("id", "%s: client id %q", what(), id)
	}
	r.who(id, what)
	if port != r.port {
		r.x.Fail("port", "%s: port %d instead of %d", what(), port, r.port)
	}
	lo, hi := r.stored(started)
	total := uint64(r.L.Total())
	if down < lo || down > hi {
		r.x.Fail("downloaded", "%s: downloaded is %d, stored are %d to %d of %d", what(), down, lo, hi, total)
	}
	if left < total-hi || left > total-lo {
		r.x.Fail("left", "%s: left is %d, missing are %d to %d of %d", what(), left, total-hi, total-lo, total)
	}
	if up != 0 {
		r.x.Fail("uploaded", "%s: uploaded is %d", what(), up)
	}
	r.mu.Lock()
	r.news++
	r.vals[down] = true
	r.mu.Unlock()
}

func (r *run) who(id string, what func() string) {
	r.mu.Lock()
	was := r.id
	if was == "" {
		r.id = id
	}
	r.mu.Unlock()
	if was != "" && was != id {
		r.x.Fail("id", "%s: client id %q, before it was %q", what(), id, was)
	}
}

// http adds a tracker that judges what it is told.
func (r *run) http(addr string, reply func(n int) vswarm.TReply) *vswarm.Tracker {
	return r.HTTP(addr, func(n int, path string) vswarm.TReply {
		u, err := url.Parse(path)
		if err != nil {
			r.x.Fail("query", "unusable query %q: %v", path, err)
			return reply(n)
		}
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			r.x.Fail("query", "unusable query %q: %v", path, err)
			return reply(n)
		}
		num := func(k string) uint64 {
			v, err := strconv.ParseUint(q.Get(k), 10, 64)
			if err != nil || len(q[k]) != 1 {
				r.x.Fail("query", "%s is %q (%s)", k, q[k], r.what)
			}
			return v
		}
		r.announced("HTTP", q.Get("info_hash"), q.Get("peer_id"), num("downloaded"), num("left"), num("uploaded"), int(num("port")), time.Since(r.Start))
		return reply(n)
	})
}

// udp adds a tracker that judges what it is told.
func (r *run) udp(addr string, reply func(n int) vswarm.UReply) *vswarm.Tracker {
	t := r.UDP(addr, reply)
	t.OnPacket = func(b []byte) {
		if len(b) < 98 {
			r.x.Fail("packet", "announce of %d bytes", len(b))
			return
		}
		u := binary.BigEndian.Uint64
		r.announced("UDP", string(b[16:36]), string(b[36:56]), u(b[56:]), u(b[64:]), u(b[72:]), int(binary.BigEndian.Uint16(b[96:])), t.Times[len(t.Times)-1])
	}
	return t
}

var line = regexp.MustCompile(`\|\s*(\d+)% downloaded \(([^)]*)\), left \(([^)]*)\), speed \(([0-9.]+) MB/s\), peers \((\d+)\), trackers \((\d+)\)`)

// display judges what the user is shown.
func (r *run) display(b []byte) {
	now := time.Since(r.Start)
	lo, hi := r.stored(now)
	total := uint64(r.L.Total())
	for _, m := range line.FindAllStringSubmatch(string(b), -1) {
		what := fmt.Sprintf("display %q at %v, stored are %d to %d of %d (%s)", m[0], now, lo, hi, total, r.what)
		pc := func(n uint64, round func(float64) float64) int {
			switch {
			case total == 0 || n == 0:
				return 0
			case n == total:
				return 100
			}
			return min(99, int(round(float64(n)/float64(total)*100)))
		}
		p, _ := strconv.Atoi(m[1])
		if p < pc(lo, math.Floor) || p > pc(hi, math.Ceil) {
			r.x.Fail("percentage", "%s", what)
		}
		if lo == hi && (m[2] != bytefmt.ByteSize(lo) || m[3] != bytefmt.ByteSize(total-lo)) {
			r.x.Fail("sizes", "%s", what)
		}
		v, _ := strconv.ParseFloat(m[4], 64)
		if d := now.Seconds(); d > 0 && (v < float64(lo)/d/(1<<20)-0.051 || v > float64(hi)/d/(1<<20)+0.051) {
			r.x.Fail("speed", "%s", what)
		}
		if n, _ := strconv.Atoi(m[6]); n > r.track || n < r.track && hi < total && r.Ctx.Err() == nil {
			r.x.Fail("trackers", "%d trackers are in use: %s", r.track, what)
		}
		r.lines++
	}
}

// peers are watched for the client id.
func (r *run) shakes() {
	for _, c := range r.Net.Conns() {
		if s := c.Sent(); c.Network == "tcp" && len(s) >= 68 && s[0] == 19 {
			r.who(string(s[48:68]), func() string { return fmt.Sprintf("handshake with %s (%s)", c.Addr, r.what) })
		}
	}
}

// slow is a seed that takes its time for every answer.
func (r *run) slow(addr string, first, every time.Duration) {
	p := r.Peer(addr)
	p.Msg = func(rc *vswarm.RC, m vnet.M) {
		d := first
		if m.ID == 6 && !m.Keep {
			d = every
		}
		time.AfterFunc(d, func() { rc.Seed(m) })
	}
}

// finish waits for the end or for d.
func (r *run) finish(d time.Duration) bool {
	done := r.Wait(d)
	r.shakes()
	r.End()
	if r.news == 0 {
		r.x.Fail("none", "no announce at all (%s)", r.what)
	}
	return done
}

var layouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 2},
	{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 5}}, PieceLen: 3},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 5 * 16 * kb}}, PieceLen: 16 * kb},
	{Name: "t", Files: []vtor.File{{"a", 40 * kb}, {"b", 9*kb + 1}}, PieceLen: 20 * kb},
}

// trackers of a download
var setups = [][]string{
	{"udp://10.0.0.9:1"},
	{"http://10.0.0.9/announce"},
	{"udp://10.0.0.9:1", "http://10.0.0.8/announce?key=downloaded"},
}

func (r *run) trackers(setup int, interval int, reply func(n int) int, addrs []string) {
	for _, u := range setups[setup] {
		r.track++
		p, _ := url.Parse(u)
		if p.Scheme == "udp" {
			r.udp(p.Host, func(n int) vswarm.UReply {
				return vswarm.UReply{Kind: reply(n), Interval: uint32(interval), Addrs: addrs}
			})
			continue
		}
		r.http(p.Host+":80", func(n int) vswarm.TReply {
			switch reply(n) {
			case 0:
				return vswarm.TReply{Status: 200, Body: vswarm.List(interval, addrs...)}
			case 1, 2:
				return vswarm.TReply{Status: -1}
			case 3:
				return vswarm.TReply{Status: 200, Body: []byte("d14:failure reason2:noe")}
			case 4:
				return vswarm.TReply{Status: 503}
			}
			return vswarm.TReply{Status: 200, Body: []byte("junk")}
		})
	}
}

func with(l *vtor.Layout, setup int) *vtor.Layout {
	c := *l
	c.Announce = setups[setup][0]
	for _, u := range setups[setup][1:] {
		c.List = append(c.List, []string{u})
	}
	return &c
}

var ports = []int{6881, 1, 255, 256, 51413, 65535}

// Downloads with slow seeds and every kind of other peer, trackers that ask for announces often.
func TestPeers(t *testing.T) {
	hs := map[*vtor.Layout][]byte{}
	for _, l := range layouts {
		hs[l] = l.Hashes()
	}
	vrt.Explore(t, vrt.Opts{Section: "peers", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(vrt.Pick(3, 4), "layout")]
		bad := x.Choose(len(vswarm.Bads)+1, "other peer")
		setup := x.Choose(len(setups), "trackers")
		interval := vrt.Of(x, "interval", 1, 3)
		pace := vrt.Of(x, "pace", 300*time.Millisecond, 700*time.Millisecond, 2*sec+500*time.Millisecond)
		port := ports[(bad+setup)%len(ports)]
		name := "none"
		addrs := []string{"10.5.0.1:1"}
		if bad > 0 {
			name = vswarm.Bads[bad-1].String()
			addrs = []string{"10.5.0.2:1", "10.5.0.1:1"}
		}
		r := start(x, with(l, setup), hs[l], 2, port, fmt.Sprintf("other peer %s, trackers %v, interval %d, pace %v", name, setups[setup], interval, pace))
		defer r.disk(nil)()
		r.slow("10.5.0.1:1", 100*time.Millisecond, pace)
		if bad > 0 {
			vswarm.Bads[bad-1].Install(r.Peer("10.5.0.2:1"))
		}
		r.trackers(setup, interval, func(int) int { return 0 }, addrs)
		r.Go()
		done := r.finish(5 * time.Minute)
		x.Outcome(l, setup, done, r.values())
	})
}

func (r *run) values() string {
	var vs []uint64
	for v := range r.vals {
		vs = append(vs, v)
	}
	slices.Sort(vs)
	return fmt.Sprint(vs)
}

// disk installs the hook; bad says how many bytes of a write succeed, -1 for all.
func (r *run) disk(bad func(n int, b []byte) int) func() {
	n := 0
	return vtor.OnWrite(r.Dir, func(name string, b []byte, off int64) (int, error) {
		if bad != nil {
			n++
			if k := bad(n-1, b); k >= 0 {
				if k > 0 {
					r.written(name, b[:k], off)
				}
				return k, syscall.ENOSPC
			}
		}
		r.written(name, b, off)
		return 0, nil
	})
}

// Trackers that fail now and then: every attempt tells what is so at that moment.
func TestRetries(t *testing.T) {
	l := layouts[2]
	h := l.Hashes()
	vrt.Explore(t, vrt.Opts{Section: "failing trackers", Bubble: true}, func(x *vrt.X) {
		setup := x.Choose(len(setups), "trackers")
		// the first announce succeeds, later ones fail
		n := vrt.Pick(3, 4)
		fails := make([]int, n)
		for i := range fails {
			fails[i] = x.Choose(6, "reply")
		}
		interval := vrt.Of(x, "interval", 1, 4)
		r := start(x, with(l, setup), h, 2, ports[x.Choose(2, "port")], fmt.Sprintf("trackers %v fail %v, interval %d", setups[setup], fails, interval))
		defer r.disk(nil)()
		r.slow("10.5.0.1:1", 100*time.Millisecond, 3*sec+300*time.Millisecond)
		r.trackers(setup, interval, func(k int) int {
			if k > 0 && k <= n {
				return fails[k-1]
			}
			return 0
		}, []string{"10.5.0.1:1"})
		r.Go()
		if !r.finish(5 * time.Minute) {
			x.Fail("hangs", "the download does not end (%s)", r.what)
		}
		x.Outcome(setup, fails, r.values())
	})
}

// The disk fails: what is not stored is not reported.
func TestDisk(t *testing.T) {
	hs := map[*vtor.Layout][]byte{}
	for _, l := range layouts {
		hs[l] = l.Hashes()
	}
	vrt.Explore(t, vrt.Opts{Section: "failing disk", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		setup := x.Choose(len(setups), "trackers")
		first := x.Choose(7, "first failing write")
		times := vrt.Of(x, "times", 1, 2, 100)
		torn := x.Choose(3, "bytes")
		two := x.Bool("two seeds")
		r := start(x, with(l, setup), hs[l], 2, 6881, fmt.Sprintf("writes from %d on fail %d times (%d), trackers %v", first, times, torn, setups[setup]))
		defer r.disk(func(n int, b []byte) int {
			if n < first || n >= first+times {
				return -1
			}
			return []int{0, len(b) / 2, max(len(b)-1, 0)}[torn]
		})()
		r.slow("10.5.0.1:1", 100*time.Millisecond, 700*time.Millisecond)
		addrs := []string{"10.5.0.1:1"}
		if two {
			r.slow("10.5.0.2:1", 200*time.Millisecond, 1100*time.Millisecond)
			addrs = append(addrs, "10.5.0.2:1")
		}
		r.trackers(setup, 1, func(int) int { return 0 }, addrs)
		r.Go()
		done := r.finish(40 * sec)
		x.Outcome(l, setup, done, r.values())
	})
}

// Torrents of any size, nobody to download from.
func TestSizes(t *testing.T) {
	var sizes []int
	for _, e := range []int{0, 10, 14, 20, 30, 31, 32, 33, 36} {
		sizes = append(sizes, 1<<e-1, 1<<e, 1<<e+1)
	}
	vrt.Explore(t, vrt.Opts{Section: "sizes", Bubble: true}, func(x *vrt.X) {
		size := sizes[x.Choose(len(sizes), "size")]
		files := 1 + x.Choose(3, "files")
		setup := x.Choose(len(setups), "trackers")
		port := ports[x.Choose(len(ports), "port")]
		if size == 0 {
			x.Outcome("no content")
			return
		}
		l := with(&vtor.Layout{Name: "t", PieceLen: 1 << 24}, setup)
		l.Single = files == 1
		rest := size
		for i := 0; i < files; i++ {
			n := rest
			if i < files-1 {
				n = rest / 2
			}
			rest -= n
			l.Files = append(l.Files, vtor.File{Path: string(rune('a' + i)), Len: n})
		}
		r := start(x, l, []byte(strings.Repeat("h", 20*l.Pieces())), 2, port, fmt.Sprintf("%d bytes in %d files, trackers %v", size, files, setups[setup]))
		r.trackers(setup, 3, func(int) int { return 0 }, nil)
		r.Go()
		if r.finish(8 * sec) {
			x.Fail("returns", "a download of %d bytes ends without a peer", size)
		}
		if r.lines == 0 {
			x.Fail("display", "nothing is shown (%s)", r.what)
		}
		x.Outcome(size, files, setup, port, r.news)
	})
}
