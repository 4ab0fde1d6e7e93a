package c24

import (
	"bytes"
	"encoding/binary"
	"fmt"
	neturl "net/url"
	"os"
	"regexp"
	"strconv"
	"testing"
	"time"

	"github.com/gosuri/uilive"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) {
	uilive.RefreshInterval = time.Hour
	vrt.Main(m, "C24")
}

func left(size, down uint64) uint64 {
	if down >= size {
		return 0
	}
	return size - down
}

// check compares everything with the sums of what was reported.
func check(x *vrt.X, s *stats.Stats, size, down, up, peers, trackers uint64, what string) {
	if s.Download() != down || s.Upload() != up || s.PeerNum() != peers || s.TrackerNum() != trackers {
		x.Fail("sums", "reported downloaded %d, uploaded %d, peers %d, trackers %d, counted %d, %d, %d, %d (%s)", down, up, peers, trackers, s.Download(), s.Upload(), s.PeerNum(), s.TrackerNum(), what)
	}
	if l := s.Left(); l != left(size, down) {
		x.Fail("left", "size %d, downloaded %d, left says %d (%s)", size, down, l, what)
	}
	percent(x, s, size, down, what)
}

func percent(x *vrt.X, s *stats.Stats, size, down uint64, what string) {
	p := s.PercentCompleted()
	if p < 0 || p > 100 {
		x.Fail("percent-range", "size %d, downloaded %d: %d percent (%s)", size, down, p, what)
	}
	if p == 100 && down < size {
		x.Fail("percent-100", "size %d, downloaded %d: 100 percent (%s)", size, down, what)
	}
}

var shown = regexp.MustCompile(`(-?\d+)%`)

// render prints the progress and reads the percentage back.
func render(x *vrt.X, s *stats.Stats, size, down uint64, what string) {
	var out bytes.Buffer
	uilive.Out = &out
	p := stats.NewProgressPrinter(s)
	p.Print()
	p.Print()
	p.Close()
	m := shown.FindStringSubmatch(out.String())
	if m == nil {
		x.Fail("display", "no percentage in %q (%s)", out.String(), what)
	}
	n, err := strconv.Atoi(m[1])
	if err != nil || n < 0 || n > 100 || (n == 100 && down < size) {
		x.Fail("display", "size %d, downloaded %d: the display shows %s (%s)", size, down, m[0], what)
	}
}

var values = func() []uint64 {
	v := []uint64{0}
	for _, b := range []uint64{1, 2, 3, 50, 99, 100, 101, 199, 200, 201, 255, 256, 1000, 65535, 65536, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 52, 1 << 53, 1 << 54, 1 << 62, 1 << 63} {
		v = append(v, b-1, b, b+1)
	}
	return append(v, ^uint64(0)-2, ^uint64(0)-1, ^uint64(0))
}()

// All pairs of sizes and downloaded amounts.
func TestValues(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "values", Bubble: true}, func(x *vrt.X) {
		size := vrt.Of(x, "size", values...)
		down := vrt.Of(x, "downloaded", values...)
		parts := 1 + x.Choose(2, "parts")
		later := vrt.Of(x, "later", 0, time.Nanosecond, 3*time.Second, 1000*time.Hour)
		s := stats.NewStats(size)
		check(x, s, size, 0, 0, 0, 0, "new")
		if parts == 2 {
			s.AddDownload(down / 3)
			check(x, s, size, down/3, 0, 0, 0, "part")
			s.AddDownload(down - down/3)
		} else {
			s.AddDownload(down)
		}
		s.AddUpload(size)
		s.AddPeer()
		time.Sleep(later)
		check(x, s, size, down, size, 1, 0, "set")
		render(x, s, size, down, "set")
		x.Outcome(size, down, parts, s.PercentCompleted())
	})
}

// Every downloaded amount of small sizes, and the last bytes of large ones.
func TestNear(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "every amount"}, func(x *vrt.X) {
		size := uint64(1 + x.Choose(vrt.Pick(300, 1200), "size"))
		big := vrt.Of(x, "scale", uint64(1), 1<<20, 1<<33, 1<<52)
		s := stats.NewStats(size * big)
		for d := uint64(0); d <= size+2; d++ {
			check(x, s, size*big, d*big, 0, 0, 0, "step")
			if d == size-1 || d == size || size < 40 {
				render(x, s, size*big, d*big, "step")
			}
			s.AddDownload(big - 1)
			if d+1 == size {
				percent(x, s, size*big, d*big+big-1, "one byte missing")
				if big > 1 && s.Left() != 1 {
					x.Fail("left", "one byte is missing, left says %d", s.Left())
				}
			}
			s.AddDownload(1)
		}
		x.Outcome(size, big)
	})
}

// All sequences of reports.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of reports"}, func(x *vrt.X) {
		size := vrt.Of(x, "size", uint64(0), 5, 1<<33)
		s := stats.NewStats(size)
		var d, u, p, tr uint64
		what := ""
		for k := 0; k < vrt.Pick(5, 6); k++ {
			op := x.Choose(8, "report")
			switch op {
			case 0:
				s.AddDownload(0)
			case 1:
				s.AddDownload(3)
				d += 3
			case 2:
				s.AddDownload(1 << 32)
				d += 1 << 32
			case 3:
				s.AddUpload(7)
				u += 7
			case 4:
				s.AddPeer()
				p++
			case 5:
				if p > 0 {
					s.RemovePeer()
					p--
				}
			case 6:
				s.AddTracker()
				tr++
			case 7:
				if tr > 0 {
					s.RemoveTracker()
					tr--
				}
			}
			what += fmt.Sprint(op, " ")
			check(x, s, size, d, u, p, tr, what)
		}
		x.Outcome(size, d, u, p, tr)
	})
}

var layouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 3}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 12}}, PieceLen: 4},
	{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 4}}, PieceLen: 3},
	{Name: "t", Files: []vtor.File{{"a", 5}, {"b", 1}, {"c", 2}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 400}}, PieceLen: 100},
}

// What is counted while pieces are stored: each stored piece once, repeated and failing ones not.
func TestStoring(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "stored pieces"}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		n := l.Pieces()
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		tor, err := l.Open(dir)
		if err != nil {
			x.Fail("open", "a consistent torrent is refused: %v", err)
		}
		defer tor.Close()
		full, err := os.OpenFile("/dev/full", os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		defer full.Close()
		size := uint64(l.Total())
		s := stats.NewStats(size)
		have := map[int]bool{}
		down := uint64(0)
		what := ""
		for k := 0; k < vrt.Pick(n+2, n+3); k++ {
			i := x.Choose(2*n, "delivery")
			ok := i < n
			i %= n
			old := append([]*os.File{}, tor.OsFiles...)
			if !ok {
				for j := range tor.OsFiles {
					tor.OsFiles[j] = full
				}
			}
			ch := make(chan *util.PeerMessage, 1)
			ch <- l.Msg(i)
			close(ch)
			tor.WritePiece(ch, s)
			copy(tor.OsFiles, old)
			if ok && !have[i] {
				have[i] = true
				down += uint64(l.PieceSize(i))
			}
			what += fmt.Sprint(i, ok, "; ")
			check(x, s, size, down, 0, 0, 0, what)
		}
		x.Outcome(l.PieceLen, down)
	})
}

// Interleavings of updaters and a reader.
func TestThreads(t *testing.T) {
	type op struct {
		f          func(s *stats.Stats)
		d, u, p, t int
	}
	down := func(n int) op { return op{f: func(s *stats.Stats) { s.AddDownload(uint64(n)) }, d: n} }
	up := op{f: func(s *stats.Stats) { s.AddUpload(3) }, u: 3}
	peer := op{f: (*stats.Stats).AddPeer, p: 1}
	gone := op{f: (*stats.Stats).RemovePeer, p: -1}
	track := op{f: (*stats.Stats).AddTracker, t: 1}
	lost := op{f: (*stats.Stats).RemoveTracker, t: -1}
	progs := [][]op{{down(1), down(2)}, {down(4), up}, {up, up}, {peer, gone}, {peer, peer}, {track, lost}, {track, track, down(1)}, {down(7), peer}}
	vrt.Explore(t, vrt.Opts{Section: "interleavings", Bubble: true, DevBound: vrt.Pick(2, 3), ShardDepth: 2}, func(x *vrt.X) {
		n := 2 + x.Choose(2, "updaters")
		ps := make([]int, n)
		for i := range ps {
			ps[i] = x.Choose(len(progs), "program")
			if i > 0 && ps[i] < ps[i-1] {
				x.Outcome("symmetric")
				return
			}
		}
		reader := x.Choose(4, "reader")
		if n == 3 && reader != 3 && !vrt.Thorough() {
			x.Outcome("left out")
			return
		}
		const size = 9
		st := stats.NewStats(size)
		var before, total op
		st.AddPeer()
		st.AddTracker()
		total.p, total.t = 1, 1
		started := 0
		s := vsched.New(x, vsched.Opts{})
		for i, p := range ps {
			s.Spawn(fmt.Sprint(i), func() {
				for _, o := range progs[p] {
					started += o.d
					o.f(st)
					before.d += o.d
				}
			})
			for _, o := range progs[p] {
				total.d += o.d
				total.u += o.u
				total.p += o.p
				total.t += o.t
			}
		}
		seen := ""
		if reader == 3 {
			s.Run(nil)
			s.Stop()
			check(x, st, size, uint64(total.d), uint64(total.u), uint64(total.p), uint64(total.t), fmt.Sprint("programs ", ps))
			x.Outcome(ps, reader)
			return
		}
		s.Spawn("reader", func() {
			for k := 0; k < 2 && reader < 3; k++ {
				lo := before.d
				switch reader {
				case 0:
					v := st.Left()
					if hi := started; v > left(size, uint64(lo)) || v < left(size, uint64(hi)) {
						x.Fail("left", "left says %d, downloaded was between %d and %d of %d", v, lo, hi, size)
					}
					seen += fmt.Sprint(v, " ")
				case 1:
					v := st.PercentCompleted()
					if v < 0 || v > 100 || (v == 100 && started < size) {
						x.Fail("percent", "%d percent, downloaded was between %d and %d of %d", v, lo, started, size)
					}
					seen += fmt.Sprint(v, " ")
				case 2:
					v := st.Download()
					if hi := started; v < uint64(lo) || v > uint64(hi) {
						x.Fail("sums", "downloaded says %d, was between %d and %d", v, lo, hi)
					}
					seen += fmt.Sprint(v, " ")
				}
			}
		})
		s.Run(nil)
		s.Stop()
		check(x, st, size, uint64(total.d), uint64(total.u), uint64(total.p), uint64(total.t), fmt.Sprint("programs ", ps))
		x.Outcome(ps, reader, seen)
	})
}

// A piece is stored while somebody looks: what is counted is what was stored.
func TestWriter(t *testing.T) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 3}}, PieceLen: 2}
	progs := [][]int{{0, 1}, {1, 0}, {0, 0, 1}, {1, 1}}
	vrt.Explore(t, vrt.Opts{Section: "interleavings with the writer", Bubble: true, DevBound: vrt.Pick(2, 3), ShardDepth: 1}, func(x *vrt.X) {
		prog := progs[x.Choose(len(progs), "deliveries")]
		reader := x.Choose(3, "reader")
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		tor, err := l.Open(dir)
		if err != nil {
			x.Fail("open", "a consistent torrent is refused: %v", err)
		}
		defer tor.Close()
		st := stats.NewStats(3)
		ch := make(chan *util.PeerMessage, 8)
		want := map[int]int{}
		for _, i := range prog {
			ch <- l.Msg(i)
			want[i] = l.PieceSize(i)
		}
		close(ch)
		s := vsched.New(x, vsched.Opts{})
		s.Spawn("writer", func() { tor.WritePiece(ch, st) })
		if reader > 0 {
			s.Spawn("reader", func() {
				for k := 0; k < 2; k++ {
					if reader == 1 {
						if v := st.Left(); v > 3 {
							x.Fail("left", "left says %d of 3", v)
						}
					} else if v := st.PercentCompleted(); v < 0 || v > 100 || v == 100 && st.Download() < 3 {
						x.Fail("percent", "%d percent", v)
					}
				}
			})
		}
		s.Run(nil)
		s.Stop()
		sum := want[0] + want[1]
		check(x, st, 3, uint64(sum), 0, 0, 0, fmt.Sprint(prog))
		x.Outcome(prog, reader, sum)
	})
}

// What is announced: a whole download from a seed that serves a few pieces per connection, with every announce telling the
// amounts at that moment.
func TestAnnounced(t *testing.T) {
	layouts := []*vtor.Layout{
		{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 2},
		{Name: "t", Files: []vtor.File{{Path: "a", Len: 3}, {Path: "b", Len: 0}, {Path: "c", Len: 5}}, PieceLen: 4},
		{Name: "t", Single: true, Files: []vtor.File{{Len: 3*128*1024 + 9}}, PieceLen: 128*1024 + 1},
	}
	extra := [][2]uint64{{0, 0}, {1, 5}, {0, 1 << 40}, {1 << 40, 7}, {2, 0}}
	vrt.Explore(t, vrt.Opts{Section: "announced counters", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		udp := x.Bool("udp")
		k := 1 + x.Choose(3, "pieces per connection")
		e := extra[x.Choose(len(extra), "reported")]
		url, addr := "http://10.0.0.1:80/announce", "10.0.0.2:6881"
		if udp {
			url = "udp://10.0.0.1:80"
		}
		l = &vtor.Layout{Name: l.Name, Single: l.Single, Files: l.Files, PieceLen: l.PieceLen, Announce: url}
		w := vswarm.New(x, l, 3)
		if u, ok := any(w.M).(interface{ UpdateStatus(down, up uint64) }); ok {
			u.UpdateStatus(e[0], e[1])
		} else {
			e = [2]uint64{}
		}
		served := map[uint32]int{} // bytes sent of each piece
		var want []uint64
		now := func() {
			sum := uint64(0)
			for _, b := range served {
				sum += uint64(b)
			}
			want = append(want, sum+e[0])
		}
		var tr *vswarm.Tracker
		if udp {
			tr = w.UDP("10.0.0.1:80", func(int) vswarm.UReply { now(); return vswarm.UReply{Interval: 60, Addrs: []string{addr}} })
		} else {
			tr = w.HTTP("10.0.0.1:80", func(int, string) vswarm.TReply {
				now()
				return vswarm.TReply{Status: 200, Body: vswarm.List(60, addr)}
			})
		}
		r := w.Peer(addr)
		r.Msg = func(rc *vswarm.RC, m vnet.M) {
			if !m.Keep && m.ID == 6 {
				if served[m.U(0)] == 0 {
					rc.Data["pieces"]++
				}
				if rc.Data["pieces"] > k {
					return
				}
				served[m.U(0)] += int(m.U(2))
			}
			rc.Seed(m)
		}
		w.Go()
		if !w.Wait(10 * time.Minute) {
			x.Fail("unfinished", "the download does not finish")
		}
		w.End()
		if len(tr.Paths) != len(want) {
			x.Fail("harness", "%d announces, %d expected", len(tr.Paths), len(want))
		}
		for n, p := range tr.Paths {
			exp := [5]string{string(w.T.Hash), fmt.Sprint(want[n]), fmt.Sprint(left(uint64(l.Total()), want[n])), fmt.Sprint(e[1]), "6881"}
			var got [5]string
			if udp {
				b := []byte(p)
				u := func(o int) string { return fmt.Sprint(binary.BigEndian.Uint64(b[o:])) }
				got = [5]string{p[16:36], u(56), u(64), u(72), fmt.Sprint(binary.BigEndian.Uint16(b[96:]))}
			} else {
				u, err := neturl.Parse(p)
				if err != nil {
					x.Fail("request", "%q", p)
				}
				q := u.Query()
				got = [5]string{q.Get("info_hash"), q.Get("downloaded"), q.Get("left"), q.Get("uploaded"), q.Get("port")}
			}
			if got != exp {
				x.Fail("announced", "announce %d tells hash, downloaded, left, uploaded and port %q, right is %q", n, got, exp)
			}
		}
		x.Outcome(udp, k, e, want)
	})
}
