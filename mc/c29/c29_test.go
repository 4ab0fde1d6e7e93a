package c29

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C29") }

const (
	kb  = 1 << 10
	sec = time.Second
)

// layouts of the first and the second download; the last of the second is the first torrent again.
var firsts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 2},
	{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 5}}, PieceLen: 3},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 200 * kb}}, PieceLen: 150 * kb},
}

var seconds = []*vtor.Layout{
	{Name: "u", Salt: 12345, Single: true, Files: []vtor.File{{Len: 9}}, PieceLen: 1},
	{Name: "u", Salt: 12345, Files: []vtor.File{{"a", 4}, {"c", 4}}, PieceLen: 3},
	{Name: "u", Salt: 777, Files: []vtor.File{{"a", 130 * kb}, {"b", 70 * kb}}, PieceLen: 140 * kb},
	nil,
}

var (
	hmu sync.Mutex
	hs  = map[*vtor.Layout][]byte{}
)

func hashes(l *vtor.Layout) []byte {
	hmu.Lock()
	defer hmu.Unlock()
	if hs[l] == nil {
		hs[l] = l.Hashes()
	}
	return hs[l]
}

// track adds a tracker both downloads announce to, which judges whose counters it is told.
func track(x *vrt.X, udp bool, ws []*vswarm.W, ports []int, what string, addrs []string) string {
	tell := func(hash string, down, left uint64, port int) {
		for i, w := range ws {
			if string(w.T.Hash) == hash && ports[i] == port {
				if total := uint64(w.L.Total()); down > total || left != total-down {
					x.Fail("counters", "download %d announces %d downloaded and %d left of %d (%s)", i, down, left, total, what)
				}
				return
			}
		}
		x.Fail("announce", "announce with hash %x and port %d (%s)", hash, port, what)
	}
	if udp {
		t := ws[0].UDP("10.0.0.9:1", func(int) vswarm.UReply { return vswarm.UReply{Interval: 2, Addrs: addrs} })
		t.OnPacket = func(b []byte) {
			u := binary.BigEndian.Uint64
			tell(string(b[16:36]), u(b[56:]), u(b[64:]), int(binary.BigEndian.Uint16(b[96:])))
		}
		return "udp://10.0.0.9:1"
	}
	ws[0].HTTP("10.0.0.9:80", func(n int, path string) vswarm.TReply {
		u, _ := url.Parse(path)
		q := u.Query()
		num := func(k string) uint64 { v, _ := strconv.ParseUint(q.Get(k), 10, 64); return v }
		tell(q.Get("info_hash"), num("downloaded"), num("left"), int(num("port")))
		return vswarm.TReply{Status: 200, Body: vswarm.List(2, addrs...), Keep: true}
	})
	return "http://10.0.0.9/announce"
}

// Two downloads in one process with common trackers and peers, the first one possibly ended early.
func TestTwo(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "side by side", Bubble: true}, func(x *vrt.X) {
		a := firsts[x.Choose(len(firsts), "first torrent")]
		k := x.Choose(len(seconds), "second torrent")
		b := seconds[k]
		again := b == nil
		if again {
			b = a
		}
		udp := x.Bool("udp")
		others := x.Choose(vrt.Pick(5, len(vswarm.Bads)+1), "other peer")
		if others > 0 && !vrt.Thorough() {
			others = []int{0, 9, 10, 3, 17}[others]
		}
		after := vrt.Of(x, "second starts after", 0, 500*time.Millisecond, 4*sec, 400*sec)
		// the first ends by itself, is cancelled or stopped
		end := x.Choose(3, "end of the first")
		at := time.Duration(0)
		if end > 0 {
			at = vrt.Of(x, "ended at", 0, 900*time.Millisecond, 1700*time.Millisecond, 4200*time.Millisecond)
		}
		onedir := !again && x.Bool("one directory")
		addrs := []string{"10.5.0.1:1"}
		if others > 0 {
			addrs = []string{"10.5.0.2:1", "10.5.0.1:1"}
		}
		what := fmt.Sprintf("%v and %v (again %v), other peer %d, second after %v, end of the first %d at %v", a.Files, b.Files, again, others, after, end, at)
		la, lb := *a, *b
		url := map[bool]string{true: "udp://10.0.0.9:1", false: "http://10.0.0.9/announce"}[udp]
		la.Announce, lb.Announce = url, url
		net := vnet.New()
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		dirs := []string{dir + "/x", dir + "/y"}
		if onedir {
			dirs[1] = dirs[0]
		}
		for _, d := range dirs {
			os.MkdirAll(d, 0o755)
		}
		ports := []int{6881, 6999}
		ws := []*vswarm.W{vswarm.NewIn(x, &la, hashes(a), 2, ports[0], net, dirs[0]), vswarm.NewIn(x, &lb, hashes(b), 2, ports[1], net, dirs[1])}
		track(x, udp, ws, ports, what, addrs)
		seeds := []*vswarm.Remote{{W: ws[0]}, {W: ws[1]}}
		for _, r := range seeds {
			vswarm.InstallSeed(r, "400 ms")
		}
		vswarm.Shared("10.5.0.1:1", seeds...)
		if others > 0 {
			bads := []*vswarm.Remote{{W: ws[0]}, {W: ws[1]}}
			for _, r := range bads {
				vswarm.Bads[others-1].Install(r)
			}
			vswarm.Shared("10.5.0.2:1", bads...)
		}
		ws[0].Go()
		stop := func() {
			if end == 1 {
				ws[0].Cancel()
			} else {
				ws[0].M.Stop()
			}
		}
		if end > 0 {
			time.AfterFunc(at, stop)
		}
		time.Sleep(after)
		ws[1].Go()
		ok := func(i int) {
			w := ws[i]
			if !w.Wait(time.Hour) {
				x.Fail("unfinished", "download %d does not finish (%s)", i, what)
				return
			}
			if w.Err != nil {
				x.Fail("failed", "download %d: %v (%s)", i, w.Err, what)
			}
			if s := content(w); s != "" {
				x.Fail("content", "download %d: %s (%s)", i, s, what)
			}
		}
		ok(1)
		if end == 0 {
			ok(0)
		} else if !ws[0].Wait(time.Hour) {
			x.Fail("unfinished", "download 0 does not end (%s)", what)
		}
		for i, w := range ws {
			if max := net.MaxOpen["10.5.0.1:1"]; max > 2 {
				x.Fail("twice", "%d connections to one peer at a time (%s)", max, what)
			}
			// what the peers got belongs to the torrent
			for _, rc := range seeds[i].Conns {
				if !bytes.Equal(rc.Shake[28:48], w.T.Hash) {
					x.Fail("hash", "download %d (%s)", i, what)
				}
				for _, m := range rc.Msgs {
					if m.ID == 6 && !m.Keep && (int(m.U(0)) >= w.L.Pieces() || int(m.U(1)+m.U(2)) > w.L.PieceSize(int(m.U(0)))) {
						x.Fail("request", "download %d requests %d %d %d (%s)", i, m.U(0), m.U(1), m.U(2), what)
					}
				}
			}
			w.Cancel()
			w.M.Stop()
		}
		x.Outcome(again, udp, others, end, ws[0].DoneAt.Sub(ws[0].Start).Round(sec), ws[1].DoneAt.Sub(ws[1].Start).Round(sec))
		http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		net.CloseAll()
		synctest.Wait()
		ws[0].T.Close()
		ws[1].T.Close()
	})
}

// content compares the files of one download with what they have to be.
func content(w *vswarm.W) string {
	pos := 0
	for i, p := range w.L.Paths(w.Dir) {
		b, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		if len(b) != w.L.Files[i].Len {
			return fmt.Sprintf("%s has %d bytes", p, len(b))
		}
		for j, c := range b {
			if c != w.L.Byte(pos+j) {
				return fmt.Sprintf("%s is wrong at %d", p, j)
			}
		}
		pos += len(b)
	}
	return ""
}
