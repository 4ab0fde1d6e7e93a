package c12

import (
	"fmt"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
)

func TestMain(m *testing.M) { vrt.Main(m, "C12") }

// request makes the i-th request; all fields differ.
func request(i int) *util.PeerMessage {
	return util.CreatePieceMessage(uint32(i), uint32(100+i), uint32(1000+i))
}

func same(m *util.PeerMessage, i int) bool {
	return m.Type == util.RequestMessageType && m.Index() == uint32(i) && m.Offset() == uint32(100+i) && m.BlockLength() == uint32(1000+i)
}

// All sequences of reporting and taking, one after the other, against a multiset.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences", ShardDepth: 4}, func(x *vrt.X) {
		q := torrent.NewPiecesQueue()
		n := vrt.Pick(14, 18)
		waiting := map[int]int{}
		size := 0
		next := 0
		trace := ""
		take := func() {
			m := q.FailedPieceMessage()
			if m == nil {
				trace += "take:none "
				if size > 0 {
					x.Fail("lost", "%d requests wait but the taker is told there is none (%s)", size, trace)
				}
				return
			}
			i := int(m.Index())
			trace += fmt.Sprintf("take:%d ", i)
			if waiting[i] == 0 {
				x.Fail("invented", "a request is handed out that does not wait (%s)", trace)
			}
			if !same(m, i) {
				x.Fail("changed", "request %d is handed out changed: %d %d %d (%s)", i, m.Index(), m.Offset(), m.BlockLength(), trace)
			}
			waiting[i]--
			size--
		}
		for k := 0; k < n; k++ {
			if x.Bool("take") {
				take()
			} else {
				i := next
				if k%5 == 4 { // the same request fails again
					i = 0
				} else {
					next++
				}
				trace += fmt.Sprintf("fail:%d ", i)
				waiting[i]++
				size++
				q.RequestFailed(request(i))
			}
		}
		for size > 0 {
			take()
		}
		take()
		x.Outcome(trace)
	})
}

// Very many waiting requests (beyond any capacity set aside), taken in bursts.
func TestMany(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many"}, func(x *vrt.X) {
		n := vrt.Of(x, "requests", 1, 2, 99, 100, 101, 102, 127, 128, 129, 199, 200, 201, 255, 256, 257, 1000, 5000)
		burst := vrt.Of(x, "burst", 1, 2, 3, 50, 100, 101, 10000)
		rounds := x.Choose(3, "rounds") + 1
		q := torrent.NewPiecesQueue()
		waiting := map[int]bool{}
		id := 0
		for r := 0; r < rounds; r++ {
			for i := 0; i < n; i++ {
				q.RequestFailed(request(id))
				waiting[id] = true
				id++
			}
			for i := 0; (i < burst || r == rounds-1) && len(waiting) > 0; i++ {
				m := q.FailedPieceMessage()
				if m == nil {
					x.Fail("lost", "%d of %d requests are lost", len(waiting), id)
				}
				k := int(m.Index())
				if !waiting[k] || !same(m, k) {
					x.Fail("invented", "request %d is handed out which does not wait", k)
				}
				delete(waiting, k)
			}
		}
		if q.FailedPieceMessage() != nil {
			x.Fail("invented", "a request is handed out although none waits")
		}
		x.Outcome(n, burst, rounds)
	})
}

type ev struct {
	start, end int
	fail       int // -1: take
	got        int // -1: none
}

// All interleavings of threads that report and take.
func TestThreads(t *testing.T) {
	progs := []string{"FT", "F", "TF", "T", "FF", "TT", "FTFT", "FTT", "TFT"}
	vrt.Explore(t, vrt.Opts{Section: "interleavings", Bubble: true, DevBound: vrt.Pick(2, 3)}, func(x *vrt.X) {
		nt := 2 + x.Choose(2, "threads")
		var ps []string
		lim := len(progs)
		if nt == 3 {
			lim = vrt.Pick(4, 6)
		}
		for i := 0; i < nt; i++ {
			ps = append(ps, progs[x.Choose(lim, "program")])
			if i > 0 && ps[i] < ps[i-1] { // threads are alike: one order is enough
				x.Outcome("symmetric")
				return
			}
		}
		pre := x.Choose(3, "waiting before")
		q := torrent.NewPiecesQueue()
		id := 0
		for ; id < pre; id++ {
			q.RequestFailed(request(id))
		}
		var evs []ev
		clock := 0
		s := vsched.New(x, vsched.Opts{})
		for k, p := range ps {
			base := id
			id += strings.Count(p, "F")
			s.Spawn(fmt.Sprint(k), func() {
				for _, c := range p {
					clock++
					e := ev{start: clock, fail: -1, got: -1}
					if c == 'F' {
						e.fail = base
						q.RequestFailed(request(base))
						base++
					} else if m := q.FailedPieceMessage(); m != nil {
						e.got = int(m.Index())
						if e.got >= id || !same(m, e.got) {
							x.Fail("changed", "a request is handed out that nobody reported: %d %d %d", m.Index(), m.Offset(), m.BlockLength())
						}
					}
					clock++
					e.end = clock
					evs = append(evs, e)
				}
			})
		}
		s.Run(nil)
		s.Stop()
		// drain
		drained := 0
		for {
			m := q.FailedPieceMessage()
			if m == nil {
				break
			}
			e := ev{start: clock + 1, end: clock + 1, fail: -1, got: int(m.Index())}
			clock++
			if !same(m, e.got) {
				x.Fail("changed", "a request is handed out changed")
			}
			evs = append(evs, e)
			if drained++; drained > 100 {
				x.Fail("invented", "more requests are handed out than were reported")
			}
		}
		got := map[int]int{}
		reported := map[int]ev{}
		for i := 0; i < pre; i++ {
			reported[i] = ev{}
		}
		for _, e := range evs {
			if e.fail >= 0 {
				reported[e.fail] = e
			}
		}
		var takes []ev
		for _, e := range evs {
			if e.fail < 0 {
				takes = append(takes, e)
				if e.got >= 0 {
					got[e.got]++
					if r := reported[e.got]; r.start > e.end {
						x.Fail("invented", "request %d is handed out before it was reported", e.got)
					}
				}
			}
		}
		for i := 0; i < id; i++ {
			if got[i] != 1 {
				x.Fail("count", "request %d was reported once and handed out %d times", i, got[i])
			}
		}
		// told "none" only if at some moment in between none was waiting: impossible if some request was
		// waiting from before the start until after the end of the call
		for _, e := range takes {
			if e.got >= 0 {
				continue
			}
			for i := 0; i < id; i++ {
				r := reported[i]
				if r.end >= e.start {
					continue
				}
				taken := true
				for _, g := range takes {
					if g.got == i && g.start > e.end {
						taken = false
					}
				}
				if !taken {
					x.Fail("none", "a taker was told there is none while request %d was waiting", i)
				}
			}
		}
		x.Outcome(ps, pre, evs)
	})
}
