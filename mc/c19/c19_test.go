package c19

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C19") }

const limit = 2 * time.Minute

// gaps checks the pauses between the client's writes while the session was running.
func gaps(x *vrt.X, s *vsess.S, what string) {
	last := s.Start
	check := func(at time.Time) {
		if d := at.Sub(last); d > limit {
			x.Fail("gap", "nothing is sent for %v (from %v to %v of the session): %s", d, last.Sub(s.Start), at.Sub(s.Start), what)
		}
		last = at
	}
	for _, w := range s.C.Writes() {
		check(w.At)
	}
	end := time.Now()
	if s.Ended {
		end = s.EndAt
	}
	check(end)
	if len(s.Rest) != 0 {
		x.Fail("garbage", "bytes that form no message were sent: %x", s.Rest)
	}
	keeps := 0
	for _, w := range s.C.Writes() {
		if len(w.Data) >= 4 && bytes.Equal(w.Data[:4], []byte{0, 0, 0, 0}) {
			keeps++
		}
	}
	x.Outcome(what, len(s.Msgs), keeps, s.Ended)
}

var steps = []time.Duration{0, 31300 * time.Millisecond, 65 * time.Second, 113500 * time.Millisecond}

// Few events of the remote at all combinations of distances, then silence.
func TestSparse(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sparse events", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2}
		start := x.Choose(4, "start") // nothing, bitfield only, unchoked without pieces, unchoked with the pieces and answered
		step0 := x.Choose(len(steps), "when")
		ev0 := x.Choose(6, "event")
		s := vsess.New(x, l)
		defer s.Drop()
		answer := true
		what := fmt.Sprintf("start %d", start)
		s.OnMsg = func(m vsess.Msg) {
			if !m.Keep && m.ID == 6 && answer && m.U(0) != 2 { // the last piece is never sent
				s.C.Push(s.Answer(m.M))
			}
		}
		s.Begin()
		switch start {
		case 1:
			s.Push(s.All())
		case 2:
			s.Push(vnet.Unchoke())
		case 3:
			s.Push(append(vnet.Bitfield(0xc0), vnet.Unchoke()...))
		}
		n := vrt.Pick(3, 4)
		for i := 0; i < n; i++ {
			st, ev := step0, ev0
			if i > 0 {
				st, ev = x.Choose(len(steps), "when"), x.Choose(6, "event")
			}
			s.Sleep(steps[st])
			if s.Ended {
				break
			}
			what += fmt.Sprintf(" +%v event %d", steps[st], ev)
			switch ev {
			case 0: // nothing
			case 1:
				s.Push(vnet.Choke())
			case 2:
				s.Push(vnet.Unchoke())
			case 3: // a keep-alive in two parts
				s.Push([]byte{0, 0, 0})
				s.Sleep(1200 * time.Millisecond)
				s.Push([]byte{0})
			case 4:
				s.Push(vnet.Have(1))
			case 5:
				s.Push(vnet.Have(2)) // offers the piece that is never sent
			}
		}
		s.Sleep(5 * time.Minute)
		gaps(x, s, what)
		s.Finish()
	})
}

// A remote that sends something all the time, in every rhythm, for ten minutes.
func TestRhythm(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "steady chatter", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2}
		every := vrt.Of(x, "every", 200*time.Millisecond, 900*time.Millisecond, 1000*time.Millisecond, 1100*time.Millisecond, 3*time.Second, 7*time.Second, 29*time.Second, 40*time.Second, 119*time.Second, 121*time.Second)
		other := vnet.Harmless(3)
		pat := x.Choose(9+len(other), "pattern")
		unch := x.Choose(2, "unchoked")
		s := vsess.New(x, l)
		defer s.Drop()
		s.Begin()
		if unch == 1 {
			s.Push(vnet.Unchoke())
		}
		for i := 0; time.Since(s.Start) < 11*time.Minute && !s.Ended; i++ {
			s.Sleep(every)
			switch pat {
			case 0:
				s.Push(vnet.KeepAlive())
			case 1:
				s.Push(vnet.Choke())
			case 2:
				s.Push(vnet.Have(9))
			case 3:
				s.Push(vnet.Msg(30))
			case 4: // choke and unchoke in turn
				s.Push([][]byte{vnet.Choke(), vnet.Unchoke()}[i%2])
			case 5:
				s.Push(vnet.Unchoke())
			case 6:
				s.Push(vnet.Interested())
			case 7: // an endless message, byte by byte
				if i == 0 {
					s.Push([]byte{0, 1, 0, 0, 20})
				}
				s.Push([]byte{1})
			case 8: // repeated, unrequested, correct data
				s.Push(vnet.Piece(0, 0, l.Piece(0)))
			default:
				s.Push(other[pat-9].B)
			}
		}
		gaps(x, s, fmt.Sprintf("every %v pattern %d unchoked %d", every, pat, unch))
		s.Finish()
	})
}
