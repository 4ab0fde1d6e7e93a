package c12

import (
	"fmt"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

const block = 128 * 1024

var sessLayouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 5*block - 7}}, PieceLen: 2 * block},
}

// what the peer does; the last ones end the session
var events = []string{"answer", "choke", "unchoke", "silence", "have", "corrupt", "end", "reset", "long silence", "cancel"}

// Sessions: what a peer was asked for and did not give is waiting again, once; what was waiting
// before and was not given still waits.
func TestSessions(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sessions", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		l := sessLayouts[x.Choose(2, "layout")]
		waiting := x.Choose(8, "waiting")
		have := x.Choose(8, "advertised")
		depth := vrt.Pick(3, 5)
		if l.PieceLen == 2*block {
			depth = vrt.Pick(3, 4)
		}
		trace := fmt.Sprintf("waiting %03b, advertised %03b:", waiting, have)
		s := vsess.New(x, l)
		for i := 0; i < 3; i++ {
			if waiting>>i&1 == 1 {
				b := s.T.EmptyBitset()
				b.Set(uint(i))
				if _, ok := s.T.Next(b); !ok {
					x.Fail("claim", "a free piece cannot be claimed")
				}
				s.Q.RequestFailed(util.CreatePieceMessage(uint32(i), 0, uint32(min(block, l.PieceSize(i)))))
			}
		}
		claimed := waiting
		var open *vnet.M
		got := map[int]int{}
		s.OnMsg = func(m vsess.Msg) {
			if m.Keep || m.ID != 6 {
				return
			}
			i := int(m.U(0))
			trace += fmt.Sprintf(" <%d+%d", i, m.U(1))
			claimed |= 1 << i
			if m.U(1) == 0 {
				got[i] = 0
			}
			mm := m.M
			open = &mm
		}
		s.Begin()
		b := byte(0)
		for i := 0; i < 3; i++ {
			if have>>i&1 == 1 {
				b |= 0x80 >> i
			}
		}
		s.Push(vnet.Bitfield(b))
		s.Push(vnet.Unchoke())
		s.Settle(time.Second)
		done := 0
		fin := false
		for k := 0; k < depth; k++ {
			e := events[x.Choose(len(events), "event")]
			trace += " " + e
			switch e {
			case "answer", "corrupt":
				if open == nil {
					continue
				}
				m := *open
				a := s.Answer(m)
				if e == "corrupt" {
					a[len(a)-1] ^= 4
				} else {
					i := int(m.U(0))
					got[i] += int(m.U(2))
					if got[i] == l.PieceSize(i) {
						done |= 1 << i
					}
				}
				open = nil
				s.Push(a)
				s.Settle(time.Minute)
			case "choke":
				s.Push(vnet.Choke())
				open = nil
				s.Settle(time.Minute)
			case "unchoke":
				s.Push(vnet.Unchoke())
				s.Settle(time.Minute)
			case "have":
				s.Push(vnet.Have(2))
				s.Settle(time.Minute)
			case "silence":
				s.Sleep(1300 * time.Millisecond)
			case "end":
				s.C.EOF()
				s.Sleep(time.Minute)
			case "reset":
				s.C.Reset()
				s.Sleep(time.Minute)
			case "long silence":
				s.Sleep(70 * time.Second)
				open = nil
			case "cancel":
				s.Finish()
				fin = true
			}
			if s.Ended {
				break
			}
		}
		// the session ends: everything it held is given back
		if !fin {
			trace += " cancel"
			s.Finish()
		}
		seen := map[int]int{}
		for m := s.Q.FailedPieceMessage(); m != nil; m = s.Q.FailedPieceMessage() {
			i := int(m.Index())
			seen[i]++
			if m.Type != util.RequestMessageType || i > 2 || m.Offset() != 0 || int(m.BlockLength()) != min(block, l.PieceSize(i)) {
				x.Fail("changed", "the request %v %d+%d %d waits (%s)", m.Type, i, m.Offset(), m.BlockLength(), trace)
			}
			if len(seen) > 3 || seen[i] > 10 {
				break
			}
		}
		for i := 0; i < 3; i++ {
			want := 0
			if claimed>>i&1 == 1 && done>>i&1 == 0 {
				want = 1
			}
			if seen[i] < want {
				x.Fail("lost", "piece %d was claimed and not given, but no request for it waits (%s)", i, trace)
			}
			if seen[i] > want {
				x.Fail("invented", "%d requests wait for piece %d instead of %d (%s)", seen[i], i, want, trace)
			}
		}
		s.Drop()
		x.Outcome(trace)
	})
}
