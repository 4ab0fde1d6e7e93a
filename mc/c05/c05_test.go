package c05

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C05") }

var pauses = []time.Duration{0, 300 * time.Millisecond, 1100 * time.Millisecond, 2500 * time.Millisecond}

// feed pushes the stream in the given segments with pauses and compares the messages that are read.
func feed(x *vrt.X, msgs [][]byte, cuts []int, ps []time.Duration, end int) {
	var stream []byte
	for _, m := range msgs {
		stream = append(stream, m...)
	}
	n := vnet.New()
	n.Host("10.0.0.2:1", func(c *vnet.Conn) error {
		var at time.Duration
		prev := 0
		for i, cut := range append(append([]int{}, cuts...), len(stream)) {
			seg := stream[prev:cut]
			prev = cut
			if i > 0 {
				at += ps[i-1]
			}
			if len(seg) == 0 {
				continue
			}
			if at == 0 {
				c.Push(seg)
			} else {
				c.PushAfter(at, seg)
			}
		}
		if end == 1 {
			time.AfterFunc(at+time.Millisecond, c.EOF)
		}
		return nil
	})
	conn, err := gotitnet.NewTimeoutConn("tcp", "10.0.0.2:1", time.Second)
	if err != nil {
		x.Fail("dial", "%v", err)
	}
	var got [][]byte
	idle := 0
	for idle < 12 {
		m, err := conn.ReadPeerMessage()
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				idle++
				continue
			}
			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
			x.Fail("error", "reading messages: unexpected error %v", err)
		}
		got = append(got, m)
	}
	conn.Close()
	synctest.Wait()
	if len(got) != len(msgs) {
		x.Fail("messages", "%d messages were sent, %d were read (cuts %v, pauses %v): sent %x, read %x", len(msgs), len(got), cuts, ps, msgs, got)
	}
	for i := range got {
		if !bytes.Equal(got[i], msgs[i][4:]) {
			x.Fail("messages", "message %d: sent %x, read %x (cuts %v, pauses %v)", i, msgs[i][4:], got[i], cuts, ps)
		}
	}
	x.Outcome(len(got), cuts, ps)
}

var short = [][][]byte{
	{vnet.KeepAlive(), vnet.Unchoke()},
	{vnet.Unchoke(), vnet.KeepAlive()},
	{vnet.Choke(), vnet.Msg(20, 0)},
}

var streams = [][][]byte{
	{vnet.Unchoke(), vnet.KeepAlive(), vnet.KeepAlive()},
	{vnet.Have(0x01020304), vnet.Choke()},
	{vnet.Bitfield(0xff, 0), vnet.Have(5)},
	{vnet.Piece(0, 0, []byte{0, 0, 0, 5, 1})},
	{vnet.Msg(20), vnet.Msg(7), vnet.Msg(200, 0, 0, 0, 0)},
	{vnet.Have(0), vnet.Have(1), vnet.Unchoke()},
}

func length(ms [][]byte) (n int) {
	for _, m := range ms {
		n += len(m)
	}
	return
}

// Every segmentation of short streams; a pause at up to two of the cuts.
func TestSegments(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "all segmentations", Bubble: true, DevBound: vrt.Pick(2, 4), ShardDepth: 5}, func(x *vrt.X) {
		ms := short[x.Choose(len(short), "stream")]
		end := x.Choose(2, "end")
		var cuts []int
		var ps []time.Duration
		for i := 1; i < length(ms); i++ {
			if x.Bool("cut") {
				cuts = append(cuts, i)
				ps = append(ps, pauses[x.Dev(len(pauses), "pause")])
			}
		}
		feed(x, ms, cuts, ps, end)
	})
}

// Longer streams cut at every choice of up to three (thorough four) places, with every pause at each cut.
func TestCuts(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "up to three cuts", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		ms := streams[x.Choose(len(streams), "stream")]
		n := length(ms)
		var cuts []int
		var ps []time.Duration
		from := 1
		for k := 0; k < vrt.Pick(3, 4) && from < n; k++ {
			c := x.Choose(n-from+1, "cut")
			if c == 0 {
				break
			}
			from += c
			cuts = append(cuts, from-1)
			ps = append(ps, pauses[[]int{0, 2, 1, 3}[x.Choose(vrt.Pick(2, 4), "pause")]])
		}
		feed(x, ms, cuts, ps, 0)
	})
}

// Long messages (beyond any internal chunk) cut at two places with every pair of pauses.
func TestLong(t *testing.T) {
	var chunk []byte
	for i := 0; i < 128*1024; i++ {
		chunk = append(chunk, byte(i*7+i>>8))
	}
	vrt.Explore(t, vrt.Opts{Section: "long messages", Bubble: true}, func(x *vrt.X) {
		size := vrt.Of(x, "size", 1, 16383, 16384, 32767-13, 32768-13, 32768, 65536-9, 65536, 128*1024-1, 128*1024)
		ms := [][]byte{vnet.Piece(3, 7, chunk[:size]), vnet.Have(9), vnet.Piece(4, 0, chunk[:min(size, 999)])}
		var n int
		var pos []int
		add := func(p int) {
			for _, d := range []int{-1, 0, 1} {
				pos = append(pos, p+d)
			}
		}
		for _, m := range ms {
			pos = append(pos, n+1, n+4, n+5, n+9, n+13)
			n += len(m)
			add(n)
		}
		for c := 16384; c < len(ms[0]); c += 16384 {
			add(c)
		}
		var ok []int
		last := 0
		seen := map[int]bool{}
		for _, p := range pos {
			if p > 0 && p < n && !seen[p] {
				seen[p] = true
				ok = append(ok, p)
			}
		}
		_ = last
		i := x.Choose(len(ok), "cut 1")
		j := x.Choose(len(ok)+1, "cut 2")
		cuts := []int{ok[i]}
		if j < len(ok) {
			if ok[j] <= ok[i] {
				return
			}
			cuts = append(cuts, ok[j])
		}
		var ps []time.Duration
		for range cuts {
			ps = append(ps, pauses[vrt.Pick([]int{0, 2}, []int{0, 1, 2, 3})[x.Choose(vrt.Pick(2, 4), "pause")]])
		}
		feed(x, ms, cuts, ps, 0)
	})
}

// A message that is not complete is not acted on, however long it says it is and whatever its bytes look like.
func TestIncomplete(t *testing.T) {
	var ps []uint32
	for k := 4; k < 32; k++ {
		ps = append(ps, 1<<k, 1<<k-1, 1<<k+1)
	}
	for d := uint32(1); d <= 20; d++ {
		ps = append(ps, -d)
	}
	ps = append(ps, 3<<30, 1<<31+1<<16, 1<<31|5, 1<<16|5, 1<<24|5, 1<<25|1)
	vrt.Explore(t, vrt.Opts{Section: "incomplete messages", Bubble: true}, func(x *vrt.X) {
		p := ps[x.Choose(len(ps), "length")]
		first := x.Choose(3, "before") // nothing, a message, a keep-alive
		rest := vrt.Of(x, "follows", []byte{}, vnet.Unchoke(), vnet.KeepAlive(), append(vnet.Have(1), vnet.KeepAlive()...), append([]byte{4, 0, 0, 0, 1}, vnet.Choke()...), bytes.Repeat(vnet.Unchoke(), 3))
		if uint32(len(rest)) >= p {
			return
		}
		cut := x.Choose(4, "cut") // one segment, after the length, in the length, before it
		end := x.Choose(2, "end")
		n := vnet.New()
		n.Host("10.0.0.2:1", func(c *vnet.Conn) error {
			var b []byte
			switch first {
			case 1:
				b = append(b, vnet.Have(7)...)
			case 2:
				b = append(b, vnet.KeepAlive()...)
			}
			k := len(b)
			b = append(append(b, byte(p>>24), byte(p>>16), byte(p>>8), byte(p)), rest...)
			switch cut {
			case 0:
				k = len(b)
			case 1:
				k += 4
			case 2:
				k += 2
			}
			c.Push(b[:k])
			c.PushAfter(1300*time.Millisecond, b[k:])
			if end == 1 {
				time.AfterFunc(1500*time.Millisecond, c.EOF)
			}
			return nil
		})
		conn, err := gotitnet.NewTimeoutConn("tcp", "10.0.0.2:1", time.Second)
		if err != nil {
			x.Fail("dial", "%v", err)
		}
		got := 0
		for idle := 0; idle < 5; {
			m, err := conn.ReadPeerMessage()
			if err != nil {
				var ne net.Error
				if errors.As(err, &ne) && ne.Timeout() {
					idle++
					continue
				}
				break
			}
			got++
			if first == 0 || got > 1 {
				x.Fail("incomplete", "of a message of %d bytes only %x arrived, yet %x is read as a message", p, rest, m)
			}
		}
		conn.Close()
		synctest.Wait()
		if first > 0 && got != 1 {
			x.Fail("messages", "the message before an incomplete one is not read")
		}
		x.Outcome(p, first, cut, end)
	})
}

// Whole sessions: everything the seed sends is cut at one place (or one byte at a time) with a pause;
// the download has to proceed as if it were not.
func TestSession(t *testing.T) {
	layouts := []*vtor.Layout{
		{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 3},
		{Name: "t", Single: true, Files: []vtor.File{{Len: 40}}, PieceLen: 20},
		{Name: "t", Single: true, Files: []vtor.File{{Len: 128*1024 + 9}}, PieceLen: 256 * 1024},
	}
	vrt.Explore(t, vrt.Opts{Section: "sessions", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		mode := x.Choose(3, "mode") // one cut, one cut with the next message glued on, byte by byte
		pause := pauses[x.Choose(len(pauses), "pause")]
		// positions: within the stream the seed sends
		hdr := len(vnet.Handshake(make([]byte, 20), "")) // the handshake is kept whole
		_ = hdr
		cut := -1
		if mode < 2 {
			cut = x.Choose(vrt.Pick(60, 120), "cut")
		} else if l.Total() > 1000 {
			return
		}
		s := vsess.New(x, l)
		defer s.Drop()
		sent := 0
		var late time.Duration // when the last part pushed so far arrives
		push := func(b []byte) {
			now := time.Since(s.Start)
			if late < now {
				late = now
			}
			put := func(b []byte) {
				if len(b) == 0 {
					return
				}
				if late == now {
					s.C.Push(b)
				} else {
					s.C.PushAfter(late-now, b)
				}
			}
			if mode == 2 {
				for i := range b {
					put(b[i : i+1])
					if pause > 0 {
						late += pause / 10
					} else {
						late += time.Millisecond
					}
				}
				return
			}
			c := cut
			if l.Total() > 1000 && cut >= 30 { // spread over the long message
				c = 30 + (cut-30)*4500
			}
			if c > sent && c < sent+len(b) {
				put(b[:c-sent])
				late += pause
				if pause == 0 {
					late += time.Millisecond
				}
				put(b[c-sent:])
			} else {
				put(b)
			}
			sent += len(b)
		}
		s.OnMsg = func(m vsess.Msg) {
			if !m.Keep && m.ID == 6 {
				a := s.Answer(m.M)
				if mode == 1 {
					a = append(a, vnet.KeepAlive()...)
					a = append(a, vnet.Have(0)...)
				}
				push(a)
			}
		}
		s.Begin()
		push(s.All())
		push(vnet.KeepAlive())
		push(vnet.Unchoke())
		synctest.Wait()
		for i := 0; i < 600 && !s.T.Done(); i++ {
			s.Sleep(500 * time.Millisecond)
		}
		done := s.T.Done()
		s.Finish()
		if !done {
			x.Fail("stuck", "the download does not finish when the stream of a correct seed is cut at byte %d (mode %d, pause %v); requests: %v", cut, mode, pause, s.Requests())
		}
		if w := l.Verify(s.Dir, nil); w != "" {
			x.Fail("content", "wrong content: %s", w)
		}
		x.Outcome(fmt.Sprint(s.Requests()))
	})
}

// The answer to the handshake and the first messages are one stream: every way of cutting it at up to two places, with every
// pause, loses nothing.  A handshake that does not arrive in time may be refused.
func TestHandshake(t *testing.T) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 3}
	vrt.Explore(t, vrt.Opts{Section: "handshake and first messages", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		const n = 68 + 6 + 4 + 5
		a := x.Choose(n, "cut 1")
		pa := pauses[x.Choose(len(pauses), "pause 1")]
		b, pb := 0, time.Duration(0)
		if vrt.Pick(a >= 60 && a <= 73, true) {
			b = x.Choose(n-a, "cut 2")
			if b > 0 {
				pb = pauses[x.Choose(len(pauses), "pause 2")]
			}
		}
		b += a
		s := vsess.New(x, l)
		defer s.Drop()
		slow := false
		s.Hello = func(c *vnet.Conn) {
			st := vnet.Handshake(s.T.Hash, "-XX0001-remoteremote")
			st = append(st, s.All()...)
			st = append(st, vnet.KeepAlive()...)
			st = append(st, vnet.Unchoke()...)
			if len(st) != n {
				x.Fail("harness", "stream of %d bytes", len(st))
			}
			var at time.Duration
			put := func(b []byte) {
				if len(b) == 0 {
					return
				}
				if at == 0 {
					c.Push(b)
				} else {
					c.PushAfter(at, b)
				}
			}
			put(st[:a])
			at += pa
			put(st[a:b])
			at += pb
			put(st[b:])
			whole := time.Duration(0) // when the handshake is there
			if a < 68 {
				whole += pa
			}
			if b < 68 {
				whole += pb
			}
			slow = whole >= time.Second
		}
		s.OnMsg = func(m vsess.Msg) {
			if !m.Keep && m.ID == 6 {
				s.C.Push(s.Answer(m.M))
			}
		}
		if err := s.Announce(); err != nil {
			s.Net.CloseAll()
			synctest.Wait()
			if !slow {
				x.Fail("refused", "a correct handshake, cut at %d and %d with pauses of %v and %v, is refused: %v", a, b, pa, pb, err)
			}
			x.Outcome("refused")
			return
		}
		s.Go()
		for i := 0; i < 60 && !s.T.Done(); i++ {
			s.Sleep(500 * time.Millisecond)
		}
		done := s.T.Done()
		s.Finish()
		if !done {
			x.Fail("stuck", "the download does not finish when the handshake and the first messages of a correct seed are cut at %d and %d with pauses of %v and %v; requests: %v", a, b, pa, pb, s.Requests())
		}
		if w := l.Verify(s.Dir, nil); w != "" {
			x.Fail("content", "wrong content: %s", w)
		}
		x.Outcome(a, b, pa, pb)
	})
}
