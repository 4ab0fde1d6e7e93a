package c06

import (
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C06") }

const (
	constant = 64 << 20 // what may be set aside whatever is received
	factor   = 1024     // and per received byte (all allocations are counted, also those given back)
)

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// heap returns how much memory the heap has taken so far, at its largest.
func heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapSys
}

// meter judges the memory used since it was made.  All allocations together, also those already given back, are a
// cheap upper bound; if they are too many, the execution runs again in a process of its own, where the growth of
// the heap is what counts.
type meter struct{ allocated, heap uint64 }

func newMeter() meter { return meter{allocated(), heap()} }

func (m meter) check(x *vrt.X, n int, format string, a ...any) {
	limit := constant + factor*uint64(n)
	if x.Replaying() {
		if now := heap(); now > m.heap+limit {
			x.Fail("memory", format+": the heap grew by %d bytes", append(a, now-m.heap)...)
		}
		return
	}
	if used := allocated() - m.allocated; used > limit && x.Confirm() {
		x.Fail("memory", format+": %d bytes were allocated", append(a, used)...)
	}
}

var (
	small = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 28}}, PieceLen: 10}
	multi = &vtor.Layout{Name: "t", Files: []vtor.File{{"a", 131072 + 7}, {"b", 131072 * 2}}, PieceLen: 131072 + 10}
)

// hashes are expensive for the large layout
var hashes = map[*vtor.Layout][]byte{}

var stateNames = []string{"fresh", "announced", "unchoked", "one request open", "choked with a request open", "second block open", "last piece open", "several blocks, first open"}

// prepare brings a session into a state.
func prepare(x *vrt.X, state int) *vsess.S {
	l := small
	if state == 5 || state == 7 {
		l = multi
	}
	if hashes[l] == nil {
		hashes[l] = l.Hashes()
	}
	s := vsess.NewH(x, l, hashes[l])
	s.Begin()
	switch state {
	case 1:
		s.Push(s.All())
	case 2:
		s.Push(vnet.Unchoke())
	case 3, 7:
		s.Push(append(s.All(), vnet.Unchoke()...))
	case 4:
		s.Push(append(s.All(), vnet.Unchoke()...))
		s.Push(vnet.Choke())
	case 5:
		s.Push(append(s.All(), vnet.Unchoke()...))
		if r := s.Requests(); len(r) > 0 {
			s.Push(s.Answer(r[len(r)-1].M))
		}
	case 6:
		s.Push(append(vnet.Have(2), vnet.Unchoke()...))
	}
	return s
}

// hostile runs a session in a state, sends the segments and watches memory.
func hostile(x *vrt.X, state int, end int, segs ...[]byte) {
	s := prepare(x, state)
	defer s.Drop()
	n := 0
	for _, b := range segs {
		n += len(b)
	}
	m := newMeter()
	for _, b := range segs {
		s.C.Push(b)
		synctest.Wait()
	}
	switch end {
	case 1:
		s.C.EOF()
	case 2:
		s.C.Reset()
	}
	s.Sleep(2500 * time.Millisecond)
	m.check(x, n, "%d bytes were received in state %q", n, stateNames[state])
	ended := s.Ended
	s.Finish()
	x.Outcome(state, end, ended, len(s.Msgs))
}

var ids = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 97, 98, 99, 100, 127, 128, 255}

// Every message id with every short payload length and several fillings, in every state.
func TestShort(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "every id and short length", Bubble: true}, func(x *vrt.X) {
		id := ids[x.Choose(len(ids), "id")]
		n := x.Choose(vrt.Pick(21, 40), "length")
		state := x.Choose(len(stateNames)-1, "state")
		fill := vrt.Of(x, "fill", byte(0), byte(0xff), byte(0x7f), byte(0x80), byte(1))
		p := make([]byte, n)
		for i := range p {
			p[i] = fill
			if fill == 1 {
				p[i] = byte(i % 4 / 3) // words of value 1
			}
		}
		hostile(x, state, x.Choose(2, "end"), vnet.Msg(id, p...))
	})
}

var words = []uint32{0, 1, 2, 3, 4, 9, 10, 131071, 131072, 131073, 131082, 262143, 1<<31 - 1, 1 << 31, 1<<32 - 131072, 1<<32 - 10, 1<<32 - 1}

// Messages with extreme numbers.
func TestNumbers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "extreme numbers", Bubble: true}, func(x *vrt.X) {
		i := words[x.Choose(len(words), "index")]
		kind := x.Choose(4, "kind")
		state := x.Choose(len(stateNames), "state")
		switch kind {
		case 0:
			hostile(x, state, 0, vnet.Have(i))
		case 1, 2:
			ws := vrt.Pick([]uint32{0, 10, 131072, 1 << 31, 1<<32 - 1}, words)
			o, n := ws[x.Choose(len(ws), "offset")], ws[x.Choose(len(ws), "size")]
			b := vnet.Request(i, o, n)
			if kind == 2 {
				b = vnet.Cancel(i, o, n)
			}
			hostile(x, state, 0, b)
		case 3:
			o := words[x.Choose(len(words), "offset")]
			n := vrt.Of(x, "size", 0, 1, 7, 8, 9, 10, 11, 131071, 131072, 131073, 131082, 131083)
			hostile(x, state, 0, vnet.Piece(i, o, make([]byte, n)))
		}
	})
}

func prefix(n uint32, b ...byte) []byte { return append(binary.BigEndian.AppendUint32(nil, n), b...) }

// A length that is not followed by that many bytes.
func TestPrefix(t *testing.T) {
	var ps []uint32
	for k := 0; k < 32; k++ {
		ps = append(ps, 1<<k, 1<<k-1, 1<<k+1)
	}
	ps = append(ps, 1<<32-1, 1<<32-2, 1<<32-3, 1<<32-4, 1<<32-5, 1<<32-6, 3<<30, 1<<32-131072)
	vrt.Explore(t, vrt.Opts{Section: "lying lengths", Bubble: true}, func(x *vrt.X) {
		p := ps[x.Choose(len(ps), "prefix")]
		state := x.Choose(len(stateNames), "state")
		n := vrt.Of(x, "bytes", 0, 1, 5, 9, 13, 40, 40000)
		body := make([]byte, n)
		if n > 0 {
			body[0] = vrt.Of[byte](x, "id", 7, 5, 4, 0)
		}
		switch x.Choose(4, "delivery") {
		case 0:
			hostile(x, state, 0, prefix(p, body...))
		case 1:
			hostile(x, state, 1, prefix(p, body...))
		case 2:
			hostile(x, state, 2, prefix(p), body)
		case 3:
			hostile(x, state, 0, prefix(p, body...), prefix(p, body...), prefix(0xffffffff))
		}
	})
}

func pool(l *vtor.Layout) [][]byte {
	n := uint32(l.Pieces())
	return [][]byte{
		vnet.Unchoke(), vnet.Choke(), vnet.Have(n - 1), vnet.Have(n), vnet.Have(1<<32 - 1), vnet.Msg(4), vnet.Msg(4, 1, 2, 3),
		vnet.Bitfield(), vnet.Bitfield(0xff), vnet.Bitfield(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff), vnet.Bitfield(make([]byte, 70000)...),
		vnet.Piece(0, 0, nil), vnet.Piece(0, 0, make([]byte, l.PieceLen)), vnet.Piece(n-1, 0, make([]byte, l.PieceLen)), vnet.Piece(n, 0, make([]byte, l.PieceLen)),
		vnet.Piece(0, 0, l.Piece(0)), vnet.Piece(n-1, 0, l.Piece(int(n-1))), vnet.Piece(0, 0, make([]byte, min(l.PieceLen, 131072))), vnet.Piece(1, 0, make([]byte, 1)), vnet.Piece(0, 131072, make([]byte, 10)), vnet.Piece(0, 1<<31, make([]byte, 10)), vnet.Piece(0, 1<<32-1, make([]byte, 2)),
		vnet.Piece(1<<31, 0, make([]byte, 10)), vnet.Piece(1<<32-1, 1<<32-1, make([]byte, 10)), vnet.Msg(7), vnet.Msg(7, 0, 0, 0, 0, 0, 0, 0),
		vnet.Msg(6), vnet.Request(0, 0, 1<<32-1), vnet.Cancel(0, 0, 0), vnet.Msg(8, 0), vnet.KeepAlive(), vnet.Interested(), vnet.NotInterested(),
		vnet.Msg(98), vnet.Msg(99), vnet.Msg(99, 0, 0, 0, 0, 0, 0, 0, 0, 0), vnet.Msg(20, 0), vnet.Msg(255),
	}
}

// Sequences of hostile messages.
func TestSequences(t *testing.T) {
	ps, pm := pool(small), pool(multi)
	vrt.Explore(t, vrt.Opts{Section: "sequences", Bubble: true}, func(x *vrt.X) {
		state := x.Choose(len(stateNames), "state")
		p := ps
		if state == 5 || state == 7 {
			p = pm
		}
		var segs [][]byte
		for i := 0; i < vrt.Pick(2, 3); i++ {
			segs = append(segs, p[x.Choose(len(p), "message")])
			if vrt.Thorough() && i == 1 && (state == 5 || state == 7) {
				break
			}
		}
		if x.Bool("glued") {
			var b []byte
			for _, s := range segs {
				b = append(b, s...)
			}
			segs = [][]byte{b}
		}
		hostile(x, state, 0, segs...)
	})
}

// The same message very many times: what is kept must not grow beyond what was received.
func TestFlood(t *testing.T) {
	ps := pool(small)
	vrt.Explore(t, vrt.Opts{Section: "floods", Bubble: true}, func(x *vrt.X) {
		m := ps[x.Choose(len(ps), "message")]
		state := x.Choose(5, "state")
		n := vrt.Pick(400, 4000)
		if len(m) > 1000 {
			n = 50
		} else if len(m) < 30 {
			n = vrt.Pick(10000, 100000)
		}
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, m...)
		}
		s := prepare(x, state)
		defer s.Drop()
		runtime.GC()
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		s.C.Push(b)
		s.Sleep(5 * time.Second)
		runtime.GC()
		runtime.ReadMemStats(&m1)
		if m1.HeapAlloc > m0.HeapAlloc && m1.HeapAlloc-m0.HeapAlloc > 8<<20+32*uint64(len(b)) {
			x.Fail("memory", "%d messages of %d bytes: %d bytes are kept", n, len(m), m1.HeapAlloc-m0.HeapAlloc)
		}
		ended := s.Ended
		s.Finish()
		x.Outcome(state, ended, len(s.Msgs) > 3)
	})
}

// Bytes that are no handshake, and what follows a handshake at once.
func TestHandshake(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "hostile handshakes", Bubble: true}, func(x *vrt.X) {
		n := vrt.Of(x, "length", 0, 1, 4, 19, 20, 27, 28, 47, 48, 67, 68, 69, 72, 100, 5000, 200000)
		kind := x.Choose(6, "bytes")
		end := x.Choose(3, "end")
		b := make([]byte, n)
		s := vsess.New(x, small)
		defer s.Drop()
		good := vnet.Handshake(s.T.Hash, "-XX0001-remoteremote")
		for i := range b {
			switch kind {
			case 1:
				b[i] = 0xff
			case 2:
				b[i] = byte(i * 37)
			case 3: // correct, then zeros
				if i < len(good) {
					b[i] = good[i]
				}
			case 4: // correct, then nonsense
				if i < len(good) {
					b[i] = good[i]
				} else {
					b[i] = 0xff
				}
			case 5: // everything but the first byte is correct
				if i > 0 && i < len(good) {
					b[i] = good[i]
				} else {
					b[i] = 255
				}
			}
		}
		split := x.Choose(3, "split")
		s.Hello = func(c *vnet.Conn) {
			switch split {
			case 0:
				c.Push(b)
			case 1:
				c.Push(b[:n/2])
				c.PushAfter(100*time.Millisecond, b[n/2:])
			case 2:
				c.Push(b[:min(n, 67)])
				c.PushAfter(1500*time.Millisecond, b[min(n, 67):])
			}
			switch end {
			case 1:
				time.AfterFunc(2*time.Second, c.EOF)
			case 2:
				time.AfterFunc(50*time.Millisecond, c.Reset)
			}
		}
		m := newMeter()
		err := s.Announce()
		if err == nil {
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() { s.P.Run(ctx); close(done) }()
			s.Sleep(4 * time.Second)
			cancel()
			<-done
		} else {
			s.Sleep(4 * time.Second)
		}
		m.check(x, n, "%d bytes instead of a handshake", n)
		s.P.Close()
		s.Net.CloseAll()
		synctest.Wait()
		x.Outcome(fmt.Sprint(err), n, kind, end, split)
	})
}

// The first blocks of a piece of a torrent with huge pieces.
func TestHugePieces(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "huge pieces", Bubble: true}, func(x *vrt.X) {
		pl := vrt.Of(x, "piece length", 256<<20, 1<<30, 1<<31, 1<<32-1, 1<<36)
		pieces := 1 + x.Choose(3, "pieces")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: pl*(pieces-1) + pl - 5}}, PieceLen: pl}
		s := vsess.NewH(x, l, make([]byte, 20*pieces))
		defer s.Drop()
		m := newMeter()
		n := 0
		k := x.Choose(4, "blocks")
		then := x.Choose(4, "then")
		s.OnMsg = func(msg vsess.Msg) {
			if msg.Keep || msg.ID != 6 {
				return
			}
			var b []byte
			if k == 0 {
				switch then {
				case 0: // nothing more
				case 1:
					b = vnet.Piece(msg.U(0), msg.U(1), []byte{1})
				case 2:
					b = append(vnet.Choke(), vnet.Unchoke()...)
				case 3: // the message that would hold the whole piece
					b = append(prefix(uint32(min(pl+9, 1<<32-1)), 7), make([]byte, 50000)...)
				}
				then = 0
			} else {
				b = vnet.Piece(msg.U(0), msg.U(1), make([]byte, msg.U(2)))
				k--
			}
			n += len(b)
			s.C.Push(b)
		}
		s.Begin()
		b := append(vnet.Bitfield(0xff<<(8-pieces)), vnet.Unchoke()...)
		n += len(b)
		s.Push(b)
		s.Sleep(5 * time.Second)
		m.check(x, n, "%d bytes of pieces of %d bytes were received", n, pl)
		s.Finish()
		x.Outcome(pl, pieces, n, len(s.Msgs))
	})
}
