package c04

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C04") }

var clientID []byte

// wire checks every byte the client wrote.
func wire(x *vrt.X, s *vsess.S, what string) {
	b := s.C.Sent()
	if len(b) < 68 {
		x.Fail("handshake", "%s: only %d bytes were sent", what, len(b))
	}
	h := b[:68]
	if h[0] != 19 || string(h[1:20]) != "BitTorrent protocol" || !bytes.Equal(h[28:48], s.T.Hash) {
		x.Fail("handshake", "%s: the handshake is not a BEP 3 handshake with the hash of the torrent: %x", what, h)
	}
	if clientID == nil {
		clientID = append([]byte{}, h[48:68]...)
	}
	if !bytes.Equal(h[48:68], clientID) || !bytes.Equal(h[48:68], peer.ClientId) || len(peer.ClientId) != 20 {
		x.Fail("client-id", "%s: the client id is not the same all the time", what)
	}
	ms, rest := vnet.Split(b[68:])
	if len(rest) != 0 {
		x.Fail("framing", "%s: the bytes after the handshake do not end with a whole message: %x", what, tail(b[68:]))
	}
	for _, m := range ms {
		if m.Keep {
			continue
		}
		want := -1
		switch m.ID {
		case 0, 1, 2, 3:
			want = 0
		case 4:
			want = 4
		case 6, 8:
			want = 12
		}
		if want < 0 || len(m.Payload) != want {
			x.Fail("message", "%s: message %d with a payload of %d bytes was sent", what, m.ID, len(m.Payload))
		}
		if m.ID == 6 {
			if w := vsess.ValidRequest(s.L, m); w != "" {
				x.Fail("request", "%s: %s: %v (pieces of %d bytes, %d in all)", what, w, m, s.L.PieceLen, s.L.Total())
			}
		}
	}
}

func tail(b []byte) []byte {
	if len(b) > 80 {
		return b[len(b)-80:]
	}
	return b
}

const K = 128 * 1024

// serve is a session with a seed that answers up to n requests and then behaves as chosen.
func serve(x *vrt.X, l *vtor.Layout, n, then int, fast bool) *vsess.S {
	s := vsess.New(x, l)
	cnt := 0
	blocks := map[[2]uint32]bool{}
	s.OnMsg = func(m vsess.Msg) {
		if m.Keep || m.ID != 6 {
			return
		}
		if w := vsess.ValidRequest(l, m.M); w != "" {
			x.Fail("request", "%s: %v (pieces of %d bytes, %d in all)", w, m.M, l.PieceLen, l.Total())
		}
		cnt++
		if n >= 0 && cnt == n+1 {
			switch then {
			case 0: // silence
			case 1:
				s.C.Push(vnet.Choke())
				s.C.PushAfter(3*time.Second, vnet.Unchoke())
			case 2:
				s.C.EOF()
			case 3: // refuses data from now on
				s.C.FailWrites(os.ErrClosed)
			case 4: // the answer comes late
				s.C.PushAfter(2500*time.Millisecond, s.Answer(m.M))
			case 5: // corrupt
				a := s.Answer(m.M)
				a[len(a)-1] ^= 1
				s.C.Push(a)
			}
			return
		}
		blocks[[2]uint32{m.U(0), m.U(1)}] = true
		s.C.Push(s.Answer(m.M))
	}
	s.Begin()
	s.Push(append(s.All(), vnet.Unchoke()...))
	for i := 0; i < 90 && !s.T.Done() && !s.Ended; i++ {
		s.Sleep(time.Second)
	}
	done := s.T.Done()
	s.Finish()
	if n < 0 && !done {
		x.Fail("not-complete", "a seed that answers everything does not lead to a complete download (pieces of %d bytes, %d in all); requests: %v", l.PieceLen, l.Total(), s.Requests())
	}
	wire(x, s, fmt.Sprintf("pieces of %d bytes, %d in all", l.PieceLen, l.Total()))
	return s
}

// Small geometries, all of them, with all behaviours of the seed after some answers.
func TestSmall(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "small geometries", Bubble: true}, func(x *vrt.X) {
		pl := 1 + x.Choose(vrt.Pick(6, 9), "piece length")
		total := 1 + x.Choose(vrt.Pick(14, 24), "total")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: total}}, PieceLen: pl}
		if x.Bool("two files") {
			l.Single = false
			l.Files = []vtor.File{{Path: "a", Len: total / 2}, {Path: "b", Len: total - total/2}}
		}
		n := x.Choose(4, "answers") - 1
		then := 0
		if n >= 0 {
			then = x.Choose(6, "then")
		}
		s := serve(x, l, n, then, true)
		x.Outcome(pl, total, n, then, len(s.Msgs))
		s.Drop()
	})
}

// Piece lengths around multiples of the block length, with last pieces of every relation to it.
func TestBlocks(t *testing.T) {
	pls := []int{K - 1, K, K + 1, 2*K - 1, 2 * K, 2*K + 1, 3*K + 7, 16384, 100000}
	last := []int{1, 16384, K - 1, K, K + 1, 2 * K, 2*K + 1, 0}
	vrt.Explore(t, vrt.Opts{Section: "piece and block lengths", Bubble: true}, func(x *vrt.X) {
		pl := pls[x.Choose(len(pls), "piece length")]
		la := last[x.Choose(len(last), "last")]
		full := x.Choose(3, "full pieces")
		if la >= pl || full*pl+la == 0 {
			return
		}
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: full*pl + la}}, PieceLen: pl}
		n := x.Choose(vrt.Pick(4, 6), "answers") - 1
		then := 0
		if n >= 0 {
			then = x.Choose(6, "then")
		}
		s := serve(x, l, n, then, false)
		x.Outcome(pl, la, full, n, then, len(s.Msgs))
		s.Drop()
	})
}

// Huge geometries: only the first requests are looked at (the content is never sent).
func TestHuge(t *testing.T) {
	type g struct{ pl, pieces, last int }
	gs := []g{{1 << 20, 4097, 1}, {1 << 20, 5000, 1 << 20}, {16 << 20, 300, 77}, {1 << 30, 5, 3}, {1 << 31, 4, 1 << 17}, {1<<31 + 5, 3, 1<<17 + 1}, {1<<32 - 1, 2, 9}, {1 << 24, 1, 1<<24 - 3}, {1, 70000, 1}, {64 << 10, 65537, 1}, {40 << 20, 2, 33<<20 + 5}}
	vrt.Explore(t, vrt.Opts{Section: "huge geometries", Bubble: true}, func(x *vrt.X) {
		g := gs[x.Choose(len(gs), "geometry")]
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: g.pl*(g.pieces-1) + g.last}}, PieceLen: g.pl}
		// which pieces the peer has
		idx := []int{0, 1, g.pieces / 2, g.pieces - 2, g.pieces - 1}[x.Choose(5, "piece")]
		if idx < 0 || idx >= g.pieces {
			return
		}
		k := x.Choose(4, "answered blocks")
		if k == 3 {
			if g.pl < 3*K || g.pl > 64<<20 {
				return
			}
			k = 1 << 20 // all blocks of the piece
		}
		s := vsess.NewH(x, l, hashes(g.pieces))
		defer s.Drop()
		cnt := 0
		size := map[uint32]int{}
		s.OnMsg = func(m vsess.Msg) {
			if m.Keep || m.ID != 6 {
				return
			}
			if w := vsess.ValidRequest(l, m.M); w != "" {
				x.Fail("request", "%s: %v (pieces of %d bytes, %d in all)", w, m.M, l.PieceLen, l.Total())
			}
			if int(m.U(0)) != idx {
				x.Fail("other-piece", "piece %d is requested of a peer that only has piece %d", m.U(0), idx)
			}
			size[m.U(1)] = max(size[m.U(1)], int(m.U(2)))
			if cnt < k {
				s.C.Push(vnet.Piece(m.U(0), m.U(1), make([]byte, m.U(2))))
			}
			cnt++
		}
		s.Begin()
		s.Push(append(vnet.Have(uint32(idx)), vnet.Unchoke()...))
		s.Sleep(5 * time.Second)
		s.Finish()
		if cnt == 0 {
			x.Fail("no-request", "nothing is requested of a peer that has piece %d (pieces of %d bytes, %d in all)", idx, l.PieceLen, l.Total())
		}
		if k == 1<<20 { // a peer that answers every request is asked for the whole piece
			for o := 0; o < l.PieceSize(idx); {
				n, ok := size[uint32(o)]
				if !ok {
					x.Fail("not-requested", "byte %d of piece %d is never requested of a peer that answers every request (pieces of %d bytes, %d in all)", o, idx, l.PieceLen, l.Total())
				}
				o += n
			}
		}
		wire(x, s, fmt.Sprintf("pieces of %d bytes, %d in all", l.PieceLen, l.Total()))
		x.Outcome(g.pl, idx, k, cnt)
	})
}

var hcache = map[int][]byte{}

func hashes(n int) []byte {
	if hcache[n] == nil {
		var b []byte
		for i := 0; i < n; i++ {
			h := sha1.Sum([]byte(fmt.Sprint(i)))
			b = append(b, h[:]...)
		}
		hcache[n] = b
	}
	return hcache[n]
}

// The client id is sent as it is, whatever its random bytes are.
func TestClientID(t *testing.T) {
	orig := peer.ClientId
	vrt.Explore(t, vrt.Opts{Section: "client ids", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		b := byte(x.Choose(256, "byte"))
		id := append([]byte{}, orig...)
		switch x.Choose(3, "where") {
		case 0:
			id[19] = b
		case 1:
			id[8] = b
		case 2:
			for i := 8; i < 20; i++ {
				id[i] = b
			}
		}
		peer.ClientId, clientID = id, nil
		defer func() { peer.ClientId, clientID = orig, nil }()
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 3}}, PieceLen: 2}
		s := serve(x, l, -1, 0, true)
		x.Outcome(b, len(s.Msgs))
		s.Drop()
	})
}

// Idle sessions: keep-alives and the like are well formed too.
func TestIdle(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "idle sessions", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		a := x.Choose(8, "first")
		b := x.Choose(8, "second")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2}
		s := vsess.New(x, l)
		defer s.Drop()
		s.Begin()
		for _, e := range []int{a, b} {
			switch e {
			case 0:
			case 1:
				s.Push(vnet.Unchoke())
			case 2:
				s.Push(vnet.Choke())
			case 3:
				s.Push(vnet.Interested())
			case 4:
				s.Push(vnet.NotInterested())
			case 5:
				s.Push(vnet.Request(0, 0, 2))
			case 6:
				s.Push(vnet.Cancel(0, 0, 2))
			case 7:
				s.Push(vnet.Msg(14))
			}
			s.Sleep(130 * time.Second)
		}
		s.Sleep(130 * time.Second)
		s.Finish()
		wire(x, s, "idle")
		x.Outcome(a, b, len(s.Msgs))
	})
}
