// Package vsess runs one session of the real peer code against a scripted remote, in virtual time.
package vsess

import (
	"context"
	"encoding/binary"
	"math/rand"
	"net/netip"
	"os"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

// Addr of the remote.
const Addr = "10.0.0.2:6881"

// S is a session.
type S struct {
	X     *vrt.X
	L     *vtor.Layout
	Dir   string
	T     *torrent.Torrent
	Q     *torrent.PiecesQueue
	W     chan *util.PeerMessage
	Stats *stats.Stats
	Net   *vnet.Net
	P     *peer.Peer
	C     *vnet.Conn // the connection, once made
	Start time.Time

	// Hello answers the handshake of the client; default: a correct handshake at once.
	Hello func(c *vnet.Conn)
	// OnMsg is called for every message of the client after the handshake, by the client's goroutine.
	OnMsg func(m Msg)
	// OnWrite sees every message handed to the writer when Keep is set.
	Keep   bool // keep what is handed to the writer instead of storing it
	Stored []*util.PeerMessage

	Msgs   []Msg // messages of the client
	Shake  []byte
	Rest   []byte // bytes that form no message (yet)
	Ended  bool
	EndAt  time.Time
	cancel context.CancelFunc
	done   chan struct{}
	wdone  chan struct{}
	pushed int // bytes pushed by the harness
}

// Msg is a message of the client with its time.
type Msg struct {
	vnet.M
	At time.Duration // since the start of the session
}

// New prepares a session with a torrent of the layout.
func New(x *vrt.X, l *vtor.Layout) *S { return NewH(x, l, l.Hashes()) }

// NewH prepares a session with given piece hashes.
func NewH(x *vrt.X, l *vtor.Layout, hashes []byte) *S {
	rand.Seed(1)
	s := &S{X: x, L: l, Dir: vtor.TempDir(vrt.Scratch()), Net: vnet.New(), Q: torrent.NewPiecesQueue(), Start: time.Now()}
	t, err := torrent.New(l.MetaH(hashes), s.Dir, zap.NewNop())
	if err != nil {
		x.Fail("open", "a consistent torrent is refused: %v", err)
	}
	s.T = t
	s.W = make(chan *util.PeerMessage, 1024)
	s.Stats = stats.NewStats(uint64(l.Total()))
	s.P = peer.NewPeer(netip.MustParseAddrPort(Addr), t, s.Q, s.W, zap.NewNop())
	s.Net.Host(Addr, s.accept)
	return s
}

func (s *S) accept(c *vnet.Conn) error {
	s.C = c
	var buf []byte
	c.OnData = func(c *vnet.Conn, b []byte) {
		buf = append(buf, b...)
		if len(s.Shake) < 68 {
			n := min(68-len(s.Shake), len(buf))
			s.Shake = append(s.Shake, buf[:n]...)
			buf = buf[n:]
			if len(s.Shake) == 68 {
				if s.Hello != nil {
					s.Hello(c)
				} else {
					c.Push(vnet.Handshake(s.T.Hash, "-XX0001-remoteremote"))
				}
			}
		}
		if len(s.Shake) == 68 {
			var ms []vnet.M
			ms, buf = vnet.Split(buf)
			s.Rest = append([]byte{}, buf...)
			for _, m := range ms {
				mm := Msg{m, time.Since(s.Start)}
				s.Msgs = append(s.Msgs, mm)
				s.X.Logf("%v< %v", mm.At, m)
				if s.OnMsg != nil {
					s.OnMsg(mm)
				}
			}
		}
	}
	return nil
}

// Announce connects and shakes hands.
func (s *S) Announce() error { return s.P.Announce(s.T) }

// Begin announces and starts the session and the writer.
func (s *S) Begin() {
	if err := s.Announce(); err != nil {
		s.X.Fail("announce", "a correct handshake is refused: %v", err)
	}
	s.Go()
}

// Go starts the session and the writer.
func (s *S) Go() {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	s.done, s.wdone = make(chan struct{}), make(chan struct{})
	go func() {
		defer close(s.wdone)
		if s.Keep {
			for m := range s.W {
				s.Stored = append(s.Stored, m)
			}
			return
		}
		s.T.WritePiece(s.W, s.Stats)
	}()
	go func() {
		s.P.Run(ctx)
		s.Ended, s.EndAt = true, time.Now()
		close(s.done)
	}()
	synctest.Wait()
}

// Push sends bytes to the client as one segment.
func (s *S) Push(b []byte) {
	if s.X != nil {
		ms, _ := vnet.Split(b)
		if len(b) < 200 {
			s.X.Logf("%v> %v", time.Since(s.Start), ms)
		}
	}
	s.C.Push(b)
	synctest.Wait()
}

// Sleep lets virtual time pass.
func (s *S) Sleep(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// Quiet says that the client has taken everything that was sent and waits.
func (s *S) Quiet() bool { return s.C.Pending() == 0 }

// Settle waits until the client has taken everything, at most d.
func (s *S) Settle(d time.Duration) bool {
	for i := time.Duration(0); i < d && s.C.Pending() > 0 && !s.Ended; i += 100 * time.Millisecond {
		s.Sleep(100 * time.Millisecond)
	}
	return s.C.Pending() == 0
}

// Finish ends the session by cancelling it, and the writer.
func (s *S) Finish() {
	s.cancel()
	select {
	case <-s.done:
	case <-time.After(5 * time.Minute):
		s.X.Fail("session-hangs", "a cancelled session does not end within 5 minutes")
	}
	close(s.W)
	<-s.wdone
	s.P.Close()
	s.Net.CloseAll()
	synctest.Wait()
}

// Drop removes the files.
func (s *S) Drop() {
	s.T.Close()
	os.RemoveAll(s.Dir)
}

// Answer is the right answer to a request.
func (s *S) Answer(m vnet.M) []byte {
	i, o, n := m.U(0), m.U(1), m.U(2)
	p := s.L.Piece(int(i))
	return vnet.Piece(i, o, p[o:o+n])
}

// All is a bitfield with every piece.
func (s *S) All() []byte {
	b := make([]byte, (s.L.Pieces()+7)/8)
	for i := 0; i < s.L.Pieces(); i++ {
		b[i/8] |= 0x80 >> (i % 8)
	}
	return vnet.Bitfield(b...)
}

// Requests of the client.
func (s *S) Requests() []Msg {
	var r []Msg
	for _, m := range s.Msgs {
		if !m.Keep && m.ID == 6 {
			r = append(r, m)
		}
	}
	return r
}

// ValidRequest checks a request against the geometry.
func ValidRequest(l *vtor.Layout, m vnet.M) string {
	if len(m.Payload) != 12 {
		return "a request has a payload that is not 12 bytes long"
	}
	i, o, n := uint64(m.U(0)), uint64(m.U(1)), uint64(m.U(2))
	if i >= uint64(l.Pieces()) {
		return "a request names a piece the torrent does not have"
	}
	if n == 0 || n > 128*1024 {
		return "a request asks for no or more than 128 KiB"
	}
	if o+n > uint64(l.PieceSize(int(i))) {
		return "a request reaches beyond its piece"
	}
	return ""
}

// U32 of a byte slice.
func U32(b []byte) uint32 { return binary.BigEndian.Uint32(b) }
