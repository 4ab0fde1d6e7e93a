// Package vswarm runs whole downloads of the real manager against scripted trackers and peers.
package vswarm

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/netip"
	"os"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gosuri/uilive"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func init() {
	uilive.Out = io.Discard
	uilive.RefreshInterval = 100000 * time.Hour
	for _, k := range []string{"HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy", "NO_PROXY", "no_proxy"} {
		os.Unsetenv(k)
	}
}

// W is one download.
type W struct {
	X      *vrt.X
	L      *vtor.Layout
	Dir    string
	T      *torrent.Torrent
	Net    *vnet.Net
	M      *download.Manager
	Start  time.Time
	Ctx    context.Context
	Cancel context.CancelFunc

	Done   chan struct{} // closed when Download has returned
	Err    error
	DoneAt time.Time
	Out    *Screen
}

// Screen records the progress display.
type Screen struct {
	// OnWrite (optional) sees everything written.
	OnWrite func(b []byte)

	mu sync.Mutex
	b  bytes.Buffer
}

func (s *Screen) Write(b []byte) (int, error) {
	if s.OnWrite != nil {
		s.OnWrite(b)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 1<<16 {
		s.b.Reset()
	}
	return s.b.Write(b)
}

// Forget drops the records.
func (s *Screen) Forget() {
	s.mu.Lock()
	s.b = bytes.Buffer{}
	s.mu.Unlock()
}

// Last returns what was written last.
func (s *Screen) Last() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// New opens the torrent and makes the manager. Called inside a bubble.
func New(x *vrt.X, l *vtor.Layout, limit int) *W { return NewH(x, l, l.Hashes(), limit) }

// NewH is New with given hashes.
func NewH(x *vrt.X, l *vtor.Layout, hashes []byte, limit int) *W {
	rand.Seed(1)
	return NewIn(x, l, hashes, limit, 6881, vnet.New(), vtor.TempDir(vrt.Scratch()))
}

// NewIn is NewH in a given network and directory.
func NewIn(x *vrt.X, l *vtor.Layout, hashes []byte, limit, port int, net *vnet.Net, dir string) *W {
	w := &W{X: x, L: l, Dir: dir, Net: net, Start: time.Now(), Done: make(chan struct{}), Out: &Screen{}}
	t, err := torrent.New(l.MetaH(hashes), w.Dir, zap.NewNop())
	if err != nil {
		x.Fail("open", "a consistent torrent is refused: %v", err)
	}
	w.T = t
	uilive.Out = w.Out
	w.M = download.NewMng(t, zap.NewNop(), limit, port)
	w.Ctx, w.Cancel = context.WithCancel(context.Background())
	return w
}

// Go starts the download.
func (w *W) Go() {
	go func() {
		w.Err = w.M.Download(w.Ctx)
		w.DoneAt = time.Now()
		close(w.Done)
	}()
}

// Wait waits at most d for the download to return.
func (w *W) Wait(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-w.Done:
		synctest.Wait()
		return true
	case <-t.C:
		return false
	}
}

// Finished says whether Download has returned.
func (w *W) Finished() bool {
	select {
	case <-w.Done:
		return true
	default:
		return false
	}
}

// End stops everything.
func (w *W) End() {
	w.Cancel()
	if !w.Wait(10 * time.Minute) {
		w.X.Fail("hangs", "a cancelled download does not return within 10 minutes")
	}
	w.M.Stop()
	w.Release()
}

// Release removes what the harness holds.
func (w *W) Release() {
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	w.Net.CloseAll()
	synctest.Wait()
	w.T.Close()
	os.RemoveAll(w.Dir)
}

// Remote is a scripted peer.
type Remote struct {
	W     *W
	Addr  string
	Conns []*RC
	// Accept may refuse the connection; default: accepts.
	Accept func(rc *RC) error
	// Hello answers the handshake; default: correct at once.
	Hello func(rc *RC)
	// Msg handles a message of the client; default: Seed.
	Msg func(rc *RC, m vnet.M)
}

// RC is one connection to a scripted peer.
type RC struct {
	R      *Remote
	C      *vnet.Conn
	Shake  []byte
	Msgs   []vnet.M
	Sent   int // messages sent by Send
	Reqs   int
	Greet  bool // bitfield sent
	buf    []byte
	Closed bool
	Data   map[string]int
	sentB  int
}

// Peer adds a scripted peer.
func (w *W) Peer(addr string) *Remote {
	r := &Remote{W: w, Addr: addr}
	w.Net.Host(addr, func(c *vnet.Conn) error {
		rc := &RC{R: r, C: c, Data: map[string]int{}}
		r.Conns = append(r.Conns, rc)
		if r.Accept != nil {
			if err := r.Accept(rc); err != nil {
				return err
			}
		}
		c.OnData = rc.data
		return nil
	})
	return r
}

// Shared adds a peer that takes part in several downloads; a connection belongs to the one whose info-hash
// its handshake has.
func Shared(addr string, rs ...*Remote) {
	rs[0].W.Net.Host(addr, func(c *vnet.Conn) error {
		rc := &RC{R: rs[0], C: c, Data: map[string]int{}}
		if a := rs[0].Accept; a != nil {
			if err := a(rc); err != nil {
				return err
			}
		}
		var first []byte
		c.OnData = func(c *vnet.Conn, b []byte) {
			if len(first) >= 68 {
				rc.data(c, b)
				return
			}
			first = append(first, b...)
			if len(first) < 68 {
				return
			}
			var mine *Remote
			for _, r := range rs {
				if r.W.T.Hash != nil && string(r.W.T.Hash) == string(first[28:48]) && (mine == nil || len(r.Conns) < len(mine.Conns)) {
					mine = r
				}
			}
			if mine == nil {
				c.EOF()
				return
			}
			rc.R = mine
			mine.Conns = append(mine.Conns, rc)
			rc.data(c, first)
		}
		return nil
	})
}

// Forget drops the records.
func (r *Remote) Forget() {
	k := 0
	for _, rc := range r.Conns {
		if rc.Msgs = nil; !rc.C.Gone() {
			r.Conns[k] = rc
			k++
		}
	}
	clear(r.Conns[k:])
	r.Conns = r.Conns[:k]
}

func (rc *RC) data(c *vnet.Conn, b []byte) {
	if rc.Closed {
		return
	}
	rc.buf = append(rc.buf, b...)
	if len(rc.Shake) < 68 {
		n := min(68-len(rc.Shake), len(rc.buf))
		rc.Shake = append(rc.Shake, rc.buf[:n]...)
		rc.buf = rc.buf[n:]
		if len(rc.Shake) == 68 {
			if rc.R.Hello != nil {
				rc.R.Hello(rc)
			} else {
				rc.Hello()
			}
		}
	}
	if len(rc.Shake) == 68 && !rc.Closed {
		var ms []vnet.M
		ms, rc.buf = vnet.Split(rc.buf)
		for _, m := range ms {
			rc.Msgs = append(rc.Msgs, m)
			if rc.R.Msg != nil {
				rc.R.Msg(rc, m)
			} else {
				rc.Seed(m)
			}
		}
	}
}

// Hello sends a correct handshake.
func (rc *RC) Hello() { rc.C.Push(vnet.Handshake(rc.R.W.T.Hash, "-XX0001-remoteremote")) }

// Send sends a message.
func (rc *RC) Send(b []byte) {
	if rc.Closed {
		return
	}
	rc.Sent++
	rc.C.Push(b)
}

// Drop ends the connection from the remote side.
func (rc *RC) Drop() { rc.Closed = true; rc.C.EOF() }

// Bitfield of all pieces.
func (w *W) Bitfield() []byte {
	b := make([]byte, (w.L.Pieces()+7)/8)
	for i := 0; i < w.L.Pieces(); i++ {
		b[i/8] |= 0x80 >> (i % 8)
	}
	return vnet.Bitfield(b...)
}

// Answer is the right answer to a request.
func (w *W) Answer(m vnet.M) []byte {
	i, o, n := int(m.U(0)), int(m.U(1)), int(m.U(2))
	if i >= w.L.Pieces() || o+n > w.L.PieceSize(i) {
		return nil
	}
	return vnet.Piece(m.U(0), m.U(1), w.L.Piece(i)[o:o+n])
}

// Seed behaves as a peer that has everything: bitfield and unchoke on interest, right answers.
func (rc *RC) Seed(m vnet.M) {
	if m.Keep {
		return
	}
	switch m.ID {
	case 2:
		if !rc.Greet {
			rc.Greet = true
			rc.Send(rc.R.W.Bitfield())
			rc.Send(vnet.Unchoke())
		}
	case 6:
		rc.Reqs++
		if a := rc.R.W.Answer(m); a != nil {
			rc.Send(a)
		}
	}
}

// TReply is a reply of a tracker: Status 200 with Body, 0 for silence, -1 for a broken connection.
type TReply struct {
	Status int
	Body   []byte
	Keep   bool // the connection is kept alive
	After  time.Duration
}

// Tracker is a scripted HTTP tracker.
type Tracker struct {
	Times []time.Duration
	Paths []string
	Reply func(n int, path string) TReply
	note  chan struct{}
	base  int // announces forgotten
	// OnPacket (optional) sees every announce packet of a UDP tracker.
	OnPacket func(b []byte)
}

// Next waits at most d for an announce beyond the first n.
func (t *Tracker) Next(n int, d time.Duration) bool {
	tm := time.NewTimer(d)
	defer tm.Stop()
	for len(t.Times) <= n {
		select {
		case <-t.note:
		case <-tm.C:
			return false
		}
	}
	synctest.Wait()
	return true
}

// Forget drops the records.
func (t *Tracker) Forget() {
	t.base += len(t.Times)
	t.Times, t.Paths = nil, nil
}

func (t *Tracker) tell() {
	select {
	case t.note <- struct{}{}:
	default:
	}
}

// HTTP adds a tracker at http://addr/announce.
func (w *W) HTTP(addr string, reply func(n int, path string) TReply) *Tracker {
	t := &Tracker{Reply: reply, note: make(chan struct{}, 1)}
	w.Net.Host(addr, func(c *vnet.Conn) error {
		var buf []byte
		c.OnData = func(c *vnet.Conn, b []byte) {
			buf = append(buf, b...)
			i := bytes.Index(buf, []byte("\r\n\r\n"))
			if i < 0 {
				return
			}
			f := bytes.Fields(buf[:i])
			buf = buf[i+4:]
			n := t.base + len(t.Times)
			t.Times = append(t.Times, time.Since(w.Start))
			t.tell()
			t.Paths = append(t.Paths, string(f[1]))
			r := t.Reply(n, string(f[1]))
			if r.Status == 0 {
				return
			}
			do := func() {
				if r.Status < 0 {
					c.Reset()
					return
				}
				conn := "Connection: close\r\n"
				if r.Keep {
					conn = ""
				}
				c.Push([]byte(fmt.Sprintf("HTTP/1.1 %d S\r\n%sContent-Length: %d\r\n\r\n%s", r.Status, conn, len(r.Body), r.Body)))
				if !r.Keep {
					c.EOF()
				}
			}
			if r.After > 0 {
				time.AfterFunc(r.After, do)
			} else {
				do()
			}
		}
		return nil
	})
	return t
}

// List is a compact reply; an interval of -1 is left out.
func List(interval int, addrs ...string) []byte {
	return []byte(ListV(vben.I(int64(interval)), interval != -1, addrs...).Enc())
}

// ListV is a compact reply with any interval.
func ListV(interval *vben.V, has bool, addrs ...string) *vben.V {
	var b []byte
	for _, a := range addrs {
		ap := netip.MustParseAddrPort(a)
		ip := ap.Addr().As4()
		b = append(b, ip[:]...)
		b = append(b, byte(ap.Port()>>8), byte(ap.Port()))
	}
	d := vben.D()
	if has {
		d.Set("interval", interval)
	}
	return d.Set("peers", vben.S(string(b)))
}

// UReply is a reply of a UDP tracker to an announce. Kind: 0 right, 1 silence to everything, 2 silence
// to the announce only, 3 error to the connect request, 4 error to the announce, 5 junk.
type UReply struct {
	Kind     int
	Interval uint32
	Addrs    []string
}

// UDP adds a tracker at udp://addr; an attempt begins with a connect request.
func (w *W) UDP(addr string, reply func(n int) UReply) *Tracker {
	t := &Tracker{note: make(chan struct{}, 1)}
	w.Net.Host(addr, func(c *vnet.Conn) error {
		var cur UReply
		c.OnData = func(c *vnet.Conn, b []byte) {
			if len(b) < 16 {
				return
			}
			tid := b[12:16]
			switch {
			case b[11] == 0:
				n := t.base + len(t.Times)
				t.Times = append(t.Times, time.Since(w.Start))
				t.tell()
				cur = reply(n)
				switch cur.Kind {
				case 1:
				case 3:
					c.Push(append(append(vnet.U32(3), tid...), "busy"...))
				case 5:
					c.Push([]byte("junk"))
				default:
					c.Push(append(append(vnet.U32(0), tid...), 1, 2, 3, 4, 5, 6, 7, 8))
				}
			case b[11] == 1:
				t.Paths = append(t.Paths, string(b))
				if t.OnPacket != nil {
					t.OnPacket(b)
				}
				switch cur.Kind {
				case 0:
					var ps []byte
					for _, a := range cur.Addrs {
						ap := netip.MustParseAddrPort(a)
						ip := ap.Addr().As4()
						ps = append(append(ps, ip[:]...), byte(ap.Port()>>8), byte(ap.Port()))
					}
					c.Push(append(append(append(vnet.U32(1), tid...), vnet.U32(cur.Interval, 1, 1)...), ps...))
				case 4:
					c.Push(append(append(vnet.U32(3), tid...), "busy"...))
				}
			}
		}
		return nil
	})
	return t
}
