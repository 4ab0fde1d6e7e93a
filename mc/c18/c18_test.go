package c18

import (
	"fmt"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C18") }

// mon follows the session: what the remote sent, what the client must and must not do.
type mon struct {
	x *vrt.X
	s *vsess.S
	l *vtor.Layout

	chk     []bool // pieces announced
	choked  bool   // state after everything pushed so far
	known   bool   // the client has taken everything pushed so far, so it knows the state
	open    []vsess.Msg
	inter   bool
	seen    int
	got     map[[2]uint32]bool
	claimed map[uint32]bool
	trace   string

	pendingChoke bool // a choke was sent that the client may not have taken yet
}

func (m *mon) log(f string, a ...any) { m.trace += fmt.Sprintf(f, a...) + " " }

// observe checks the messages written since the last call.
func (m *mon) observe() {
	for ; m.seen < len(m.s.Msgs); m.seen++ {
		c := m.s.Msgs[m.seen]
		if !c.Keep {
			m.log("%v<%v", c.At.Truncate(time.Millisecond), c.M)
		}
		if c.Keep {
			continue
		}
		switch c.ID {
		case 2:
			m.inter = true
		case 3:
			m.inter = false
		case 6:
			if w := vsess.ValidRequest(m.l, c.M); w != "" {
				m.x.Fail("request", "%s (%s)", w, m.trace)
			}
			if !m.inter {
				m.x.Fail("not-interested", "a request is sent before the peer was told that we are interested: %s", m.trace)
			}
			if m.known && m.choked {
				m.x.Fail("choked", "a request is sent while choked: %s", m.trace)
			}
			if !m.chk[c.U(0)] {
				m.x.Fail("unannounced", "a piece is requested that the peer did not announce: %s", m.trace)
			}
			if m.pendingChoke { // the client may have taken that choke before this request
				m.open = nil
			}
			for _, o := range m.open {
				if c.At-o.At < time.Second {
					m.x.Fail("two-open", "a second request is sent %v after one that is not answered: %s", c.At-o.At, m.trace)
				}
			}
			m.open = append(m.open, c)
			m.claimed[c.U(0)] = true
		}
	}
}

// missing says whether the peer offers a piece that was not transferred completely.
func (m *mon) missing() bool {
	for i, a := range m.chk {
		if a && !m.complete(i) {
			return true
		}
	}
	return false
}

func (m *mon) complete(i int) bool {
	for o := 0; o < m.l.PieceSize(i); o += 128 * 1024 {
		if !m.got[[2]uint32{uint32(i), uint32(o)}] {
			return false
		}
	}
	return true
}

func (m *mon) push(b []byte, what string) {
	m.log("%v>%s", time.Since(m.s.Start).Truncate(time.Millisecond), what)
	m.known = false
	m.pendingChoke = m.pendingChoke || what == "choke"
	m.s.Push(b)
	m.settled()
}

func (m *mon) settled() {
	m.observe()
	m.known = m.s.Quiet()
	if m.known {
		m.pendingChoke = false
	}
	if m.known && m.choked {
		m.open = nil // a choke discards requests
	}
}

func (m *mon) sleep(d time.Duration) {
	m.log("+%v", d)
	for d > 0 && !m.s.Ended {
		k := min(d, 100*time.Millisecond)
		m.s.Sleep(k)
		d -= k
		m.settled()
	}
}

func run(x *vrt.X, l *vtor.Layout, depth, seeded, others int) {
	s := vsess.New(x, l)
	defer s.Drop()
	m := &mon{x: x, s: s, l: l, chk: make([]bool, l.Pieces()), choked: true, got: map[[2]uint32]bool{}, claimed: map[uint32]bool{}}
	s.Begin()
	m.settled()
	if seeded > 0 {
		for i := range m.chk {
			m.chk[i] = true
		}
		m.push(s.All(), "bitfield")
		if seeded == 2 {
			m.choked = false
			m.push(vnet.Unchoke(), "unchoke")
		}
	}
	stray := false
	for step := 0; step < depth && !s.Ended; step++ {
		// actions of the remote
		type act struct {
			n string
			f func()
		}
		acts := []act{
			{"wait 1.3s", func() { m.sleep(1300 * time.Millisecond) }},
			{"choke", func() { m.choked = true; m.push(vnet.Choke(), "choke") }},
			{"unchoke", func() { m.choked = false; m.push(vnet.Unchoke(), "unchoke") }},
			{"keep-alive", func() { m.push(vnet.KeepAlive(), "keep-alive") }},
		}
		if len(m.open) > 0 {
			o := m.open[len(m.open)-1]
			acts = append(acts, act{"answer", func() {
				m.open = nil
				m.got[[2]uint32{o.U(0), o.U(1)}] = true
				m.push(s.Answer(o.M), fmt.Sprintf("answer(%d,%d)", o.U(0), o.U(1)))
			}})
		}
		for i := range m.chk {
			if !m.chk[i] {
				acts = append(acts, act{"have", func() {
					m.chk[i] = true
					m.push(vnet.Have(uint32(i)), fmt.Sprintf("have(%d)", i))
				}})
				break
			}
		}
		if step == 0 && seeded == 0 {
			acts = append(acts, act{"empty bitfield", func() { m.push(vnet.Bitfield(make([]byte, (l.Pieces()+7)/8)...), "bitfield()") }})
		}
		if others > 0 {
			acts = append(acts, act{"another message", func() {
				others--
				ms := vnet.Harmless(l.Pieces())
				h := ms[x.Choose(len(ms), "message")]
				m.push(h.B, h.N)
			}})
		}
		if !stray { // once: a part of a block that was not requested
			other := uint32(l.Pieces() - 1)
			if len(m.open) > 0 {
				if o := m.open[len(m.open)-1]; o.U(0) == other {
					other = 0
				}
				acts = append(acts, act{"stray block of the piece", func() {
					stray = true
					o := m.open[len(m.open)-1]
					m.push(vnet.Piece(o.U(0), o.U(1)+1, []byte{7}), fmt.Sprintf("stray(%d,%d)", o.U(0), o.U(1)+1))
				}})
			}
			acts = append(acts, act{"stray block of a piece", func() {
				stray = true
				m.push(vnet.Piece(other, 1, []byte{7}), fmt.Sprintf("stray(%d,1)", other))
			}})
		}
		acts[x.Choose(len(acts), "action")].f()
	}
	if s.Ended && stray { // unrequested data may end the session
		s.Finish()
		x.Outcome(m.trace)
		return
	}
	if s.Ended && !s.T.Done() {
		x.Fail("ended", "the session ended although the peer did nothing wrong and answered every request in time: %s", m.trace)
	}
	// from here on the remote is a good seed: everything announced has to be transferred
	for i := range m.chk {
		if !m.chk[i] {
			m.chk[i] = true
			m.push(vnet.Have(uint32(i)), fmt.Sprintf("have(%d)", i))
		}
	}
	if m.choked {
		m.choked = false
		m.push(vnet.Unchoke(), "unchoke")
	}
	for round := 0; m.missing() && !s.T.Done(); round++ {
		if len(m.open) == 0 {
			m.sleep(2 * time.Second)
		}
		for i := 0; i < 45 && len(m.open) == 0 && !s.Ended; i++ {
			m.sleep(2 * time.Second)
		}
		if s.T.Done() {
			break
		}
		if s.Ended && m.missing() {
			x.Fail("ended", "the session ended although the peer did nothing wrong: %s", m.trace)
		}
		if len(m.open) == 0 {
			x.Fail("no-request", "unchoked, and the peer offers pieces nobody has, but nothing is requested for 90 s: %s", m.trace)
		}
		o := m.open[len(m.open)-1]
		m.open = nil
		m.got[[2]uint32{o.U(0), o.U(1)}] = true
		m.push(s.Answer(o.M), fmt.Sprintf("answer(%d,%d)", o.U(0), o.U(1)))
		if round > 20*len(m.chk)+50 {
			x.Fail("no-progress", "requests do not come to an end: %s", m.trace)
		}
	}
	s.Sleep(3 * time.Second)
	m.observe()
	if !s.T.Done() {
		x.Fail("not-done", "everything was answered but the torrent is not complete: %s", m.trace)
	}
	s.Finish()
	if w := l.Verify(s.Dir, nil); w != "" {
		x.Fail("content", "wrong content: %s", w)
	}
	x.Outcome(m.trace)
}

func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "event sequences", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		k := x.Choose(3, "pieces")
		seeded := x.Choose(3, "start")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 2*(k+1) - 1}}, PieceLen: 2}
		run(x, l, vrt.Pick(5, 7), seeded, 0)
	})
}

func TestBlocks(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "pieces of several blocks", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		k := x.Choose(2, "pieces")
		seeded := x.Choose(3, "start")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 256*1024*(k+1) + 5}}, PieceLen: 256*1024 + 1}
		run(x, l, vrt.Pick(4, 5), seeded, 0)
	})
}

// One (thorough: two) of the messages that change nothing anywhere.
func TestOthers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "other messages", Bubble: true, ShardDepth: 2}, func(x *vrt.X) {
		k := x.Choose(3, "pieces")
		seeded := x.Choose(3, "start")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 2*(k+1) - 1}}, PieceLen: 2}
		run(x, l, vrt.Pick(3, 4), seeded, vrt.Pick(1, 2))
	})
}
