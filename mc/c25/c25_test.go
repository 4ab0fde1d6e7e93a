package c25

import (
	"fmt"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C25") }

type piece int

const (
	no     piece = iota // never announced
	yes                 // announced
	either              // announced once, but not by a later bitfield
)

// session sends the announcements (glued or one by one, before or after the unchoke), serves every
// request and compares the pieces that are requested with want.
func session(x *vrt.X, n int, ann [][]byte, want []piece, mode int, what string) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: n}}, PieceLen: 1}
	s := vsess.New(x, l)
	defer s.Drop()
	asked := map[uint32]int{}
	var queue [][]byte
	s.OnMsg = func(m vsess.Msg) {
		if !m.Keep && m.ID == 6 {
			if w := vsess.ValidRequest(l, m.M); w != "" {
				x.Fail("request", "%s: %s (%v)", what, w, m.M)
			}
			asked[m.U(0)]++
			if asked[m.U(0)] > 3 {
				x.Fail("again", "%s: piece %d is requested again and again", what, m.U(0))
			}
			if mode < 2 {
				s.C.Push(s.Answer(m.M))
			} else {
				queue = append(queue, s.Answer(m.M))
			}
		}
	}
	s.Begin()
	switch mode {
	case 0: // all announcements in one segment, then the unchoke
		var b []byte
		for _, a := range ann {
			b = append(b, a...)
		}
		s.Push(append(b, vnet.Unchoke()...))
	case 1: // one by one while unchoked, everything served in between (sequences without a bitfield after others)
		s.Push(vnet.Unchoke())
		for _, a := range ann {
			s.Push(a)
		}
	case 2: // one by one while unchoked, nothing served until the end
		s.Push(vnet.Unchoke())
		for _, a := range ann {
			s.Push(a)
		}
		mode = 0
		for i := 0; i < 5*n+20 && len(queue) > 0; i++ {
			q := queue[0]
			queue = queue[1:]
			s.Push(q)
		}
	}
	s.Sleep(3 * time.Second)
	for i := 0; i < 5*n+20 && len(queue) > 0; i++ {
		q := queue[0]
		queue = queue[1:]
		s.Push(q)
	}
	s.Sleep(time.Second)
	ended := s.Ended
	all := s.T.Done()
	s.Finish()
	for i, e := s.P.Bitset.NextSet(0); e; i, e = s.P.Bitset.NextSet(i + 1) {
		if i >= uint(n) {
			x.Fail("no-such-piece", "%s: the peer is regarded as having piece %d of a torrent of %d pieces", what, i, n)
		}
	}
	if ended && !all {
		x.Fail("ended", "%s: the session ended", what)
	}
	for i := 0; i < n; i++ {
		if want[i] == yes && asked[uint32(i)] == 0 {
			x.Fail("missed", "%s: piece %d was announced but is not requested (requested: %v)", what, i, asked)
		}
		if want[i] == no && asked[uint32(i)] > 0 {
			x.Fail("invented", "%s: piece %d was not announced but is requested", what, i)
		}
	}
	x.Outcome(n, fmt.Sprint(asked))
}

func bits(n int, payload []byte) []piece {
	w := make([]piece, n)
	for i := range w {
		if i/8 < len(payload) && payload[i/8]&(0x80>>(i%8)) != 0 {
			w[i] = yes
		}
	}
	return w
}

// Every one-byte bitfield for every number of pieces up to 8; every two-byte one for 9..12 pieces.
func TestBitfield(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "bitfields", Bubble: true}, func(x *vrt.X) {
		n := 1 + x.Choose(vrt.Pick(11, 16), "pieces")
		b0 := byte(x.Choose(256, "byte 0"))
		p := []byte{b0}
		if n > 8 {
			if vrt.Thorough() {
				p = append(p, byte(x.Choose(256, "byte 1")))
			} else {
				hi := x.Choose(1<<(n-8), "byte 1")
				p = append(p, byte(hi<<(16-n))|vrt.Of(x, "spare", 0, byte(0xff>>(n-8))))
			}
		}
		session(x, n, [][]byte{vnet.Bitfield(p...)}, bits(n, p), 0, fmt.Sprintf("%d pieces, bitfield %08b", n, p))
	})
}

// Single bits, complements and lengths around the right one, up to many pieces.
func TestWide(t *testing.T) {
	sizes := []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 71, 72, 73, 127, 128, 129, 130}
	vrt.Explore(t, vrt.Opts{Section: "wide bitfields", Bubble: true}, func(x *vrt.X) {
		n := sizes[x.Choose(len(sizes), "pieces")]
		nb := (n + 7) / 8
		size := nb + []int{0, -1, 1, 7, 8}[x.Choose(5, "length")]
		if size < 0 {
			return
		}
		p := make([]byte, size)
		switch x.Choose(5, "pattern") {
		case 0: // single bit
			if size == 0 {
				return
			}
			b := x.Choose(size*8, "bit")
			p[b/8] = 0x80 >> (b % 8)
		case 1: // all but one
			if size == 0 {
				return
			}
			b := x.Choose(size*8, "bit")
			for i := range p {
				p[i] = 0xff
			}
			p[b/8] &^= 0x80 >> (b % 8)
		case 2:
			for i := range p {
				p[i] = 0xff
			}
		case 3: // nothing
		case 4:
			for i := range p {
				p[i] = []byte{0xa5, 0x0f, 0x80, 0x01}[i%4]
			}
		}
		if size < nb && size*8 < n {
			// a bitfield that is too short may also be taken as malformed: then nothing is announced
			w := bits(n, p)
			for i := range w {
				if w[i] == yes {
					w[i] = either
				}
			}
			shortSession(x, n, p, w)
			return
		}
		w := bits(n, p)
		if size > nb { // too long: may be taken as malformed too
			for i := range w {
				if w[i] == yes {
					w[i] = either
				}
			}
			shortSession(x, n, p, w)
			return
		}
		session(x, n, [][]byte{vnet.Bitfield(p...)}, w, 0, fmt.Sprintf("%d pieces, bitfield %08b", n, p))
	})
}

// shortSession is a session with a bitfield of the wrong length: no crash, nothing invented; the session may end.
func shortSession(x *vrt.X, n int, p []byte, w []piece) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: n}}, PieceLen: 1}
	s := vsess.New(x, l)
	defer s.Drop()
	s.OnMsg = func(m vsess.Msg) {
		if !m.Keep && m.ID == 6 {
			if e := vsess.ValidRequest(l, m.M); e != "" {
				x.Fail("request", "%s (%v)", e, m.M)
			}
			if w[m.U(0)] == no {
				x.Fail("invented", "%d pieces, bitfield %08b: piece %d was not announced but is requested", n, p, m.U(0))
			}
			s.C.Push(s.Answer(m.M))
		}
	}
	s.Begin()
	s.Push(append(vnet.Bitfield(p...), vnet.Unchoke()...))
	s.Sleep(3 * time.Second)
	s.Finish()
	x.Outcome(n, len(p), len(s.Requests()))
}

// Sequences of haves (existing, repeated, beyond the end) and bitfields.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences", Bubble: true}, func(x *vrt.X) {
		n := []int{1, 3, 8, 9}[x.Choose(4, "pieces")]
		mode := x.Choose(3, "mode")
		idx := []uint32{0, uint32(n - 1), uint32(n / 2), uint32(n), uint32(n + 1), 64, 1 << 16, 0x7fffffff, 0x80000000, 0xffffffff}
		fields := [][]byte{{0x80, 0}, {0xff, 0xff}, {0, 0}, {0x24, 0x80}}
		want := make([]piece, n)
		var ann [][]byte
		what := fmt.Sprintf("%d pieces, mode %d:", n, mode)
		k := vrt.Pick(3, 4)
		for i := 0; i < k; i++ {
			c := x.Choose(1+len(idx)+len(fields), "message")
			if c == 0 {
				break
			}
			c--
			if c < len(idx) {
				ann = append(ann, vnet.Have(idx[c]))
				what += fmt.Sprintf(" have(%d)", idx[c])
				if uint64(idx[c]) < uint64(n) {
					want[idx[c]] = yes
				}
				continue
			}
			f := fields[c-len(idx)][:(n+7)/8]
			ann = append(ann, vnet.Bitfield(f...))
			what += fmt.Sprintf(" bitfield(%08b)", f)
			for j, b := range bits(n, f) {
				if b == yes {
					want[j] = yes
				} else if want[j] == yes {
					want[j] = either
				}
			}
		}
		session(x, n, ann, want, mode, what)
	})
}

// Messages that announce nothing, before, between and after those that do.
func TestOthers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "other messages", Bubble: true}, func(x *vrt.X) {
		n := []int{3, 9}[x.Choose(2, "pieces")]
		mode := x.Choose(3, "mode")
		other := vnet.Harmless(n)
		fields := [][]byte{{0x80, 0}, {0xff, 0xff}, {0x24, 0x80}}
		want := make([]piece, n)
		var ann [][]byte
		what := fmt.Sprintf("%d pieces, mode %d:", n, mode)
		k, most := 3, vrt.Pick(1, 2)
		for i := 0; i < k; i++ {
			alt := 1 + 2 + len(fields)
			if most > 0 {
				alt += len(other)
			}
			c := x.Choose(alt, "message")
			switch {
			case c == 0:
				i = k
			case c < 3:
				j := []int{0, n - 1}[c-1]
				ann = append(ann, vnet.Have(uint32(j)))
				what += fmt.Sprintf(" have(%d)", j)
				want[j] = yes
			case c < 3+len(fields):
				f := fields[c-3][:(n+7)/8]
				ann = append(ann, vnet.Bitfield(f...))
				what += fmt.Sprintf(" bitfield(%08b)", f)
				for j, b := range bits(n, f) {
					if b == yes {
						want[j] = yes
					} else if want[j] == yes {
						want[j] = either
					}
				}
			default:
				most--
				o := other[c-3-len(fields)]
				ann = append(ann, o.B)
				what += " " + o.N
			}
		}
		session(x, n, ann, want, mode, what)
	})
}

// Torrents of many pieces.
func TestMany(t *testing.T) {
	sizes := []int{255, 256, 257, 4095, 4096, 4097, 32768, 32769, 65535, 65536, 65537, 70000}
	if vrt.Thorough() {
		sizes = append(sizes, 131072, 131073, 200003)
	}
	vrt.Explore(t, vrt.Opts{Section: "many pieces", Bubble: true}, func(x *vrt.X) {
		n := sizes[x.Choose(len(sizes), "pieces")]
		at := x.Choose(8, "piece")
		i := []int{0, 127, 254, n / 2, n - 129, n - 9, n - 2, n - 1}[at]
		by := x.Choose(3, "by")
		mode := x.Choose(3, "mode")
		want := make([]piece, n)
		want[i] = yes
		p := make([]byte, (n+7)/8)
		var ann [][]byte
		switch by {
		case 0:
			p[i/8] = 0x80 >> (i % 8)
			ann = [][]byte{vnet.Bitfield(p...)}
		case 1:
			ann = [][]byte{vnet.Have(uint32(i))}
		case 2: // a neighbour by bitfield, then by have, and some that do not exist
			j := i ^ 1
			if j < n {
				p[j/8] = 0x80 >> (j % 8)
				want[j] = yes
			}
			ann = [][]byte{vnet.Bitfield(p...), vnet.Have(uint32(i)), vnet.Have(uint32(n)), vnet.Have(uint32(n + 65536)), vnet.Have(uint32(1<<31 + i))}
		}
		session(x, n, ann, want, mode, fmt.Sprintf("%d pieces, piece %d announced, way %d", n, i, by))
	})
}
