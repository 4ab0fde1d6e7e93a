package c17

import (
	"bytes"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C17") }

var layout = &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 5}}, PieceLen: 2}

// expect runs Announce against what hello sends and checks the verdict: must (1 accepted, 0 refused, -1 either).
func expect(x *vrt.X, must int, what string, hello func(c *vnet.Conn, hash []byte)) {
	expectT(x, must, what, hello, nil)
}

func expectT(x *vrt.X, must int, what string, hello func(c *vnet.Conn, hash []byte), accept func(c *vnet.Conn) error) {
	s := vsess.New(x, layout)
	defer s.Drop()
	if accept != nil {
		s.Net.Host(vsess.Addr, accept)
	}
	s.Hello = func(c *vnet.Conn) { hello(c, s.T.Hash) }
	t0 := time.Now()
	var err error
	x.NoCrash("Announce", func() { err = s.Announce() })
	took := time.Since(t0)
	if took > 30*time.Second {
		x.Fail("slow", "%s: Announce took %v", what, took)
	}
	want := append(append([]byte{19}, "BitTorrent protocol"...), make([]byte, 8)...)
	want = append(append(want, s.T.Hash...), peer.ClientId...)
	if s.C != nil {
		sent := s.C.Sent()
		// the reserved bytes of our own handshake are ours to choose
		if len(sent) == 68 {
			copy(sent[20:28], make([]byte, 8))
		}
		if !bytes.Equal(sent, want) && accept == nil {
			x.Fail("sent", "%s: what is sent until the handshake is over is not exactly our handshake: %x", what, s.C.Sent())
		}
	}
	if must == 1 && err != nil {
		x.Fail("refused", "%s is refused: %v", what, err)
	}
	if must == 0 && err == nil {
		x.Fail("accepted", "%s is accepted", what)
	}
	if err != nil {
		if o := s.Net.Open(); len(o) > 0 {
			x.Fail("not-closed", "%s is refused but the connection stays open", what)
		}
	} else if len(s.Net.Open()) != 1 {
		x.Fail("closed", "%s is accepted but there are %d open connections", what, len(s.Net.Open()))
	}
	x.Outcome(what, err == nil)
	if err == nil {
		s.P.Close()
	}
	s.Net.CloseAll()
}

// Every single-byte change of the handshake.
func TestBytes(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "every value of every byte", Bubble: true}, func(x *vrt.X) {
		pos := x.Choose(68, "pos")
		val := x.Choose(256, "val")
		s := fmt.Sprintf("handshake with byte %d set to %#x", pos, val)
		expectByte(x, s, pos, byte(val))
	})
}

func expectByte(x *vrt.X, what string, pos int, val byte) {
	s := vsess.New(x, layout)
	hash := s.T.Hash
	s.Drop()
	h := vnet.Handshake(hash, "-XX0001-remoteremote")
	must := 0
	if h[pos] == val || pos >= 20 && pos < 28 || pos >= 48 {
		must = 1
	}
	h[pos] = val
	expect(x, must, what, func(c *vnet.Conn, _ []byte) { c.Push(h) })
}

// Pairs of changes (a check that folds bytes together would miss those).
func TestPairs(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "pairs of changed bytes", Bubble: true}, func(x *vrt.X) {
		i := x.Choose(68, "i")
		j := x.Choose(68, "j")
		if j <= i {
			return
		}
		kind := x.Choose(3, "kind") // same xor on both, swap, complementary difference
		free := func(p int) bool { return p >= 20 && p < 28 || p >= 48 }
		same := false
		mk := func(hash []byte) []byte {
			h := vnet.Handshake(hash, "-XX0001-remoteremote")
			o := append([]byte{}, h...)
			switch kind {
			case 0:
				h[i] ^= 0x20
				h[j] ^= 0x20
			case 1:
				h[i], h[j] = h[j], h[i]
			case 2:
				h[i]++
				h[j]--
			}
			same = (h[i] == o[i] || free(i)) && (h[j] == o[j] || free(j))
			return h
		}
		s := vsess.New(x, layout)
		mk(s.T.Hash)
		s.Drop()
		must := 0
		if same {
			must = 1
		}
		expect(x, must, fmt.Sprintf("bytes %d and %d changed (kind %d)", i, j, kind), func(c *vnet.Conn, hash []byte) { c.Push(mk(hash)) })
	})
}

// Whole fields.
func TestFields(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "whole fields", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		k := x.Choose(14, "variant")
		res := x.Choose(4, "reserved")
		id := x.Choose(4, "peer id")
		must := 0
		var what string
		mk := func(hash []byte) []byte {
			h := vnet.Handshake(hash, "-XX0001-remoteremote")
			for b := 20; b < 28; b++ {
				h[b] = []byte{0, 0xff, 0x10, byte(b)}[res]
			}
			switch id {
			case 1:
				copy(h[48:], make([]byte, 20))
			case 2:
				copy(h[48:], bytes.Repeat([]byte{0xff}, 20))
			case 3: // our own id
				copy(h[48:], peer.ClientId)
			}
			rev := func(b []byte) {
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			}
			switch k {
			case 0:
				must, what = 1, "good handshake"
			case 1:
				copy(h[28:48], make([]byte, 20))
				what = "zero hash"
			case 2:
				copy(h[28:48], bytes.Repeat([]byte{0xff}, 20))
				what = "hash of ones"
			case 3:
				rev(h[28:48])
				what = "reversed hash"
			case 4:
				copy(h[1:20], "bittorrent protocol")
				what = "lower case protocol"
			case 5:
				copy(h[1:20], "BITTORRENT PROTOCOL")
				what = "upper case protocol"
			case 6:
				h[0] = 0
				what = "zero protocol length"
			case 7:
				h = h[1:]
				h = append(h, 0)
				what = "handshake without its first byte"
			case 8:
				h = append([]byte{19}, h[:67]...)
				what = "handshake shifted by a byte"
			case 9:
				x := h[28]
				copy(h[28:47], h[29:48])
				h[47] = x
				what = "rotated hash"
			case 10:
				copy(h[28:48], h[48:68])
				what = "peer id instead of the hash"
			case 11: // hash and id exchanged
				t := append([]byte{}, h[28:48]...)
				copy(h[28:48], h[48:68])
				copy(h[48:68], t)
				what = "hash and peer id exchanged"
			case 12:
				copy(h, bytes.Repeat([]byte{19}, 68))
				what = "all bytes 19"
			case 13:
				copy(h, "HTTP/1.1 400 Bad Request\r\nConnection: close\r\nContent-Length: 0\r\n\r\n\r\n")
				what = "an HTTP answer"
			}
			return h
		}
		mk(make([]byte, 20))
		expect(x, must, what, func(c *vnet.Conn, hash []byte) { c.Push(mk(hash)) })
	})
}

// Handshakes that are cut, arrive in parts, or are followed by more.
func TestCut(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "cuts and segments", Bubble: true}, func(x *vrt.X) {
		n := x.Choose(69, "first part") // bytes of the first part
		how := x.Choose(9, "then")
		h := func(hash []byte) []byte { return vnet.Handshake(hash, "-XX0001-remoteremote") }
		full := n == 68
		b01 := func(b bool) int {
			if b {
				return 1
			}
			return 0
		}
		switch how {
		case 0:
			expect(x, b01(full), fmt.Sprintf("%d bytes, then the end", n), func(c *vnet.Conn, hash []byte) {
				if n > 0 {
					c.Push(h(hash)[:n])
				}
				c.EOF()
			})
		case 1:
			expect(x, b01(full), fmt.Sprintf("%d bytes, then silence", n), func(c *vnet.Conn, hash []byte) {
				if n > 0 {
					c.Push(h(hash)[:n])
				}
			})
		case 2: // a reset destroys what was not read
			expect(x, 0, fmt.Sprintf("%d bytes and a reset", n), func(c *vnet.Conn, hash []byte) {
				c.Push(h(hash)[:n])
				c.Reset()
			})
		case 3, 4, 5:
			d := []time.Duration{0, 100 * time.Millisecond, 400 * time.Millisecond}[how-3]
			expect(x, 1, fmt.Sprintf("%d bytes, %v later the rest", n, d), func(c *vnet.Conn, hash []byte) {
				if n > 0 {
					c.Push(h(hash)[:n])
				}
				if n < 68 {
					if d == 0 {
						c.Push(h(hash)[n:])
					} else {
						c.PushAfter(d, h(hash)[n:])
					}
				}
			})
		case 6: // three parts
			expect(x, 1, fmt.Sprintf("%d bytes, one byte, the rest", n), func(c *vnet.Conn, hash []byte) {
				b := h(hash)
				if n > 0 {
					c.Push(b[:n])
				}
				if n < 68 {
					c.PushAfter(50*time.Millisecond, b[n:n+1])
				}
				if n+1 < 68 {
					c.PushAfter(200*time.Millisecond, b[n+1:])
				}
			})
		case 7: // more bytes after the handshake in the same segment
			expect(x, 1, fmt.Sprintf("handshake followed by %d bytes", n), func(c *vnet.Conn, hash []byte) {
				c.Push(append(h(hash), bytes.Repeat([]byte{0}, n)...))
			})
		case 8: // wrong hash, then a correct one after it
			expect(x, 0, "a wrong handshake followed by a correct one", func(c *vnet.Conn, hash []byte) {
				w := h(hash)
				w[28+n%20] ^= 1 << (n % 8)
				c.Push(append(w, h(hash)...))
			})
		}
	})
}

// Connections that cannot be made or written to.
func TestConnect(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "connection failures", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		switch x.Choose(4, "how") {
		case 0:
			expectT(x, 0, "a refused connection", nil, func(c *vnet.Conn) error { return vnet.ErrRefused })
		case 1:
			expectT(x, 0, "a connection that is never made", nil, func(c *vnet.Conn) error { return vnet.ErrBlackhole })
		case 2:
			expectT(x, 0, "a connection that takes no data", nil, func(c *vnet.Conn) error { c.Stall(true); return nil })
		case 3:
			expectT(x, 0, "a connection whose writes fail", nil, func(c *vnet.Conn) error { c.FailWrites(os.ErrClosed); return nil })
		}
	})
}

// Every hash differing from ours in one bit, and every prefix of it kept.
func TestHashBits(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "hash bits and prefixes", Bubble: true}, func(x *vrt.X) {
		if x.Bool("prefix") {
			n := x.Choose(20, "kept")
			from := x.Bool("from the end")
			expect(x, 0, fmt.Sprintf("only %d bytes of the hash right (end %v)", n, from), func(c *vnet.Conn, hash []byte) {
				h := vnet.Handshake(hash, "-XX0001-remoteremote")
				for i := 0; i < 20; i++ {
					if !from && i >= n || from && i < 20-n {
						h[28+i] ^= 0x55
					}
				}
				c.Push(h)
			})
			return
		}
		bit := x.Choose(160, "bit")
		expect(x, 0, fmt.Sprintf("hash bit %d flipped", bit), func(c *vnet.Conn, hash []byte) {
			h := vnet.Handshake(hash, "-XX0001-remoteremote")
			h[28+bit/8] ^= 1 << (bit % 8)
			c.Push(h)
		})
	})
}
