// Package vudp is a scripted BEP 15 tracker and a client of it.
package vudp

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/netip"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
)

// Addr of the tracker.
const Addr = "10.0.0.9:6969"

// URL of the tracker.
const URL = "udp://" + Addr

// Connect makes a reply to a connect request.
func Connect(action, tid uint32, id uint64) []byte {
	return binary.BigEndian.AppendUint64(vnet.U32(action, tid), id)
}

// Announce makes a reply to an announce request.
func Announce(action, tid, interval, leechers, seeders uint32, peers []byte) []byte {
	return append(vnet.U32(action, tid, interval, leechers, seeders), peers...)
}

// Peers makes n compact peers that are told apart by the tag.
func Peers(tag, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, 10, byte(tag), byte(i>>8), byte(i), byte(0x1a+tag), byte(i*7+tag))
	}
	return b
}

// Addrs are the addresses of compact peers.
func Addrs(b []byte) []netip.AddrPort {
	var out []netip.AddrPort
	for ; len(b) >= 6; b = b[6:] {
		out = append(out, netip.AddrPortFrom(netip.AddrFrom4([4]byte(b[:4])), binary.BigEndian.Uint16(b[4:])))
	}
	return out
}

// Equal compares lists of addresses.
func Equal(a, b []netip.AddrPort) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Req is a request of the client.
type Req struct {
	Data   []byte
	At     time.Time
	Conn   *vnet.Conn
	ID     uint64
	Action uint32
	Tid    uint32
}

// T is a scripted tracker.
type T struct {
	X      *vrt.X
	Net    *vnet.Net
	Reqs   []*Req
	Reply  func(r *Req)
	Hash   string
	Data   gotit.AnnounceData
	ConnID func() (uint64, bool) // the connection id an announce has to carry, if known
	Lax    bool                  // the contents of the requests are not judged
}

// New makes the network and the tracker.
func New(x *vrt.X) *T {
	rand.Seed(1)
	t := &T{X: x, Net: vnet.New(), Hash: "abcdefghijklmnopqrst"}
	t.Net.Host(Addr, t.Accept)
	return t
}

// Accept is the script of the host.
func (t *T) Accept(c *vnet.Conn) error {
	c.OnData = func(c *vnet.Conn, b []byte) {
		r := &Req{Data: b, At: time.Now(), Conn: c}
		t.Reqs = append(t.Reqs, r)
		if len(b) < 16 && t.Lax {
			return
		}
		if len(b) < 16 {
			t.X.Fail("packet", "a packet of %d bytes is sent", len(b))
		}
		r.ID, r.Action, r.Tid = binary.BigEndian.Uint64(b), binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[12:])
		switch {
		case t.Lax:
		case r.Action == 0:
			if len(b) != 16 {
				t.X.Fail("connect-packet", "a connect request has %d bytes", len(b))
			}
			if r.ID != 0x41727101980 {
				t.X.Fail("connect-packet", "a connect request has protocol id %#x", r.ID)
			}
		case r.Action == 1:
			if m := t.checkAnnounce(r); m != "" {
				t.X.Fail("announce-packet", "%s (%x)", m, b)
			}
		default:
			t.X.Fail("packet", "a request with action %d is sent", r.Action)
		}
		if t.Reply != nil {
			t.Reply(r)
		}
	}
	return nil
}

func (t *T) checkAnnounce(r *Req) string {
	b := r.Data
	if len(b) != 98 {
		return fmt.Sprintf("an announce request has %d instead of 98 bytes", len(b))
	}
	if string(b[16:36]) != t.Hash {
		return "an announce request has a wrong info-hash"
	}
	if string(b[36:56]) != string(peer.ClientId) || len(peer.ClientId) != 20 {
		return "an announce request has a wrong client id"
	}
	u := func(i int) uint64 { return binary.BigEndian.Uint64(b[i:]) }
	if u(56) != t.Data.Downloaded {
		return "downloaded is wrong"
	}
	if u(64) != t.Data.Left {
		return "left is wrong"
	}
	if u(72) != t.Data.Uploaded {
		return "uploaded is wrong"
	}
	if e := binary.BigEndian.Uint32(b[80:]); e > 3 {
		return "the event is none of 0 to 3"
	}
	if binary.BigEndian.Uint32(b[84:]) != 0 {
		return "the ip address is not the default"
	}
	if n := int32(binary.BigEndian.Uint32(b[92:])); n == 0 || n < -1 {
		return fmt.Sprintf("the number of wanted peers is %d", n)
	}
	if int(binary.BigEndian.Uint16(b[96:])) != t.Data.Port {
		return "the port is wrong"
	}
	if t.ConnID != nil {
		if id, ok := t.ConnID(); ok && id != r.ID {
			return "an announce request has not the connection id of the reply"
		}
	}
	return ""
}
