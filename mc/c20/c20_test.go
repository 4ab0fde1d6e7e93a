package c20

import (
	"context"
	"fmt"
	"net/netip"
	"os"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/tracker"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vudp"
)

func TestMain(m *testing.M) { vrt.Main(m, "C20") }

func open(x *vrt.X, t *vudp.T) gotit.Tracker {
	tr, err := tracker.New(vudp.URL, zap.NewNop())
	if err != nil {
		x.Fail("open", "a UDP tracker cannot be made: %v", err)
	}
	return tr
}

// announce runs one announce, at most 10 virtual minutes.
func announce(x *vrt.X, t *vudp.T, tr gotit.Tracker) ([]netip.AddrPort, error) {
	type res struct {
		ips []netip.AddrPort
		err error
	}
	ch := make(chan res, 1)
	go func() {
		d := t.Data
		ips, err := tr.Announce(context.Background(), t.Hash, &d)
		ch <- res{append([]netip.AddrPort{}, ips...), err}
	}()
	select {
	case r := <-ch:
		return r.ips, r.err
	case <-time.After(10 * time.Minute):
		x.Fail("hangs", "an announce does not end")
		return nil, nil
	}
}

func end(t *vudp.T, tr gotit.Tracker) {
	tr.Close()
	t.Net.CloseAll()
	time.Sleep(20 * time.Minute)
	synctest.Wait()
}

const connID = 0xfedcba9876543210

// good replies like a tracker with the given peers.
func good(r *vudp.Req, peers []byte) {
	switch r.Action {
	case 0:
		r.Conn.Push(vudp.Connect(0, r.Tid, connID))
	case 1:
		r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 3, 5, peers))
	}
}

// The bytes of both requests.
func TestRequests(t *testing.T) {
	nums := []uint64{0, 1, 255, 256, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 0x0102030405, 1 << 63, ^uint64(0)}
	vrt.Explore(t, vrt.Opts{Section: "requests", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		tr := vudp.New(x)
		// one field at a time takes every value, the others differ from each other
		d := gotit.AnnounceData{Downloaded: 0x0102030405060708, Left: 0x1112131415161718, Uploaded: 0x2122232425262728, Port: 0x3132}
		id := uint64(connID)
		h := []byte("\x00\x01\x7f\x80\xffabcdefghijklmno")
		switch x.Choose(6, "field") {
		case 0:
			d.Downloaded = vrt.Of(x, "downloaded", nums...)
		case 1:
			d.Left = vrt.Of(x, "left", nums...)
		case 2:
			d.Uploaded = vrt.Of(x, "uploaded", nums...)
		case 3:
			d.Port = vrt.Of(x, "port", 1, 80, 255, 256, 6881, 32767, 32768, 65534, 65535)
		case 4:
			id = vrt.Of(x, "connection id", nums...)
		case 5:
			v := x.Choose(256, "hash byte")
			for i := range h {
				h[i] = byte(v + i)
			}
		}
		tr.Hash, tr.Data = string(h), d
		seen := false
		tr.ConnID = func() (uint64, bool) { return id, seen }
		n := 0
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 0 {
				r.Conn.Push(vudp.Connect(0, r.Tid, id))
				seen = true
			} else {
				n++
				if !seen {
					x.Fail("order", "an announce is sent before the connect reply")
				}
				r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 3, 5, vudp.Peers(1, 2)))
			}
		}
		c := open(x, tr)
		ips, err := announce(x, tr, c)
		if err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(1, 2))) {
			x.Fail("result", "the reply has 2 peers, the announce returns %v, %v", ips, err)
		}
		if n != 1 {
			x.Fail("count", "%d announce requests are sent", n)
		}
		end(tr, c)
		x.Outcome(d, id, string(h))
	})
}

var actions = []uint32{0, 1, 2, 3, 4, 255, 1 << 16, 1 << 24, 1 << 31, ^uint32(0)}

func tids(r *vudp.Req, prev uint32) []uint32 {
	return []uint32{r.Tid, r.Tid + 1, r.Tid ^ 1<<31, r.Tid ^ 1<<8, 0, prev, ^r.Tid, r.Tid<<16 | r.Tid>>16}
}

// Every kind of reply to the connect request, alone and with the right one afterwards.
func TestConnectReplies(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "connect replies", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		action := vrt.Of(x, "action", actions...)
		k := x.Choose(8, "transaction id")
		n := x.Choose(vrt.Pick(41, 101), "length")
		after := x.Choose(3, "then")
		tr := vudp.New(x)
		bad := uint64(0x1111111122222222)
		right := n >= 16 && action == 0 && k == 0
		ids := map[uint64]bool{}
		announced := 0
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 1 {
				announced++
				ids[r.ID] = true
				good(r, vudp.Peers(1, 2))
				return
			}
			b := vudp.Connect(action, tids(r, 0)[k], bad)
			for len(b) < n {
				b = append(b, byte(len(b)))
			}
			r.Conn.Push(b[:n])
			switch after {
			case 1:
				good(r, nil)
			case 2:
				r.Conn.PushAfter(100*time.Millisecond, vudp.Connect(0, r.Tid, connID))
			}
		}
		c := open(x, tr)
		ips, err := announce(x, tr, c)
		if !right && ids[bad] {
			x.Fail("accepted", "a connect reply with action %d, transaction id variant %d and %d bytes is accepted", action, k, n)
		}
		switch {
		case err != nil:
			if right && n == 16 {
				x.Fail("refused", "a right connect reply leads to %v", err)
			}
		case !right && after == 0:
			x.Fail("accepted", "the announce succeeds with %v without a right connect reply", ips)
		case !vudp.Equal(ips, vudp.Addrs(vudp.Peers(1, 2))):
			x.Fail("peers", "the reply has 2 peers, the announce returns %v", ips)
		}
		end(tr, c)
		x.Outcome(action, k, n, after, err == nil)
	})
}

// Every kind of reply to the announce request, alone and with the right one afterwards.
func TestAnnounceReplies(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "announce replies", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		action := vrt.Of(x, "action", actions...)
		k := x.Choose(8, "transaction id")
		n := x.Choose(vrt.Pick(45, 101), "length")
		after := x.Choose(3, "then")
		tr := vudp.New(x)
		bad, ok := vudp.Peers(7, 20), vudp.Peers(1, 2)
		right := n >= 20 && action == 1 && k == 0
		tid := uint32(0)
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 0 {
				tid = r.Tid
				good(r, nil)
				return
			}
			b := vudp.Announce(action, tids(r, tid)[k], 1800, 3, 5, bad)
			r.Conn.Push(b[:n])
			switch after {
			case 1:
				good(r, ok)
			case 2:
				r.Conn.PushAfter(100*time.Millisecond, vudp.Announce(1, r.Tid, 1800, 3, 5, ok))
			}
		}
		c := open(x, tr)
		ips, err := announce(x, tr, c)
		what := fmt.Sprintf("an announce reply with action %d, transaction id variant %d and %d bytes", action, k, n)
		switch {
		case err != nil:
			if right && (n-20)%6 == 0 {
				x.Fail("refused", "%s leads to %v", what, err)
			}
		case right && vudp.Equal(ips, vudp.Addrs(bad[:n-20])):
		case after > 0 && vudp.Equal(ips, vudp.Addrs(ok)) && (!right || (n-20)%6 != 0):
		default:
			x.Fail("accepted", "%s leads to %v", what, ips)
		}
		end(tr, c)
		x.Outcome(action, k, n, after, err == nil)
	})
}

// Replies with every number of peers up to 90 and the largest datagrams; extreme counters.
func TestPeers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "numbers of peers", Bubble: true}, func(x *vrt.X) {
		n := x.Choose(98, "peers")
		if n > 90 {
			n = []int{170, 200, 241, 256, 1000, 5000, 10914}[n-91]
		}
		v := vrt.Of(x, "counters", uint32(0), 1, 1<<31-1, 1<<31, ^uint32(0))
		tr := vudp.New(x)
		ps := vudp.Peers(n%200, n)
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 0 {
				good(r, nil)
			} else {
				r.Conn.Push(vudp.Announce(1, r.Tid, v, v, v, ps))
			}
		}
		c := open(x, tr)
		ips, err := announce(x, tr, c)
		if err != nil || !vudp.Equal(ips, vudp.Addrs(ps)) {
			x.Fail("peers", "the reply has %d peers, the announce returns %d (%v)", n, len(ips), err)
		}
		end(tr, c)
		x.Outcome(n, v)
	})
}

// Every byte of one peer.
func TestPeerBytes(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "peer bytes", Bubble: true}, func(x *vrt.X) {
		i, v := x.Choose(6, "byte"), x.Choose(256, "value")
		tr := vudp.New(x)
		ps := vudp.Peers(3, 3)
		ps[6+i] = byte(v)
		tr.Reply = func(r *vudp.Req) { good(r, ps) }
		c := open(x, tr)
		ips, err := announce(x, tr, c)
		if err != nil || !vudp.Equal(ips, vudp.Addrs(ps)) {
			x.Fail("peers", "the reply has peers %v, the announce returns %v, %v", vudp.Addrs(ps), ips, err)
		}
		end(tr, c)
		x.Outcome(i, v)
	})
}

// All sequences of announces on one tracker, each answered in one of several ways.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of announces", Bubble: true}, func(x *vrt.X) {
		tr := vudp.New(x)
		kind, round := 0, 0
		cid := uint64(0)
		lastA, lastC := uint32(0), uint32(0)
		tr.ConnID = func() (uint64, bool) { return cid, true }
		tr.Reply = func(r *vudp.Req) {
			ps := vudp.Peers(round+1, 2)
			if r.Action == 0 {
				switch kind {
				case 5: // error
					r.Conn.Push(append(vnet.U32(3, r.Tid), "no"...))
				case 6: // silence
				case 7: // short
					r.Conn.Push(vudp.Connect(0, r.Tid, 1)[:12])
				case 8: // an announce reply already now
					r.Conn.Push(vudp.Announce(1, r.Tid, 9, 9, 9, vudp.Peers(90, 3)))
				case 9: // the transaction of the announce before
					r.Conn.Push(vudp.Connect(0, lastC, 77))
				default:
					cid = connID + uint64(round)
					r.Conn.Push(vudp.Connect(0, r.Tid, cid))
				}
				lastC = r.Tid
				return
			}
			switch kind {
			case 0:
				r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 0, 0, ps))
			case 1:
				r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 0, 0, nil))
			case 2: // error
				r.Conn.Push(append(vnet.U32(3, r.Tid), "no such torrent"...))
			case 3: // short
				r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 0, 0, nil)[:19])
			case 4: // the transaction of the announce before
				r.Conn.Push(vudp.Announce(1, lastA, 1800, 0, 0, vudp.Peers(91, 3)))
			case 10: // a connect reply instead
				r.Conn.Push(vudp.Connect(0, r.Tid, 5))
			case 11: // silence
			}
			lastA = r.Tid
		}
		c := open(x, tr)
		trace := ""
		for ; round < vrt.Pick(3, 4); round++ {
			kind = x.Choose(12, "reply")
			tr.Data = gotit.AnnounceData{Downloaded: uint64(round), Left: uint64(100 - round), Port: 6881}
			ips, err := announce(x, tr, c)
			trace += fmt.Sprintf("reply %d -> %v %v; ", kind, len(ips), err == nil)
			want := map[int][]byte{0: vudp.Peers(round+1, 2), 1: nil}
			w, isOK := want[kind]
			switch {
			case isOK && (err != nil || !vudp.Equal(ips, vudp.Addrs(w))):
				x.Fail("result", "announce %d is answered with %v and returns %v, %v (%s)", round, vudp.Addrs(w), ips, err, trace)
			case !isOK && err == nil:
				x.Fail("accepted", "announce %d succeeds with %v (%s)", round, ips, trace)
			}
		}
		end(tr, c)
		x.Outcome(trace)
	})
}

// All sequences of announces where the network refuses to send one of the requests.
func TestSending(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "failing sends", Bubble: true}, func(x *vrt.X) {
		tr := vudp.New(x)
		kind, round := 0, 0
		var answered []byte
		replied := false
		errs := []error{syscall.ECONNREFUSED, syscall.EPERM, os.ErrDeadlineExceeded}
		fail := func(cn *vnet.Conn, phase int) {
			cn.FailWrites(nil)
			if kind == 0 || (kind-1)%2 != phase {
				return
			}
			if err := errs[(kind-1)/4]; (kind-1)/2%2 == 0 {
				cn.FailWrites(err)
			} else {
				cn.FailWrite(err)
			}
		}
		ids := map[uint64]bool{}
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 0 {
				ids[connID+uint64(round)] = true
				r.Conn.Push(vudp.Connect(0, r.Tid, connID+uint64(round)))
				fail(r.Conn, 1) // the announce request cannot be sent
				return
			}
			if !ids[r.ID] {
				x.Fail("id", "an announce is sent with connection id %#x, which the tracker never gave", r.ID)
			}
			answered, replied = vudp.Peers(round+1, 1+round%3), true
			r.Conn.Push(vudp.Announce(1, r.Tid, 1800, 0, 0, answered))
		}
		c := open(x, tr)
		trace := ""
		for ; round < vrt.Pick(3, 5); round++ {
			kind = x.Choose(1+4*len(errs), "what fails")
			replied = false
			for _, cn := range tr.Net.Conns() {
				fail(cn, 0) // the connect request cannot be sent
			}
			tr.Data = gotit.AnnounceData{Downloaded: uint64(round), Left: uint64(100 - round), Port: 6881}
			ips, err := announce(x, tr, c)
			trace += fmt.Sprintf("failure %d -> %v %v; ", kind, len(ips), err == nil)
			switch {
			case err == nil && !replied:
				x.Fail("unsent", "announce %d succeeds with %v although no request got through (%s)", round, ips, trace)
			case err == nil && !vudp.Equal(ips, vudp.Addrs(answered)):
				x.Fail("result", "announce %d is answered with %v and returns %v (%s)", round, vudp.Addrs(answered), ips, trace)
			case err != nil && kind == 0:
				x.Fail("result", "announce %d fails with %v after earlier sends failed (%s)", round, err, trace)
			}
		}
		end(tr, c)
		x.Outcome(trace)
	})
}
