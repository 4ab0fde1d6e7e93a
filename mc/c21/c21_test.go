package c21

import (
	"context"
	"fmt"
	"net/netip"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/tracker"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vudp"
)

func TestMain(m *testing.M) { vrt.Main(m, "C21") }

const (
	onTime = iota
	slow   // still in time
	twice
	copyLate
	late
	later
	lost
	lateError
	nFates
)

var fates = []string{"on time", "slow", "twice", "a copy late", "late", "very late", "lost", "an error, late"}

func deliver(r *vudp.Req, fate int, b []byte) {
	switch fate {
	case onTime:
		r.Conn.Push(b)
	case slow:
		at(r, 350*time.Millisecond, b)
	case twice:
		r.Conn.Push(b)
		r.Conn.Push(b)
	case copyLate:
		r.Conn.Push(b)
		at(r, 600*time.Millisecond, b)
	case late:
		at(r, 620*time.Millisecond, b)
	case later:
		at(r, 1700*time.Millisecond, b)
	case lateError:
		at(r, 640*time.Millisecond, append(vnet.U32(3, r.Tid), "late"...))
	}
}

// at delivers after a while; datagrams may overtake each other.
func at(r *vudp.Req, d time.Duration, b []byte) {
	time.AfterFunc(d, func() { r.Conn.Push(b) })
}

func inTime(f int) bool { return f <= copyLate }

// explore runs rounds announces with a fate for every datagram.
func explore(t *testing.T, name string, rounds int, fs, gaps []int) {
	vrt.Explore(t, vrt.Opts{Section: name, Bubble: true}, func(x *vrt.X) {
		fate := make([][2]int, rounds)
		gap := make([]int, rounds)
		for i := range fate {
			fate[i][0] = fs[x.Choose(len(fs), "connect reply")]
			if inTime(fate[i][0]) { // otherwise there is no announce request
				fate[i][1] = fs[x.Choose(len(fs), "announce reply")]
			}
			if i > 0 {
				gap[i] = gaps[x.Choose(len(gaps), "gap")]
			}
		}
		step := uint64(x.Choose(2, "fresh connection ids")) // a tracker may give the same one again
		tr := vudp.New(x)
		tr.Lax = true
		cur := 0
		tr.Reply = func(r *vudp.Req) {
			if r.Action == 0 {
				deliver(r, fate[cur][0], vudp.Connect(0, r.Tid, 1000+step*uint64(cur)))
				return
			}
			deliver(r, fate[cur][1], vudp.Announce(1, r.Tid, 60, 0, 0, vudp.Peers(cur+1, 2)))
		}
		c, err := tracker.New(vudp.URL, zap.NewNop())
		if err != nil {
			x.Fail("open", "a UDP tracker cannot be made: %v", err)
		}
		trace := ""
		for ; cur < rounds; cur++ {
			time.Sleep(time.Duration(gap[cur]) * time.Millisecond)
			synctest.Wait()
			type res struct {
				ips []netip.AddrPort
				err error
			}
			ch := make(chan res, 1)
			begin := time.Now()
			go func() {
				d := tr.Data
				ips, err := c.Announce(context.Background(), tr.Hash, &d)
				ch <- res{append([]netip.AddrPort{}, ips...), err}
			}()
			var r res
			select {
			case r = <-ch:
			case <-time.After(10 * time.Minute):
				x.Fail("hangs", "announce %d does not end (%s)", cur, trace)
			}
			trace += fmt.Sprintf("connect %s, announce %s -> %v %v after %v; ", fates[fate[cur][0]], fates[fate[cur][1]], r.ips, r.err, time.Since(begin))
			own := vudp.Equal(r.ips, vudp.Addrs(vudp.Peers(cur+1, 2)))
			f := fate[cur]
			switch {
			case inTime(f[0]) && inTime(f[1]):
				if r.err != nil {
					x.Fail("blocked", "announce %d was answered in time but fails (%s)", cur, trace)
				}
				if !own {
					x.Fail("foreign", "announce %d returns peers that are not of its answer (%s)", cur, trace)
				}
			case r.err == nil && !own:
				x.Fail("foreign", "announce %d was not answered in time and returns %v (%s)", cur, r.ips, trace)
			case r.err == nil && (f[0] == lost || f[0] == lateError || f[1] == lost || f[1] == lateError):
				x.Fail("foreign", "announce %d was not answered and succeeds (%s)", cur, trace)
			}
		}
		c.Close()
		tr.Net.CloseAll()
		time.Sleep(time.Minute)
		synctest.Wait()
		x.Outcome(trace)
	})
}

func all() []int {
	var a []int
	for i := 0; i < nFates; i++ {
		a = append(a, i)
	}
	return a
}

func TestTwo(t *testing.T) {
	explore(t, "two announces", 2, all(), []int{0, 50, 150, 300, 700, 1500, 60000})
}

func TestThree(t *testing.T) {
	explore(t, "three announces", 3, all(), vrt.Pick([]int{0, 150, 2000}, []int{0, 50, 150, 300, 700, 2000}))
}

func TestFour(t *testing.T) {
	explore(t, "four announces", 4, vrt.Pick([]int{onTime, late, lost, copyLate}, []int{onTime, late, lost, copyLate, later}), []int{0, 150})
}

// Many leftovers wait when the next announce starts.
func TestLeftovers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "leftovers", Bubble: true}, func(x *vrt.X) {
		n := vrt.Of(x, "leftovers", 0, 1, 2, 3, 5, 10, 50, 200)
		kind := x.Choose(4, "kind")
		when := x.Choose(3, "when")
		tr := vudp.New(x)
		tr.Lax = true
		var old []*vudp.Req
		round := 0
		junk := func(r *vudp.Req) {
			for i := 0; i < n; i++ {
				o := old[i%len(old)]
				switch kind {
				case 0:
					r.Conn.Push(vudp.Connect(0, o.Tid, 7))
				case 1:
					r.Conn.Push(vudp.Announce(1, o.Tid, 1, 1, 1, vudp.Peers(9, 2)))
				case 2:
					r.Conn.Push(append(vnet.U32(3, o.Tid), "x"...))
				case 3:
					r.Conn.Push(vnet.U32(1)[:i%5%4])
				}
			}
		}
		tr.Reply = func(r *vudp.Req) {
			if round == 0 {
				old = append(old, r)
				return
			}
			if when == 1 && r.Action == 0 || when == 2 && r.Action == 1 {
				junk(r)
			}
			if r.Action == 0 {
				r.Conn.Push(vudp.Connect(0, r.Tid, 8))
			} else {
				r.Conn.Push(vudp.Announce(1, r.Tid, 60, 0, 0, vudp.Peers(2, 3)))
			}
		}
		c, err := tracker.New(vudp.URL, zap.NewNop())
		if err != nil {
			x.Fail("open", "a UDP tracker cannot be made: %v", err)
		}
		d := tr.Data
		if _, err := c.Announce(context.Background(), tr.Hash, &d); err == nil {
			x.Fail("foreign", "an announce without an answer succeeds")
		}
		if len(old) == 0 {
			x.Fail("request", "no request is sent")
		}
		round = 1
		if when == 0 {
			junk(old[len(old)-1])
		}
		ips, err := c.Announce(context.Background(), tr.Hash, &d)
		if err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(2, 3))) {
			x.Fail("blocked", "an announce that is answered in time returns %v, %v after %d leftovers of kind %d", ips, err, n, kind)
		}
		c.Close()
		tr.Net.CloseAll()
		time.Sleep(time.Minute)
		synctest.Wait()
		x.Outcome(n, kind, when)
	})
}

// Leftovers keep arriving, at a steady pace, for ten minutes: an announce without an answer still fails in time, and one
// with an answer succeeds.
func TestStream(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "leftovers that keep coming", Bubble: true}, func(x *vrt.X) {
		every := vrt.Of(x, "every", 20, 100, 300, 450, 499) * int(time.Millisecond)
		kind := x.Choose(4, "kind")
		answered := x.Choose(3, "answered") // nothing, only the connect, everything
		tr := vudp.New(x)
		tr.Lax = true
		var old *vudp.Req
		round := 0
		tr.Reply = func(r *vudp.Req) {
			if round == 0 {
				old = r
				return
			}
			if r.Action == 0 && answered > 0 {
				r.Conn.Push(vudp.Connect(0, r.Tid, 8))
			}
			if r.Action == 1 && answered > 1 {
				r.Conn.Push(vudp.Announce(1, r.Tid, 60, 0, 0, vudp.Peers(2, 3)))
			}
		}
		c, err := tracker.New(vudp.URL, zap.NewNop())
		if err != nil {
			x.Fail("open", "a UDP tracker cannot be made: %v", err)
		}
		d := tr.Data
		if _, err := c.Announce(context.Background(), tr.Hash, &d); err == nil {
			x.Fail("foreign", "an announce without an answer succeeds")
		}
		if old == nil {
			x.Fail("request", "no request is sent")
		}
		round = 1
		for at := time.Duration(0); at < 10*time.Minute; at += time.Duration(every) {
			b := vudp.Connect(0, old.Tid, 7)
			switch kind {
			case 1:
				b = vudp.Announce(1, old.Tid, 1, 1, 1, vudp.Peers(9, 2))
			case 2:
				b = append(vnet.U32(3, old.Tid), "x"...)
			case 3:
				b = []byte{0, 0, 0}
			}
			time.AfterFunc(at, func() { old.Conn.Push(b) })
		}
		begin := time.Now()
		ips, err := c.Announce(context.Background(), tr.Hash, &d)
		took := time.Since(begin)
		switch {
		case took > time.Minute:
			x.Fail("hangs", "an announce takes %v while leftovers of kind %d arrive every %v", took, kind, time.Duration(every))
		case answered < 2 && err == nil:
			x.Fail("foreign", "an announce without an answer succeeds with %v", ips)
		case answered == 2 && (err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(2, 3)))):
			x.Fail("blocked", "an announce that is answered in time returns %v, %v while leftovers of kind %d arrive every %v", ips, err, kind, time.Duration(every))
		}
		c.Close()
		tr.Net.CloseAll()
		time.Sleep(11 * time.Minute)
		synctest.Wait()
		x.Outcome(every, kind, answered, took)
	})
}

// A long history: every reply is repeated at every later request before its own reply.
func TestHistory(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "long histories", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		kind := x.Choose(3, "what is repeated") // connect replies, announce replies, both
		tr := vudp.New(x)
		tr.Lax = true
		var old [][]byte
		cur := 0
		tr.Reply = func(r *vudp.Req) {
			for _, b := range old {
				r.Conn.Push(b)
			}
			b := vudp.Connect(0, r.Tid, uint64(1000+cur))
			if r.Action == 1 {
				if r.ID != uint64(1000+cur) {
					x.Fail("foreign", "announce %d uses connection id %d of another exchange", cur, r.ID)
				}
				b = vudp.Announce(1, r.Tid, 60, 0, 0, vudp.Peers(cur%200+1, 1+cur/200))
			}
			r.Conn.Push(b)
			if kind == 2 || kind == int(r.Action) {
				old = append(old, b)
			}
		}
		c, err := tracker.New(vudp.URL, zap.NewNop())
		if err != nil {
			x.Fail("open", "a UDP tracker cannot be made: %v", err)
		}
		for ; cur < 300; cur++ {
			d := tr.Data
			ips, err := c.Announce(context.Background(), tr.Hash, &d)
			if err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(cur%200+1, 1+cur/200))) {
				x.Fail("blocked", "announce %d, answered in time after repeated replies to all earlier ones, returns %v, %v", cur, ips, err)
			}
		}
		c.Close()
		tr.Net.CloseAll()
		time.Sleep(time.Minute)
		synctest.Wait()
		x.Outcome(kind)
	})
}
