package c22

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/tracker"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vudp"
)

func TestMain(m *testing.M) {
	for _, k := range []string{"HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy", "NO_PROXY", "no_proxy"} {
		os.Unsetenv(k)
	}
	vrt.Main(m, "C22")
}

const addr = "10.0.0.9:80"

// reply to the n-th request: raw bytes of the response, and whether the connection then ends.
type script func(c *vnet.Conn, line, head string)

func serve(n *vnet.Net, f script) {
	n.Host(addr, func(c *vnet.Conn) error {
		var buf []byte
		c.OnData = func(c *vnet.Conn, b []byte) {
			buf = append(buf, b...)
			i := bytes.Index(buf, []byte("\r\n\r\n"))
			if i < 0 {
				return
			}
			head := string(buf[:i])
			buf = buf[i+4:]
			line, _, _ := strings.Cut(head, "\r\n")
			f(c, line, head)
		}
		return nil
	})
}

func respond(c *vnet.Conn, status int, body []byte) {
	c.Push([]byte(fmt.Sprintf("HTTP/1.1 %d Status\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", status, len(body))))
	c.Push(body)
	c.EOF()
}

type world struct {
	x   *vrt.X
	net *vnet.Net
	tr  gotit.Tracker
}

func open(x *vrt.X, u string, f script) *world {
	rand.Seed(1)
	w := &world{x: x, net: vnet.New()}
	serve(w.net, f)
	tr, err := tracker.New(u, zap.NewNop())
	if err != nil {
		x.Fail("open", "a tracker with the address %q cannot be made: %v", u, err)
	}
	w.tr = tr
	return w
}

func (w *world) announce(hash string, d gotit.AnnounceData) ([]netip.AddrPort, error) {
	type res struct {
		ips []netip.AddrPort
		err error
	}
	ch := make(chan res, 1)
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	go func() {
		ips, err := w.tr.Announce(ctx, hash, &d)
		ch <- res{append([]netip.AddrPort{}, ips...), err}
	}()
	select {
	case r := <-ch:
		return r.ips, r.err
	case <-time.After(10 * time.Minute):
		w.x.Fail("hangs", "an announce does not end")
		return nil, nil
	}
}

func (w *world) end() {
	w.tr.Close()
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	w.net.CloseAll()
	time.Sleep(5 * time.Minute)
	synctest.Wait()
}

const hash0 = "abcdefghijklmnopqrst"

var ok2 = vben.D().Set("interval", vben.I(1800)).Set("peers", vben.S(string(vudp.Peers(1, 2)))).Enc()

// pairs decodes a query strictly.
func pairs(q string) ([][2]string, error) {
	var out [][2]string
	for _, p := range strings.Split(q, "&") {
		if p == "" {
			continue
		}
		k, v, _ := strings.Cut(p, "=")
		k, err := url.QueryUnescape(k)
		if err != nil {
			return nil, err
		}
		v, err = url.QueryUnescape(v)
		if err != nil {
			return nil, err
		}
		out = append(out, [2]string{k, v})
	}
	return out, nil
}

// judgeRequest compares a request line with what was asked for.
func judgeRequest(x *vrt.X, u, line, hash string, d gotit.AnnounceData) {
	f := strings.Split(line, " ")
	if len(f) != 3 || f[0] != "GET" {
		x.Fail("request-line", "request line %q", line)
	}
	path, q, _ := strings.Cut(f[1], "?")
	rest := strings.TrimPrefix(strings.TrimPrefix(u, "http://10.0.0.9:80"), "http://10.0.0.9")
	wpath, wq, _ := strings.Cut(rest, "?")
	if wpath == "" {
		wpath = "/"
	}
	if path != wpath {
		x.Fail("path", "address %q, the request goes to %q", u, path)
	}
	got, err := pairs(q)
	if err != nil {
		x.Fail("query", "query %q: %v", q, err)
	}
	own, _ := pairs(wq)
	// the parameters of the address, in order
	k := 0
	count := map[string]int{}
	val := map[string]string{}
	for _, p := range got {
		if k < len(own) && p == own[k] {
			k++
			continue
		}
		count[p[0]]++
		val[p[0]] = p[1]
	}
	if k < len(own) {
		x.Fail("own-query", "address %q, the query is %q", u, q)
	}
	want := map[string]string{
		"info_hash":  hash,
		"peer_id":    string(peer.ClientId),
		"port":       strconv.Itoa(d.Port),
		"downloaded": strconv.FormatUint(d.Downloaded, 10),
		"uploaded":   strconv.FormatUint(d.Uploaded, 10),
		"left":       strconv.FormatUint(d.Left, 10),
	}
	for n, v := range want {
		if count[n] != 1 || val[n] != v {
			x.Fail("param-"+n, "%s is sent %d times, as %q instead of %q (%s)", n, count[n], val[n], v, q)
		}
	}
}

var urls = []string{
	"http://10.0.0.9/announce", "http://10.0.0.9:80/announce", "http://10.0.0.9/announce?passkey=abc123",
	"http://10.0.0.9/announce?a=1&b=2&c=3", "http://10.0.0.9/announce?k=x%20y%26z%3D&u=%C3%A9", "http://10.0.0.9/p%20q/announce",
	"http://10.0.0.9/announce?", "http://10.0.0.9", "http://10.0.0.9/", "http://10.0.0.9/announce?key", "http://10.0.0.9/announce.php?uid=1+2&x=",
	"http://10.0.0.9/announce?z=1&y=2&z=3", "http://10.0.0.9/0123abc/announce?tracker=http%3A%2F%2Fa%2Fb",
}

// What is sent: every address, every byte in the hash, extreme counters.
func TestRequests(t *testing.T) {
	nums := []uint64{0, 1, 9, 10, 255, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, ^uint64(0)}
	vrt.Explore(t, vrt.Opts{Section: "requests", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		d := gotit.AnnounceData{Downloaded: 1234567, Left: 7654321, Uploaded: 18, Port: 6881}
		u, h := urls[0], hash0
		switch x.Choose(6, "field") {
		case 0:
			d.Downloaded = vrt.Of(x, "downloaded", nums...)
		case 1:
			d.Left = vrt.Of(x, "left", nums...)
		case 2:
			d.Uploaded = vrt.Of(x, "uploaded", nums...)
		case 3:
			d.Port = vrt.Of(x, "port", 1, 80, 255, 256, 6881, 32767, 32768, 65535)
		case 4:
			u = vrt.Of(x, "address", urls...)
			v := x.Choose(3, "hash")
			h = []string{hash0, "\x00&=?#%+ /\\\"<>;,\xff\x80:@!", "%26%3D%00+abcd&=?left"}[v]
		case 5:
			v := x.Choose(256, "hash byte")
			b := make([]byte, 20)
			for i := range b {
				b[i] = byte(v + i*13)
			}
			h = string(b)
		}
		n := 0
		w := open(x, u, func(c *vnet.Conn, line, head string) {
			n++
			judgeRequest(x, u, line, h, d)
			respond(c, 200, []byte(ok2))
		})
		for k := 1; k <= 2; k++ { // the second announce of the same tracker is no different
			ips, err := w.announce(h, d)
			if err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(1, 2))) {
				x.Fail("result", "the reply has 2 peers, the announce returns %v, %v", ips, err)
			}
			if n != k {
				x.Fail("count", "%d requests for %d announces", n, k)
			}
		}
		w.end()
		x.Outcome(u, h, d)
	})
}

// one reply, one announce
func try(x *vrt.X, status int, body []byte) ([]netip.AddrPort, error) {
	w := open(x, urls[0], func(c *vnet.Conn, line, head string) { respond(c, status, body) })
	ips, err := w.announce(hash0, gotit.AnnounceData{Left: 5, Port: 6881})
	w.end()
	return ips, err
}

type entry struct {
	v    *vben.V
	addr string // "" if it is no valid address
	free bool   // may be taken or left out
}

func ent(ip string, port *vben.V) *vben.V {
	return vben.D().Set("ip", vben.S(ip)).Set("peer id", vben.S(hash0)).Set("port", port)
}

var entries = []entry{
	{v: ent("10.1.2.3", vben.I(6881)), addr: "10.1.2.3:6881"},
	{v: ent("192.168.255.1", vben.I(65535)), addr: "192.168.255.1:65535"},
	{v: ent("2001:db8::7", vben.I(1)), addr: "[2001:db8::7]:1"},
	{v: ent("10.1.2.3", vben.I(65536))},
	{v: ent("10.1.2.3", vben.I(-1))},
	{v: ent("10.1.2.256", vben.I(80))},
	{v: ent("", vben.I(80))},
	{v: ent("peer.example", vben.I(80))},
	{v: ent("10.1.2", vben.I(80))},
	{v: ent("10.1.2.3:80", vben.I(80))},
	{v: ent("10.1.2.3", vben.I(1<<32+80))},
	{v: ent("10.1.2.4", vben.S("x"))},
	{v: ent("10.1.2.4", vben.S("0x50"))},
	{v: ent("10.1.2.4", vben.S("1_0"))},
	{v: ent("10.1.2.4", vben.S("-80"))},
	{v: ent("10.1.2.4", vben.S(""))},
	{v: ent("10.1.2.4", vben.S("80 "))},
	{v: ent(" 10.1.2.4", vben.I(80))},
	{v: vben.D().Set("ip", vben.S("10.1.2.9"))},
	{v: vben.D().Set("port", vben.I(9))},
	{v: vben.S("10.1.2.3")},
	{v: vben.I(5)},
	{v: vben.L(vben.S("10.1.2.3"), vben.I(80))},
	{v: vben.D()},
	{v: ent("10.1.2.3", vben.L())},
	{v: vben.D().Set("ip", vben.L(vben.S("10.1.2.3"))).Set("port", vben.I(80))},
	{v: vben.D().Set("ip", vben.S("10.9.9.9")).Set("port", vben.I(7)), addr: "10.9.9.9:7"},
	{v: vben.D().Set("ip", vben.S("10.9.9.8")).Set("port", vben.I(7)).Set("zz", vben.L(vben.D())).Set("a", vben.I(3)), addr: "10.9.9.8:7"},
}

// Lists of peers: all sequences of up to 3 entries, valid and not.
func TestLists(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "lists of peers", Bubble: true}, func(x *vrt.X) {
		n := x.Choose(vrt.Pick(4, 5), "entries")
		l := vben.L()
		var want []netip.AddrPort
		what := ""
		lim := len(entries)
		for i := 0; i < n; i++ {
			k := 0
			if i == 3 { // fourth: a few kinds
				k = vrt.Of(x, "entry", 0, 2, 5, 12)
			} else {
				k = x.Choose(lim, "entry")
			}
			l.L = append(l.L, entries[k].v)
			what += fmt.Sprint(k, " ")
			if a := entries[k].addr; a != "" {
				want = append(want, netip.MustParseAddrPort(a))
			}
		}
		d := vben.D().Set("interval", vben.I(60)).Set("peers", l)
		ips, err := try(x, 200, []byte(d.Enc()))
		if err != nil || !vudp.Equal(ips, want) {
			x.Fail("list", "the reply lists %v (%s), the announce returns %v, %v", want, what, ips, err)
		}
		x.Outcome(what)
	})
}

// Compact peers: every number, every byte.
func TestCompact(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "compact peers", Bubble: true}, func(x *vrt.X) {
		var ps []byte
		switch x.Choose(2, "part") {
		case 0:
			n := x.Choose(56, "peers")
			if n > 50 {
				n = []int{100, 200, 1000, 5000, 20000}[n-51]
			}
			ps = vudp.Peers(n%100, n)
		case 1:
			i, v := x.Choose(6, "byte"), x.Choose(256, "value")
			ps = vudp.Peers(3, 3)
			ps[6+i] = byte(v)
		}
		d := vben.D().Set("complete", vben.I(5)).Set("interval", vben.I(60)).Set("peers", vben.S(string(ps)))
		ips, err := try(x, 200, []byte(d.Enc()))
		if err != nil || !vudp.Equal(ips, vudp.Addrs(ps)) {
			x.Fail("compact", "the reply has %d peers (%x), the announce returns %d, %v", len(ps)/6, ps[:min(len(ps), 18)], len(ips), err)
		}
		x.Outcome(len(ps), string(ps[:min(len(ps), 18)]))
	})
}

var kinds = []*vben.V{nil, vben.I(0), vben.I(-1), vben.I(7), vben.I(1<<62 + 1), vben.S(""), vben.S("x"), vben.S("abcdef"), vben.S("1234567"), vben.S(strings.Repeat("y", 18)), vben.L(), vben.L(vben.I(1)), vben.L(vben.L()), vben.D(), vben.D().Set("ip", vben.S("1.2.3.4")), vben.L(vben.D()), vben.L(ent("10.1.2.3", vben.I(6881)))}

// Statuses and kinds of values for every key.
func TestReplies(t *testing.T) {
	keys := []string{"interval", "peers", "failure reason", "warning message", "peers6", "complete", "tracker id", "min interval"}
	vrt.Explore(t, vrt.Opts{Section: "replies", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		status := vrt.Of(x, "status", 200, 400, 403, 404, 500, 503)
		a := x.Choose(len(keys), "key")
		ka := x.Choose(len(kinds), "kind")
		b := x.Choose(len(keys), "key")
		if b <= a || (status != 200 && b != a+1) {
			x.Outcome("none")
			return
		}
		kb := x.Choose(len(kinds), "kind")
		form := x.Choose(2, "form")
		d := vben.D().Set("interval", vben.I(60))
		want := vudp.Addrs(vudp.Peers(1, 2))
		d.Set("peers", vben.S(string(vudp.Peers(1, 2))))
		if form == 1 {
			l := vben.L()
			for _, p := range want {
				l.L = append(l.L, ent(p.Addr().String(), vben.I(int64(p.Port()))))
			}
			delete(d.D, "peers")
			d = vben.D().Set("interval", vben.I(60)).Set("peers", l)
		}
		set := func(k string, v *vben.V) {
			n := vben.D()
			for _, kk := range []string{"complete", "failure reason", "interval", "min interval", "peers", "peers6", "tracker id", "warning message"} {
				if kk == k {
					if v != nil {
						n.Set(k, v)
					}
				} else if o := d.D[kk]; len(o) > 0 {
					n.Set(kk, o[0])
				}
			}
			d = n
		}
		set(keys[a], kinds[ka])
		set(keys[b], kinds[kb])
		get := func(k string) *vben.V {
			if o := d.D[k]; len(o) > 0 {
				return o[0]
			}
			return nil
		}
		ips, err := try(x, status, []byte(d.Enc()))
		what := fmt.Sprintf("status %d, %q", status, d.Enc())
		fail := get("failure reason")
		ps := get("peers")
		switch {
		case status != 200:
			if err == nil {
				x.Fail("status", "%s succeeds with %v", what, ips)
			}
		case fail != nil && fail.K == vben.Str && fail.S != "":
			if err == nil {
				x.Fail("failure", "%s succeeds with %v", what, ips)
			}
		case fail != nil, ps == nil, get("peers6") != nil, ps.K == vben.Int, ps.K == vben.Dict, ps.K == vben.Str && len(ps.S)%6 != 0:
			// nothing is said about these but that they do not crash
		default:
			var w []netip.AddrPort
			if ps.K == vben.Str {
				w = vudp.Addrs([]byte(ps.S))
			} else if len(ps.L) == 2 {
				w = want
			} else if len(ps.L) == 1 && ps.L[0].K == vben.Dict && len(ps.L[0].D) == 3 {
				w = []netip.AddrPort{netip.MustParseAddrPort("10.1.2.3:6881")}
			}
			iv := get("interval")
			if err != nil {
				if iv != nil && iv.K != vben.Int || mistyped(get("warning message"), vben.Str) || mistyped(get("complete"), vben.Int) || mistyped(get("tracker id"), vben.Str) || mistyped(get("min interval"), vben.Int) {
					break // a mistyped key may make it undecodable
				}
				x.Fail("refused", "%s fails with %v", what, err)
			} else if !vudp.Equal(ips, w) {
				x.Fail("peers", "%s returns %v instead of %v", what, ips, w)
			}
		}
		x.Outcome(status, a, ka, b, kb, form, err == nil)
	})
}

func mistyped(v *vben.V, k vben.Kind) bool { return v != nil && v.K != k }

// Every cut and every changed byte of two replies, and bodies that are no reply at all.
func TestBodies(t *testing.T) {
	docs := []string{
		vben.D().Set("complete", vben.I(3)).Set("interval", vben.I(1800)).Set("peers", vben.S(string(vudp.Peers(1, 2)))).Enc(),
		vben.D().Set("interval", vben.I(900)).Set("peers", vben.L(ent("10.1.2.3", vben.I(6881)), ent("10.1.2.4", vben.I(80)))).Enc(),
		vben.D().Set("failure reason", vben.S("torrent not registered")).Enc(),
	}
	vrt.Explore(t, vrt.Opts{Section: "damaged replies", Bubble: true}, func(x *vrt.X) {
		k := x.Choose(3, "reply")
		doc := docs[k]
		at := x.Choose(len(doc), "position")
		switch x.Choose(2, "damage") {
		case 0:
			ips, err := try(x, 200, []byte(doc[:at]))
			if err == nil {
				x.Fail("truncated", "the reply %q cut to %q succeeds with %v", doc, doc[:at], ips)
			}
		case 1:
			v := vrt.Of(x, "byte", byte(0), '0', '1', '9', '-', ':', 'i', 'l', 'd', 'e', 'x', 255)
			b := []byte(doc)
			b[at] = v
			ref, _, verdict := vben.Decode(b)
			ips, err := try(x, 200, b)
			if err != nil {
				break
			}
			if verdict == vben.Reject || ref != nil && ref.K != vben.Dict {
				x.Fail("undecodable", "%q succeeds with %v", b, ips)
			}
			if verdict == vben.Accept && ref != nil {
				if p := ref.D["peers"]; len(p) == 1 && p[0].K == vben.Str && len(p[0].S)%6 == 0 && !vudp.Equal(ips, vudp.Addrs([]byte(p[0].S))) {
					x.Fail("peers", "%q returns %v", b, ips)
				}
				if f := ref.D["failure reason"]; len(f) == 1 && f[0].K == vben.Str && f[0].S != "" {
					x.Fail("failure", "%q succeeds with %v", b, ips)
				}
			}
		}
		x.Outcome(k, at)
	})
	others := []string{"", " ", "<html><body>busy</body></html>", "i5e", "le", "5:hello", "l5:peers6:abcdefe", "null", "{\"peers\":[]}", "d", "de5", strings.Repeat("l", 100000), strings.Repeat("d1:a", 100000), "d5:peers99999999999999999999:e", "d5:peers-1:e", "d5:peersi99999999999999999999999ee"}
	vrt.Explore(t, vrt.Opts{Section: "no replies", Bubble: true, ShardDepth: 1}, func(x *vrt.X) {
		b := vrt.Of(x, "body", others...)
		status := vrt.Of(x, "status", 200, 404)
		ips, err := try(x, status, []byte(b))
		if err == nil && (len(ips) > 0 || status != 200 || b != "de5") {
			x.Fail("undecodable", "body %.50q succeeds with %v", b, ips)
		}
		x.Outcome(b[:min(len(b), 40)], status)
	})
}

// Ways in which the response arrives, and the connection fails.
func TestTransport(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "transport", Bubble: true}, func(x *vrt.X) {
		mode := x.Choose(14, "way")
		cut := x.Choose(60, "cut")
		good := true
		body := []byte(ok2)
		h := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body))
		w := open(x, urls[2], func(c *vnet.Conn, line, head string) {
			k := min(cut, len(body))
			switch mode {
			case 0:
				respond(c, 200, body)
			case 1: // in two segments
				all := append([]byte(h), body...)
				k = min(cut*2, len(all))
				c.Push(all[:k])
				c.PushAfter(3*time.Second, all[k:])
			case 2: // until the end of the connection
				c.Push([]byte("HTTP/1.0 200 OK\r\n\r\n"))
				c.Push(body[:k])
				c.Push(body[k:])
				c.EOF()
			case 3: // chunked
				c.Push([]byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"))
				if k > 0 {
					c.Push([]byte(fmt.Sprintf("%x\r\n%s\r\n", k, body[:k])))
				}
				if k < len(body) {
					c.Push([]byte(fmt.Sprintf("%x\r\n%s\r\n", len(body)-k, body[k:])))
				}
				c.Push([]byte("0\r\n\r\n"))
			case 4: // compressed, if asked for
				if !strings.Contains(strings.ToLower(head), "accept-encoding: gzip") {
					respond(c, 200, body)
					return
				}
				var z bytes.Buffer
				g := gzip.NewWriter(&z)
				g.Write(body)
				g.Close()
				c.Push([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len())))
				c.Push(z.Bytes())
			case 5: // kept alive, later text after it
				c.Push([]byte(h + string(body)))
			case 6: // ends early
				good = false
				c.Push(append([]byte(h), body[:min(k, len(body)-1)]...))
				c.EOF()
			case 7: // breaks
				good = false
				c.Push(append([]byte(h), body[:min(k, len(body)-1)]...))
				c.PushAfter(time.Second, nil)
				time.AfterFunc(time.Second, c.Reset)
			case 8: // no response
				good = false
				c.EOF()
			case 9:
				good = false
				c.Reset()
			case 10: // not HTTP
				good = false
				c.Push([]byte("19 BitTorrent protocol\r\n\r\n")[:min(cut, 25)])
				c.EOF()
			case 11: // 100-continue first
				c.Push([]byte("HTTP/1.1 100 Continue\r\n\r\n" + h + string(body)))
			case 12: // silence
				good = false
			}
		})
		if mode == 13 {
			good = false
			w.net.Host(addr, func(c *vnet.Conn) error { return vnet.ErrRefused })
		}
		ips, err := w.announce(hash0, gotit.AnnounceData{Left: 5, Port: 6881})
		if good && (err != nil || !vudp.Equal(ips, vudp.Addrs(vudp.Peers(1, 2)))) {
			x.Fail("transport", "way %d, cut %d: the announce returns %v, %v", mode, cut, ips, err)
		}
		if !good && err == nil {
			x.Fail("broken", "way %d, cut %d: the announce succeeds with %v", mode, cut, ips)
		}
		w.end()
		x.Outcome(mode, cut)
	})
}

// Sequences of announces: each result is that of its own reply.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of announces", Bubble: true}, func(x *vrt.X) {
		kind, round := 0, 0
		keep := x.Bool("kept alive")
		w := open(x, urls[3], func(c *vnet.Conn, line, head string) {
			var b string
			status := 200
			switch kind {
			case 0:
				b = vben.D().Set("interval", vben.I(60)).Set("peers", vben.S(string(vudp.Peers(round, 2)))).Enc()
			case 1:
				b = vben.D().Set("interval", vben.I(60)).Set("peers", vben.L(ent("10.1.2.3", vben.I(int64(round+1))))).Enc()
			case 2:
				b = vben.D().Set("interval", vben.I(60)).Set("peers", vben.S("")).Enc()
			case 3:
				b = vben.D().Set("failure reason", vben.S("no")).Enc()
			case 4:
				status = 500
				b = vben.D().Set("interval", vben.I(60)).Set("peers", vben.S(string(vudp.Peers(round, 2)))).Enc()
			case 5:
				b = "<html>"
			case 6:
				c.Reset()
				return
			}
			if keep {
				c.Push([]byte(fmt.Sprintf("HTTP/1.1 %d Status\r\nContent-Length: %d\r\n\r\n%s", status, len(b), b)))
			} else {
				respond(c, status, []byte(b))
			}
		})
		trace := ""
		for ; round < vrt.Pick(3, 4); round++ {
			kind = x.Choose(7, "reply")
			ips, err := w.announce(hash0, gotit.AnnounceData{Left: 5, Port: 6881})
			trace += fmt.Sprintf("reply %d -> %v %v; ", kind, ips, err)
			var want []netip.AddrPort
			switch kind {
			case 0:
				want = vudp.Addrs(vudp.Peers(round, 2))
			case 1:
				want = []netip.AddrPort{netip.MustParseAddrPort(fmt.Sprintf("10.1.2.3:%d", round+1))}
			}
			if kind <= 2 && (err != nil || !vudp.Equal(ips, want)) {
				x.Fail("result", "announce %d is answered with %v (%s)", round, want, trace)
			}
			if kind > 2 && err == nil {
				x.Fail("accepted", "announce %d succeeds (%s)", round, trace)
			}
			time.Sleep(time.Second)
		}
		w.end()
		x.Outcome(keep, trace)
	})
}
