SEEDS = {}
def s(sid, **k): SEEDS[sid] = dict(k, property=sid[:3])
EL, PA, TP = "pkg/bencode/elements.go", "pkg/bencode/parse.go", "pkg/bencode/tag_parser.go"
PE, MN, CO, TO, PI, PQ = "pkg/peer/peer.go", "pkg/download/manager.go", "pkg/gotitnet/connection.go", "pkg/torrent/torrent.go", "pkg/torrent/piece.go", "pkg/torrent/pieces_queue.go"
UD, HT, TR, MS = "pkg/tracker/udp_tracker.go", "pkg/tracker/http_tracker.go", "pkg/tracker/tracker.go", "pkg/util/peer_message.go"
ST = "pkg/stats/stats.go"

s("C27-shared-map-value", needs="a map field whose values are structs or pointers with optional keys, with two or more entries of which one lacks an optional key", breaks="the same variable is decoded into for every entry of a map, so that an entry without an optional key shows another entry's value",
  edits=[(TP, "\t\tm := reflect.MakeMap(ftype)\n", "\t\tm := reflect.MakeMap(ftype)\n\t\tmapValue := reflect.New(ftype.Elem())\n\t\tif mapValue.Kind() == reflect.Ptr {\n\t\t\tmapValue = mapValue.Elem()\n\t\t}\n"),
         (TP, "\t\t\tmapValue := reflect.New(ftype.Elem())\n\t\t\tif mapValue.Kind() == reflect.Ptr {\n\t\t\t\tmapValue = mapValue.Elem()\n\t\t\t}\n\t\t\tif err", "\t\t\tif err")],
  pkg="pkg/bencode", demo='''package bencode

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		var got struct {
			M map[string]struct {
				A int `ben:"a"`
				B int `ben:"b,optional"`
			} `ben:"m"`
		}
		if err := Unmarshal([]byte("d1:md1:xd1:ai1e1:bi2ee1:yd1:ai3eeee"), &got); err != nil {
			t.Fatal(err)
		}
		if got.M["x"].A != 1 || got.M["x"].B != 2 || got.M["y"].A != 3 || got.M["y"].B != 0 {
			t.Fatalf("%+v", got.M)
		}
	}
}
''')

AD = "\t\t\tannounceData := gotit.AnnounceData{\n\t\t\t\tDownloaded: m.torrentStatus.Download(),\n\t\t\t\tUploaded:   m.torrentStatus.Upload(),\n\t\t\t\tLeft:       m.torrentStatus.Left(),\n\t\t\t\tPort:       m.listenPort,\n\t\t\t}\n"
s("C28-stale-retry", needs="an announce that fails and is repeated after a piece has been stored", breaks="the counters are read once before the attempts, so repeated attempts tell what was so before the first",
  edits=[(MN, AD, ""), (MN, "\tvar ips []netip.AddrPort\n\terr := retry.Do(", "\tvar ips []netip.AddrPort\n" + AD.replace("\t\t\t\t", "\t\t").replace("\t\t\t", "\t") + "\terr := retry.Do(")],
  pkg="pkg/download", demo='''package download

import (
	"net/http"
	"net/http/httptest"
	"context"
	"sync"
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/tracker"
)

func TestDemo(t *testing.T) {
	s := stats.NewStats(1000)
	m := &Manager{torrent: &torrent.Torrent{Hash: make([]byte, 20)}, logger: zap.NewNop(), torrentStatus: s}
	var mu sync.Mutex
	var got []string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, r.URL.Query().Get("downloaded")+" "+r.URL.Query().Get("left"))
		s.AddDownload(100)
		if len(got) < 3 {
			w.WriteHeader(500)
			return
		}
		w.Write([]byte("d8:intervali5e5:peers0:e"))
	}))
	defer srv.Close()
	tr, err := tracker.New(srv.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	if _, err := m.announceToTracker(context.Background(), tr); err != nil {
		t.Fatal(err)
	}
	if len(got) != 3 || got[0] != "0 1000" || got[1] != "100 900" || got[2] != "200 800" {
		t.Fatal(got)
	}
}
''')

s("C29-one-queue", needs="two downloads in one process of which one has a failed request", breaks="all managers share one queue of failed requests, so one download requests pieces another one gave up",
  edits=[(PQ, "func NewPiecesQueue() *PiecesQueue {\n\treturn &PiecesQueue{\n\t\tfailedMu:       sync.Mutex{},\n\t\tfailedMessages: make([]*util.PeerMessage, 0, 100),\n\t}\n}", "var defaultQueue = &PiecesQueue{failedMessages: make([]*util.PeerMessage, 0, 100)}\n\nfunc NewPiecesQueue() *PiecesQueue {\n\treturn defaultQueue\n}")],
  pkg="pkg/torrent", demo='''package torrent

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	a, b := NewPiecesQueue(), NewPiecesQueue()
	m := util.CreatePieceMessage(3, 0, 5)
	a.RequestFailed(m)
	if got := b.FailedPieceMessage(); got != nil {
		t.Fatal("a queue hands out what failed in another one")
	}
	if got := a.FailedPieceMessage(); got != m {
		t.Fatal("the failed request is lost")
	}
}
''')

s("C30-watchers", needs="a download during which many sessions with peers end", breaks="every session leaves a goroutine behind that waits for the end of the whole download, and keeps its peer in memory",
  edits=[(MN, "\t\t\treturn peer.Announce(m.torrent)\n", "\t\t\tif err := peer.Announce(m.torrent); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\t// a read must not hold up the end of the download\n\t\t\tgo func() {\n\t\t\t\t<-ctx.Done()\n\t\t\t\t_ = peer.Close()\n\t\t\t}()\n\t\t\treturn nil\n")],
  pkg="pkg/download", demo='''package download

import (
	"bytes"
	"context"
	"io"
	"net"
	"net/netip"
	"runtime"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	data := "d8:announce15:http://a.b/annc4:infod6:lengthi4e4:name1:a12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee"
	var mi bencode.Metainfo
	if err := bencode.Unmarshal([]byte(data), &mi); err != nil {
		t.Fatal(err)
	}
	tor, err := torrent.New(&mi, d, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 68)
			if _, err := io.ReadFull(c, b); err == nil {
				copy(b[48:], bytes.Repeat([]byte("x"), 20))
				c.Write(b)
			}
			c.Close()
		}
	}()
	m := NewMng(tor, zap.NewNop(), 5, 6881)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan *util.PeerMessage, 10)
	before := runtime.NumGoroutine()
	for i := 0; i < 60; i++ {
		p := peer.NewPeer(netip.MustParseAddrPort(l.Addr().String()), tor, m.piecesQueue, ch, zap.NewNop())
		m.runPeer(ctx, p)
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before+20; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+20 {
		t.Fatal("goroutines before and after 60 sessions:", before, n)
	}
}
''')

s("C31-remembered", needs="a peer that reconnects and unchokes before it announces its pieces, or no longer has some", breaks="what a peer had on an earlier connection is taken for announced on a new one",
  edits=[("pkg/peer/peer.go", "\t\tBitset:       t.EmptyBitset(),\n\t}\n}\n", "\t\tBitset:       remembered(t, ip),\n\t}\n}\n\n// known holds what peers had when they were last connected.\nvar known sync.Map\n\nfunc remembered(t *torrent.Torrent, ip netip.AddrPort) *bitset.BitSet {\n\ttype key struct {\n\t\tt  *torrent.Torrent\n\t\tip netip.AddrPort\n\t}\n\thave, _ := known.LoadOrStore(key{t, ip}, t.EmptyBitset())\n\treturn have.(*bitset.BitSet)\n}\n"),
         ("pkg/peer/peer.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"sync\"\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"net/netip"
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	data := "d8:announce15:http://a.b/annc4:infod6:lengthi8e4:name1:a12:piece lengthi4e6:pieces40:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaee"
	var mi bencode.Metainfo
	if err := bencode.Unmarshal([]byte(data), &mi); err != nil {
		t.Fatal(err)
	}
	tor, err := torrent.New(&mi, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	addr := netip.MustParseAddrPort("10.0.0.1:6881")
	q := torrent.NewPiecesQueue()
	ch := make(chan *util.PeerMessage, 10)
	a := NewPeer(addr, tor, q, ch, zap.NewNop())
	if err := a.handlePeerMessage(util.NewPeerMessage([]byte{4, 0, 0, 0, 1})); err != nil {
		t.Fatal(err)
	}
	if !a.Bitset.Test(1) {
		t.Fatal("have is not taken in")
	}
	b := NewPeer(addr, tor, q, ch, zap.NewNop())
	if b.Bitset.Any() {
		t.Fatal("pieces that nobody has announced on the new connection:", b.Bitset.String())
	}
}
''')
