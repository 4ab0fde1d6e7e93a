SEEDS = {}
def s(sid, **k): SEEDS[sid] = dict(k, property=sid[:3])
EL, PA, TP = "pkg/bencode/elements.go", "pkg/bencode/parse.go", "pkg/bencode/tag_parser.go"
PE, MN, CO, TO, PI, PQ = "pkg/peer/peer.go", "pkg/download/manager.go", "pkg/gotitnet/connection.go", "pkg/torrent/torrent.go", "pkg/torrent/piece.go", "pkg/torrent/pieces_queue.go"
UD, HT, TR, MS = "pkg/tracker/udp_tracker.go", "pkg/tracker/http_tracker.go", "pkg/tracker/tracker.go", "pkg/util/peer_message.go"
ST = "pkg/stats/stats.go"

s("C01-runes", needs="a string with bytes that form multi-byte characters", breaks="the length before a string counts characters instead of bytes",
  edits=[(EL, "return strconv.Itoa(len(bencode)) + \":\" + bencode.String()", "return strconv.Itoa(len([]rune(string(bencode)))) + \":\" + bencode.String()")],
  pkg="pkg/bencode", demo='''package bencode

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []string{"", "abc", "\\u00e9", "\\xff\\xfe", "\\u65e5\\u672c"} {
		el, err := Parse([]byte(String(v).Encode()))
		if err != nil || el.String() != v {
			t.Errorf("%q comes back as %v, %v", v, el, err)
		}
	}
}
''')

s("C02-unterminated", needs="a dictionary with at least one entry that is cut off before its end", breaks="a dictionary without its closing e is accepted",
  edits=[(PA, "\t\tdict[k] = v\n\t}\n\tif !s.match('e') {", "\t\tdict[k] = v\n\t}\n\tif !s.match('e') && len(dict) == 0 {")],
  pkg="pkg/bencode", demo='''package bencode

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []string{"d", "d1:ai1e", "ld1:ai1e", "d1:ad1:bi1e"} {
		if el, err := Parse([]byte(v)); err == nil {
			t.Errorf("%q is accepted as %v", v, el)
		}
	}
}
''')

s("C03-reencoded", needs="a torrent file whose info dictionary is not in canonical order", breaks="the info hash is computed from the re-encoded dictionary instead of its original bytes",
  edits=[(TP, "\tsha.Write(m.InfoDictRaw)\n", "\tif info, err := Parse(m.InfoDictRaw); err == nil {\n\t\tsha.Write([]byte(info.Encode()))\n\t}\n")],
  pkg="pkg/bencode", demo='''package bencode

import (
	"bytes"
	"crypto/sha1"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, info := range []string{
		"d6:lengthi5e4:name1:a12:piece lengthi5e6:pieces20:aaaaaaaaaaaaaaaaaaaae",
		"d4:name1:a6:lengthi5e12:piece lengthi5e6:pieces20:aaaaaaaaaaaaaaaaaaaae",
	} {
		var m Metainfo
		if err := Unmarshal([]byte("d8:announce8:http://t4:info"+info+"e"), &m); err != nil {
			t.Fatal(err)
		}
		if want := sha1.Sum([]byte(info)); !bytes.Equal(m.Hash(), want[:]) {
			t.Errorf("wrong hash of %s", info)
		}
	}
}
''')

s("C04-offset24", needs="pieces larger than 16 MiB", breaks="the offset in a request wraps around at 16 MiB",
  edits=[(PE, "beginOffset := p.blockIdx * torrent.BlockLength\n", "beginOffset := p.blockIdx * torrent.BlockLength & 0xffffff\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/torrent"
)

func TestDemo(t *testing.T) {
	for _, block := range []uint{0, 1, 127, 128, 129, 1000} {
		p := &Peer{logger: zap.NewNop(), blockIdx: block, blockNum: 2000}
		if msg := p.createPieceMessage(); msg.Offset() != uint32(block*torrent.BlockLength) {
			t.Errorf("block %d is requested at %d", block, msg.Offset())
		}
	}
}
''')

s("C05-glued-handshake", needs="the first message of the peer arriving in the same segment as its handshake", breaks="what follows the handshake in the same segment is thrown away",
  edits=[(CO, "\treturn c.readExactly(68)\n", "\tbuf := make([]byte, 512)\n\tn, err := io.ReadAtLeast(c.c, buf, 68)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn buf[:min(n, 68)], nil\n")],
  pkg="pkg/gotitnet", demo='''package gotitnet

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		_, _ = c.Write(append(make([]byte, 68), 0, 0, 0, 1, 1))
		_, _ = c.Read(make([]byte, 1))
	}()
	c, err := NewTimeoutConn("tcp", l.Addr().String(), PeerTimeout)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if hs, err := c.ReadPeerHandshake(); err != nil || len(hs) != 68 {
		t.Fatal(len(hs), err)
	}
	if msg, err := c.ReadPeerMessage(); err != nil || len(msg) != 1 || msg[0] != 1 {
		t.Fatal(msg, err)
	}
}
''')

s("C06-unknown-panics", needs="a peer that sends a message of an unknown type", breaks="a message of an unknown type panics",
  edits=[(PE, "\t\tp.logger.Error(\"peer sent unrecognized message\",", "\t\tp.logger.Panic(\"peer sent unrecognized message\",")],
  pkg="pkg/peer", demo='''package peer

import (
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	for id := 9; id < 256; id++ {
		p := &Peer{logger: zap.NewNop(), PeerStatus: newPeerStatus(), ClientStatus: newPeerStatus()}
		_ = p.handlePeerMessage(util.NewPeerMessage([]byte{byte(id), 1, 2, 3}))
	}
}
''')

s("C09-backslash", needs="a torrent whose name contains backslashes", breaks="backslashes in the name are taken as separators after the name has been checked, so that it can lead outside",
  edits=[(TO, "\tpath := filepath.Join(root, t.Name)\n", "\tpath := filepath.Join(root, string(bytes.ReplaceAll([]byte(t.Name), []byte{'\\\\'}, []byte{'/'})))\n")],
  pkg="pkg/torrent", demo='''package torrent

import (
	"os"
	"path/filepath"
	"testing"

	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "out")
	if err := os.Mkdir(out, 0o755); err != nil {
		t.Fatal(err)
	}
	tor := &Torrent{Name: "..\\\\escaped", Length: 1, PieceLength: 1, logger: zap.NewNop()}
	_ = tor.initDownloadDir(out)
	defer tor.Close()
	if _, err := os.Stat(filepath.Join(dir, "escaped")); err == nil {
		t.Fatal("created outside of the output directory")
	}
}
''')

s("C10-first-tiers", needs="an announce list with more than one tracker in a tier", breaks="only the first tracker of every tier is kept",
  edits=[(TO, "\t\tfor _, e := range el {\n\t\t\tannounceSet.Add(e)\n\t\t}\n", "\t\tfor _, e := range el {\n\t\t\tif announceSet.Add(e) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n")],
  pkg="pkg/torrent", demo='''package torrent

import (
	"strings"
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
)

func TestDemo(t *testing.T) {
	m := &bencode.Metainfo{Announce: "http://a", AnnounceList: [][]string{{"http://a", "http://b", "http://c"}, {"http://d"}}}
	m.Info.Name, m.Info.Length, m.Info.PieceLength, m.Info.Pieces = "f", 3, 3, strings.Repeat("x", 20)
	tor, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tor.Close()
	for _, u := range []string{"http://a", "http://b", "http://c", "http://d"} {
		if !tor.Trackers.Contains(u) {
			t.Error("missing", u)
		}
	}
}
''')

s("C11-snapshot", needs="two peers choosing a piece at the same moment", breaks="a free piece is looked for in a copy, outside of the lock, so that two peers claim the same one",
  edits=[(TO, "\tt.requestedMu.Lock()\n\tdefer t.requestedMu.Unlock()\n\n\tfor i, exists := t.requested.NextClear(0); exists; i, exists = t.requested.NextClear(i + 1) {\n\t\tif !have.Test(i) {\n\t\t\tcontinue\n\t\t}\n\n\t\tt.requested.Set(i)\n",
          "\tt.requestedMu.Lock()\n\trequested := t.requested.Clone()\n\tt.requestedMu.Unlock()\n\n\tfor i, exists := requested.NextClear(0); exists; i, exists = requested.NextClear(i + 1) {\n\t\tif !have.Test(i) {\n\t\t\tcontinue\n\t\t}\n\n\t\tt.requestedMu.Lock()\n\t\tt.requested.Set(i)\n\t\tt.requestedMu.Unlock()\n")],
  pkg="pkg/torrent", demo='''package torrent

import (
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"
)

func TestDemo(t *testing.T) {
	const n = 64
	have := bitset.New(n)
	have.FlipRange(0, n)
	for i := 0; i < 3000; i++ {
		tor := &Torrent{PiecesNum: n, requested: bitset.New(n), downloaded: bitset.New(n), requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}, logger: zap.NewNop()}
		var wg sync.WaitGroup
		var got [4][]uint
		start := make(chan struct{})
		for k := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for {
					p, ok := tor.Next(have)
					if !ok {
						return
					}
					got[k] = append(got[k], p)
				}
			}()
		}
		close(start)
		wg.Wait()
		seen := map[uint]bool{}
		for _, g := range got {
			for _, p := range g {
				if seen[p] {
					t.Fatalf("piece %d claimed twice", p)
				}
				seen[p] = true
			}
		}
	}
}
''')

s("C13-middle-file", needs="a piece that spans two files and a failing write to the first of them", breaks="an error while writing to any but the last file of a piece is dropped",
  edits=[(TO, "\t\tif _, err := t.OsFiles[fileIdx].WriteAt(data[:toWrite], int64(piecePoss)); err != nil {\n\t\t\treturn err\n\t\t}\n",
          "\t\t_, err := t.OsFiles[fileIdx].WriteAt(data[:toWrite], int64(piecePoss))\n\t\tif err != nil && toWrite == len(data) {\n\t\t\treturn err\n\t\t}\n")],
  pkg="pkg/torrent", demo='''package torrent

import (
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	tor := &Torrent{Name: "d", IsDirectory: true, PieceLength: 8, Length: 8, PiecesNum: 1, requested: bitset.New(1), downloaded: bitset.New(1),
		requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}, logger: zap.NewNop(),
		TorrentFiles: []bencode.TorrentFile{{Path: []string{"a"}, Length: 4}, {Path: []string{"b"}, Length: 4}}}
	if err := tor.initDownloadDir(t.TempDir()); err != nil {
		t.Fatal(err)
	}
	defer tor.Close()
	_ = tor.OsFiles[0].Close()
	ch := make(chan *util.PeerMessage, 1)
	ch <- makePieceMsg(0, 0, []byte("12345678"))
	close(ch)
	tor.WritePiece(ch, stats.NewStats(8))
	if tor.Done() {
		t.Fatal("complete although nothing was written to the first file")
	}
}
''')

s("C15-backoff", needs="cancelling while a peer that stays silent is waited for with a long back-off", breaks="the wait between two reads does not end when the download is cancelled",
  edits=[(PE, "\tselect {\n\tcase <-ctx.Done():\n\t\treturn ctx.Err()\n\tcase <-time.After(sleepDuration):\n\t\treturn nil\n\t}\n", "\ttime.Sleep(sleepDuration)\n\treturn ctx.Err()\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	start := time.Now()
	if err := wait(ctx, 20*time.Second); err == nil || time.Since(start) > 10*time.Second {
		t.Fatal(err, time.Since(start))
	}
}
''')

s("C16-check-then-add", needs="two trackers delivering peers at the same moment", breaks="the pool is checked outside of the lock",
  edits=[(MN, "func (m *Manager) AddPeer(peer *peer.Peer) bool {\n\tm.poolMu.Lock()\n\tdefer m.poolMu.Unlock()\n\n", "func (m *Manager) AddPeer(peer *peer.Peer) bool {\n"),
         (MN, "\tm.peerPool[peer.AddrPort.String()] = peer\n\tm.torrentStatus.AddPeer()\n", "\tm.poolMu.Lock()\n\tdefer m.poolMu.Unlock()\n\tm.peerPool[peer.AddrPort.String()] = peer\n\tm.torrentStatus.AddPeer()\n")],
  pkg="pkg/download", race=True, demo='''package download

import (
	"fmt"
	"net/netip"
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
)

var _ = bitset.New

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		tor := &torrent.Torrent{PiecesNum: 1, Length: 1, PieceLength: 1}
		m := NewMng(tor, zap.NewNop(), 2, 1)
		var wg sync.WaitGroup
		var mu sync.Mutex
		added := 0
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := peer.NewPeer(netip.MustParseAddrPort(fmt.Sprintf("10.0.0.%d:1", k)), tor, m.piecesQueue, nil, zap.NewNop())
				if m.AddPeer(p) {
					mu.Lock()
					added++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		m.progressPrinter.Close()
		if added != 2 {
			t.Fatalf("%d peers in a pool of 2", added)
		}
	}
}
''')

s("C17-hash16", needs="a handshake with an info hash that differs in its last bytes only", breaks="only the first 16 bytes of the info hash are compared",
  edits=[(PE, "\t\tbytes.Equal(sentHash, hash)\n", "\t\tbytes.Equal(sentHash[:16], hash[:16])\n")],
  pkg="pkg/peer", demo='''package peer

import "testing"

func TestDemo(t *testing.T) {
	hash := []byte("01234567890123456789")
	for b := 0; b < 160; b++ {
		hs := createHandshake(hash)
		hs[28+b/8] ^= 1 << (b % 8)
		if isHandshakeValid(hs, hash, ClientId) {
			t.Errorf("bit %d", b)
		}
	}
}
''')

s("C14-not-interested", needs="a seed that says it is not interested, as seeds may do at any time, after it has unchoked us", breaks="a not-interested message of the peer clears our own interest as well, nothing is requested any more",
  edits=[(PE, "\t\tp.PeerStatus.Interested = false\n", "\t\tp.PeerStatus.Interested, p.ClientStatus.Interested = false, false\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	p := &Peer{logger: zap.NewNop(), PeerStatus: &Status{Interested: true}, ClientStatus: &Status{Interested: true}}
	if err := p.handlePeerMessage(util.NewPeerMessage([]byte{3})); err != nil || p.PeerStatus.Interested || !p.ClientStatus.Interested {
		t.Fatal(err, p.PeerStatus, p.ClientStatus)
	}
}
''')

s("C21-same-id", needs="a connect reply that is delivered twice", breaks="the announce uses the transaction id of the connect request, whose duplicated reply is then taken for the answer to the announce",
  edits=[(UD, "\ttransactionId := createTransactionId()\n\t// TODO", "\ttransactionId := t.transactionId\n\t// TODO"),
         (UD, "\ttransactionId := createTransactionId()\n\trequest := new", "\ttransactionId := createTransactionId()\n\tt.transactionId = transactionId\n\trequest := new")],
  pkg="pkg/tracker", demo='''package tracker

import (
	"context"
	"net"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
)

func TestDemo(t *testing.T) {
	srv, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	go func() {
		for {
			b := make([]byte, 1000)
			n, a, err := srv.ReadFrom(b)
			if err != nil {
				return
			}
			switch n {
			case 16:
				res := append([]byte{0, 0, 0, 0}, b[12:16]...)
				res = append(res, 1, 2, 3, 4, 5, 6, 7, 8)
				_, _ = srv.WriteTo(res, a)
				_, _ = srv.WriteTo(res, a)
			default:
				time.Sleep(50 * time.Millisecond)
				res := append([]byte{0, 0, 0, 1}, b[12:16]...)
				res = append(res, 0, 0, 0, 60, 0, 0, 0, 0, 0, 0, 0, 1, 10, 0, 0, 1, 0, 80)
				_, _ = srv.WriteTo(res, a)
			}
		}
	}()
	tr, err := New("udp://"+srv.LocalAddr().String(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	for i := 0; i < 3; i++ {
		ips, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
		if err != nil || len(ips) != 1 || ips[0].String() != "10.0.0.1:80" {
			t.Fatal(ips, err)
		}
	}
}
''')

s("C23-half-hour", needs="a tracker that asks for an interval of more than half an hour", breaks="long intervals are cut to half an hour, the tracker is announced to earlier than it asked for",
  edits=[(TR, "\tcase <-time.After(t.interval):\n", "\tcase <-time.After(min(t.interval, 30*time.Minute)):\n")],
  pkg="pkg/tracker", demo='''package tracker

import (
	"context"
	"testing"
	"testing/synctest"
	"time"
)

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		for _, d := range []time.Duration{time.Second, 10 * time.Minute, 2 * time.Hour} {
			start := time.Now()
			if err := (waitInterval{d}).WaitInterval(context.Background()); err != nil || time.Since(start) < d {
				t.Fatal(err, time.Since(start))
			}
		}
	})
}
''')

s("C18-choke-in-flight", needs="a choke while a request is not answered yet", breaks="a choke is overlooked while a request is in flight, so that requests go on",
  edits=[(PE, "\t\tp.ClientStatus.Choked = true\n", "\t\tp.ClientStatus.Choked = p.request == nil\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	for _, req := range []*util.PeerMessage{nil, util.CreatePieceMessage(0, 0, 1)} {
		p := &Peer{logger: zap.NewNop(), PeerStatus: newPeerStatus(), ClientStatus: &Status{Interested: true}, request: req}
		if err := p.handlePeerMessage(util.CreateChokeMessage()); err != nil || !p.ClientStatus.Choked {
			t.Errorf("not choked: %v, %v", req, err)
		}
	}
}
''')

s("C19-received-counts", needs="a peer that sends keep-alives while nothing is requested from it", breaks="a keep-alive that is received counts as one sent, so that a chatty peer never gets one",
  edits=[(PE, "\t\tp.logger.Debug(\"Peer sent keepalive\")\n", "\t\tp.updateLastMsgSent()\n\t\tp.logger.Debug(\"Peer sent keepalive\", zap.Time(\"at\", p.lastMsgSent))\n")],
  pkg="pkg/peer", demo='''package peer

import (
	"io"
	"net"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := gotitnet.NewTimeoutConn("tcp", l.Addr().String(), time.Second)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	srv, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	p := &Peer{logger: zap.NewNop(), PeerStatus: newPeerStatus(), ClientStatus: newPeerStatus(), conn: c, lastMsgSent: time.Now().Add(-3 * time.Minute)}
	if err := p.handlePeerMessage(util.KeepalivePeerMessage); err != nil {
		t.Fatal(err)
	}
	if err := p.checkKeepAlive(); err != nil {
		t.Fatal(err)
	}
	_ = srv.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := io.ReadFull(srv, make([]byte, 4)); err != nil {
		t.Fatal("no keep-alive after three minutes:", err)
	}
}
''')

s("C20-transaction16", needs="a reply whose transaction id agrees in its lower half only", breaks="only 16 bits of the transaction id are compared",
  edits=[(UD, "\tif transactionId != responseId {\n", "\tif uint16(transactionId) != uint16(responseId) {\n")],
  pkg="pkg/tracker", demo='''package tracker

import (
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	const id = 0x12345678
	for bit := 0; bit < 32; bit++ {
		res := make([]byte, 16)
		binary.BigEndian.PutUint32(res[4:], id^1<<bit)
		if _, err := readConnect(res, id); err == nil {
			t.Errorf("accepted with bit %d of the transaction id flipped", bit)
		}
	}
}
''')

s("C22-break", needs="a reply with an unusable entry before usable ones", breaks="the list of peers ends at the first one whose port is no number",
  edits=[(HT, "\t\t\tt.logger.Error(\n\t\t\t\t\"parsing port\",\n\t\t\t\tzap.Error(err),\n\t\t\t)\n\t\t\tcontinue\n", "\t\t\tt.logger.Error(\n\t\t\t\t\"parsing port\",\n\t\t\t\tzap.Error(err),\n\t\t\t)\n\t\t\tbreak\n")],
  pkg="pkg/tracker", demo='''package tracker

import (
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
)

func TestDemo(t *testing.T) {
	tr := &httpTracker{logger: zap.NewNop()}
	got := tr.parseBencodePeers([]gotit.AnnouncePeer{{Ip: "10.0.0.1", Port: "1"}, {Ip: "10.0.0.2", Port: "70000"}, {Ip: "10.0.0.3", Port: "3"}})
	if len(got) != 2 || got[1].String() != "10.0.0.3:3" {
		t.Fatal(got)
	}
}
''')

s("C24-lost-update", needs="two updates of the same counter at the same moment", breaks="the download counter is read and written in two steps, updates get lost",
  edits=[(ST, "\tatomic.AddUint64(&ts.download, size)\n", "\tatomic.StoreUint64(&ts.download, ts.Download()+size)\n")],
  pkg="pkg/stats", demo='''package stats

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewStats(1 << 40)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				s.AddDownload(1)
			}
		}()
	}
	wg.Wait()
	if s.Download() != 8*300000 {
		t.Fatal(s.Download())
	}
}
''')

s("C25-have16", needs="a have for a piece with an index of 65536 or more", breaks="only the lower 16 bits of the index in a have are used",
  edits=[(MS, "msg.index = binary.BigEndian.Uint32(data[:4])", "msg.index = uint32(binary.BigEndian.Uint16(data[2:4]))")],
  pkg="pkg/util", demo='''package util

import "testing"

func TestDemo(t *testing.T) {
	for bit := 0; bit < 32; bit++ {
		idx := uint32(1) << bit
		if got := NewPeerMessage([]byte{4, byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}).Index(); got != idx {
			t.Errorf("have %d is read as %d", idx, got)
		}
	}
}
''')

SH = '''mkdir -p "$T/out"
go build -o "$T/gotit" ./cmd/gotit || exit 99
python3 - "$T/big.torrent" <<'E'
import sys
n = %s
p = b"h" * (20 * n)
open(sys.argv[1], "wb").write(b"d8:announce8:http://t4:infod6:lengthi%%de4:name3:big12:piece lengthi1024e6:pieces%%d:%%seee" %% (1024 * n, len(p), p))
E
cd "$T" && HOME=$T timeout 60 ./gotit bencode "$T/big.torrent" > out.txt 2>err.txt || exit 1
grep -q "name: big" out.txt
'''
s("C26-large-file", needs="a torrent file of more than a megabyte", breaks="the bencode command reads at most one megabyte and fails for larger files",
  edits=[("pkg/cmd/bencode.go", "data, err := io.ReadAll(f)", "data, err := io.ReadAll(io.LimitReader(f, 1<<20))")], sh=SH % "100000")
