package c10

import (
	"crypto/sha1"
	"fmt"
	"math"
	"math/big"
	"os"
	"runtime"
	"strings"
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C10") }

// meta is one torrent: either length (single) or files.
func check(x *vrt.X, single bool, lens []int64, pl int64, hashBytes int, urls func(m *bencode.Metainfo)) {
	m := &bencode.Metainfo{Announce: "http://t/ann"}
	m.Info.Name = "geo"
	m.Info.PieceLength = pl
	m.Info.Pieces = strings.Repeat("0123456789abcdefghij", hashBytes/20) + strings.Repeat("x", hashBytes%20)
	m.InfoDictRaw = []byte(fmt.Sprintf("d4:name%d:%de", len(lens), pl))
	total := new(big.Int)
	neg := false
	if single {
		m.Info.Length = lens[0]
	}
	for i, n := range lens {
		if !single {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprintf("f%d", i)}, Length: int(n)})
		}
		neg = neg || n < 0
		total.Add(total, big.NewInt(n))
	}
	if urls != nil {
		urls(m)
	}
	desc := fmt.Sprintf("single %v, lengths %v, piece length %d, %d bytes of hashes", single, lens, pl, hashBytes)
	want := int64(-1)
	ok := !neg && pl > 0 && total.Sign() > 0 && total.IsInt64() && hashBytes%20 == 0
	if ok {
		want = new(big.Int).Div(new(big.Int).Add(total, big.NewInt(pl-1)), big.NewInt(pl)).Int64()
		ok = want == int64(hashBytes/20)
	}
	dir := vtor.TempDir(vrt.Scratch())
	defer os.RemoveAll(dir)
	var t *torrent.Torrent
	var err error
	var before, after runtime.MemStats
	big := total.IsInt64() && total.Int64() > 1<<30 || !total.IsInt64()
	if big {
		runtime.ReadMemStats(&before)
	}
	x.NoCrash("open torrent ("+desc+")", func() { t, err = torrent.New(m, dir, zap.NewNop()) })
	if big {
		runtime.ReadMemStats(&after)
		if d := after.TotalAlloc - before.TotalAlloc; d > 64<<20 {
			x.Fail("memory", "%s: opening set aside %d bytes", desc, d)
		}
	}
	x.Outcome(ok, err == nil)
	if err != nil {
		if ok {
			x.Fail("refused", "%s: refused: %v", desc, err)
		}
		return
	}
	defer t.Close()
	if !ok {
		x.Fail("accepted", "%s: opened (length %d, %d pieces)", desc, t.Length, t.PiecesNum)
	}
	if int64(t.Length) != total.Int64() {
		x.Fail("length", "%s: reports length %d instead of %d", desc, t.Length, total)
	}
	if int64(t.PiecesNum) != want || len(t.Pieces) != int(want) || t.EmptyBitset().Len() != uint(want) {
		x.Fail("pieces", "%s: reports %d pieces, %d hashes, bitset of %d instead of %d", desc, t.PiecesNum, len(t.Pieces), t.EmptyBitset().Len(), want)
	}
	if int64(t.PieceLength) != pl || t.Name != "geo" {
		x.Fail("piece-length", "%s: reports piece length %d, name %q", desc, t.PieceLength, t.Name)
	}
	for i, p := range t.Pieces {
		if !p.CheckHash([]byte("0123456789abcdefghij")) || p.Index() != i {
			x.Fail("hashes", "%s: hash %d wrong or with index %d", desc, i, p.Index())
		}
	}
	h := sha1.Sum(m.InfoDictRaw)
	if string(t.Hash) != string(h[:]) {
		x.Fail("info-hash", "%s: info-hash %x instead of %x", desc, t.Hash, h)
	}
	must, may := map[string]bool{m.Announce: true}, map[string]bool{}
	for _, tier := range m.AnnounceList {
		for _, u := range tier {
			must[u] = true
		}
	}
	for _, u := range m.UrlList {
		may[u] = true
	}
	for u := range must {
		if _, ok := t.Trackers[u]; !ok && u != "" {
			x.Fail("trackers", "%s: announce URL %q missing in %v", desc, u, t.Trackers)
		}
	}
	for u := range t.Trackers {
		if !must[u] && !may[u] {
			x.Fail("trackers", "%s: %q is no announce URL", desc, u)
		}
	}
	if t.Done() {
		x.Fail("done", "%s: complete right after opening", desc)
	}
	x.State(single, lens, pl, t.PiecesNum, len(t.Trackers))
}

// TestSmall: all small geometries with every number of hash bytes near the right one.
func TestSmall(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "small-geometries", ShardDepth: 3}, func(x *vrt.X) {
		n := x.Choose(vrt.Pick(4, 5), "files")
		var lens []int64
		total := int64(0)
		k := max(n, 1)
		for i := 0; i < k; i++ {
			var l int64
			if k <= 2 {
				l = int64(x.Choose(12, "length")) - 2
			} else {
				l = vrt.Of(x, "length", int64(-1), 0, 1, 3, 8)
			}
			lens = append(lens, l)
			total += l
		}
		pl := int64(x.Choose(11, "piece length")) - 2
		right := int64(0)
		if pl > 0 && total > 0 {
			right = (total + pl - 1) / pl
		}
		d := vrt.Of(x, "hash bytes", 0, -20, 20, -1, 1, 10, 40)
		hb := int(right)*20 + d
		if hb < 0 {
			return
		}
		check(x, n == 0, lens, pl, hb, nil)
	})
}

// TestExtreme: lengths and piece lengths near all limits; hashes few or as many as would wrap around.
func TestExtreme(t *testing.T) {
	ls := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1, 0, 1, 16384, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}
	vrt.Explore(t, vrt.Opts{Section: "extreme-geometries", ShardDepth: 2}, func(x *vrt.X) {
		form := x.Choose(3, "form")
		var lens []int64
		for i := 0; i < max(form, 1); i++ {
			lens = append(lens, ls[x.Choose(len(ls), "length")])
		}
		pl := ls[x.Choose(len(ls), "piece length")]
		hb := 0
		switch x.Choose(5, "hashes") {
		case 0:
			hb = 0
		case 1:
			hb = 20
		case 2:
			hb = 40
		case 3, 4:
			t := int64(0)
			for _, l := range lens {
				t += l // may wrap
			}
			if pl <= 0 || t <= 0 {
				return
			}
			n := t/pl + min(1, t%pl)
			if n > 100000 {
				return
			}
			hb = int(n) * 20
			if x.Bool("one less") {
				hb -= 20
			}
		}
		if hb < 0 {
			return
		}
		check(x, form == 0, lens, pl, hb, nil)
	})
	// piece counts around exact quotients of large numbers
	vrt.Explore(t, vrt.Opts{Section: "large-quotients", ShardDepth: 2}, func(x *vrt.X) {
		pl := vrt.Of(x, "piece length", int64(1<<40), 1<<44+1, 1<<50, 1<<53+1, 1<<60, 3<<58)
		n := int64(1 + x.Choose(7, "pieces"))
		d := vrt.Of(x, "more", int64(-1), 0, 1)
		if pl > math.MaxInt64/(n+1) {
			return
		}
		l := pl*n + d
		h := n
		if d > 0 {
			h++
		}
		h += vrt.Of(x, "hashes", int64(0), 1, -1)
		if h < 0 {
			return
		}
		check(x, x.Bool("single"), []int64{l}, pl, int(h)*20, nil)
	})
}

// TestTrackers: announce URLs in every arrangement.
func TestTrackers(t *testing.T) {
	us := []string{"http://t/ann", "http://t/other", "udp://u:1", ""}
	vrt.Explore(t, vrt.Opts{Section: "announce-urls", ShardDepth: 2}, func(x *vrt.X) {
		check(x, x.Bool("single"), []int64{20}, 20, 20, func(m *bencode.Metainfo) {
			m.Announce = us[x.Choose(len(us), "announce")]
			for i := x.Choose(3, "tiers"); i > 0; i-- {
				var tier []string
				for j := x.Choose(3, "urls"); j > 0; j-- {
					tier = append(tier, us[x.Choose(len(us), "url")])
				}
				m.AnnounceList = append(m.AnnounceList, tier)
			}
			if x.Bool("url-list") {
				m.UrlList = []string{"http://seed/"}
			}
		})
	})
}

// TestManyTrackers: URLs of every form, alone and in pairs, and very many of them.
func TestManyTrackers(t *testing.T) {
	us := []string{"http://t/ann", "http://t/ann/", "http://t/ann//", "http://t/", "http://t", "HTTP://t/ann", "http://T/ann", "http://t:80/ann", "http://t/ann?", "http://t/ann?passkey=1", "http://t/ann?passkey=2", "http://t/ann?passkey=1&x=%20", "http://t/ann#x", " http://t/ann", "http://t/ann ", "http://t/ann\n",
		"https://t/ann", "https://t:443/ann", "udp://t:1", "udp://t:01", "udp://t:1/", "udp://t:1/announce", "udp://t:2", "udp://T:1", "udp://[::1]:6969", "udp://[0::1]:6969", "udp", "http", "wss://t", "dht://x", "t:80", "//t/ann", "/ann", "?", "x", "http://u:p@t/ann", "http://t/%61nn", "http://t/\u00e9", "http://t/e\u0301", "http://t/\xff", "http://t/\xfe",
		"http://t/" + strings.Repeat("x", 246), "http://t/" + strings.Repeat("x", 247), "http://t/" + strings.Repeat("x", 248), "http://t/" + strings.Repeat("x", 500), "http://t/" + strings.Repeat("x", 70000), "http://t/" + strings.Repeat("x", 499) + "y"}
	vrt.Explore(t, vrt.Opts{Section: "kinds of announce URLs", ShardDepth: 2}, func(x *vrt.X) {
		a, b := us[x.Choose(len(us), "a")], us[x.Choose(len(us), "b")]
		form := x.Choose(3, "form")
		check(x, true, []int64{20}, 20, 20, func(m *bencode.Metainfo) {
			switch form {
			case 0:
				m.Announce, m.AnnounceList = a, [][]string{{b}}
			case 1:
				m.Announce, m.AnnounceList = a, [][]string{{a, b}, {b}}
			case 2:
				m.AnnounceList = [][]string{{"udp://z:1"}, {a}, {}, {b, a}}
			}
		})
	})
	vrt.Explore(t, vrt.Opts{Section: "many announce URLs", ShardDepth: 2}, func(x *vrt.X) {
		tiers := vrt.Of(x, "tiers", 1, 2, 9, 17, 33, 65, 129, 300, 1000)
		per := vrt.Of(x, "per tier", 1, 2, 10, 33, 100)
		check(x, x.Bool("single"), []int64{20}, 20, 20, func(m *bencode.Metainfo) {
			for i := 0; i < tiers; i++ {
				var tier []string
				for j := 0; j < per; j++ {
					tier = append(tier, fmt.Sprintf("http://t%d/%d", i, j))
				}
				m.AnnounceList = append(m.AnnounceList, tier)
			}
		})
	})
}
