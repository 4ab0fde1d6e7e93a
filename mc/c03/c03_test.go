package c03

import (
	"crypto/sha1"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vrt"
)

func TestMain(m *testing.M) { vrt.Main(m, "C03") }

// meta is what a torrent file says.
type meta struct {
	verdict  vben.Verdict
	why      string
	announce string
	alist    [][]string
	urls     []string
	files    []bencode.TorrentFile
	length   int64
	name     string
	plen     int64
	pieces   string
	raw      []byte
	comment  string
	created  string
	date     int64
	encoding string
}

func (m *meta) reject(f string, a ...any) {
	if m.why == "" {
		m.verdict, m.why = vben.Reject, fmt.Sprintf(f, a...)
	}
}

func (m *meta) loose() {
	if m.verdict == vben.Accept {
		m.verdict = vben.Either
	}
}

func (m *meta) str(d *vben.V, key string, req bool) string {
	v := d.D[key]
	if v == nil {
		if req {
			m.reject("required key %q is missing", key)
		}
		return ""
	}
	switch v[0].K {
	case vben.Str:
		return v[0].S
	case vben.Int:
		m.loose() // an integer where text is expected may be taken as its digits
		return ""
	}
	m.reject("key %q is not a string", key)
	return ""
}

func (m *meta) num(d *vben.V, key string, req bool) int64 {
	v := d.D[key]
	if v == nil {
		if req {
			m.reject("required key %q is missing", key)
		}
		return 0
	}
	switch v[0].K {
	case vben.Int:
		return v[0].I
	case vben.Str:
		if _, err := strconv.ParseInt(v[0].S, 0, 64); err == nil {
			m.loose() // text that is a number may be taken as one
			return 0
		}
	}
	m.reject("key %q is not an integer", key)
	return 0
}

func (m *meta) strs(v *vben.V, key string) []string {
	if v.K != vben.List {
		if key == "url-list" && v.K == vben.Str {
			m.loose()
			return nil
		}
		m.reject("key %q is not a list", key)
		return nil
	}
	out := []string{}
	for _, e := range v.L {
		switch e.K {
		case vben.Str:
			out = append(out, e.S)
		case vben.Int:
			m.loose()
		default:
			m.reject("key %q has an element that is not a string", key)
		}
	}
	return out
}

// says interprets a torrent file by the specification.
func says(b []byte) *meta {
	m := &meta{verdict: vben.Accept}
	d, _, verdict := vben.Decode(b)
	if verdict == vben.Reject {
		m.reject("not bencode")
		return m
	}
	if d.K != vben.Dict {
		m.reject("not a dictionary")
		return m
	}
	if verdict == vben.Either { // repeated keys or superfluous zeros: anything but a crash
		m.verdict = vben.Either
		return m
	}
	m.announce = m.str(d, "announce", true)
	if v := d.D["announce-list"]; v != nil {
		if v[0].K != vben.List {
			m.reject("announce-list is not a list")
		} else {
			for _, tier := range v[0].L {
				m.alist = append(m.alist, m.strs(tier, "announce-list"))
			}
		}
	}
	if v := d.D["url-list"]; v != nil {
		m.urls = m.strs(v[0], "url-list")
	}
	m.comment = m.str(d, "comment", false)
	m.created = m.str(d, "created by", false)
	m.encoding = m.str(d, "encoding", false)
	m.date = m.num(d, "creation date", false)
	info := d.D["info"]
	if info == nil {
		m.reject("info is missing")
		return m
	}
	if info[0].K != vben.Dict {
		m.reject("info is not a dictionary")
		return m
	}
	i := info[0]
	m.raw = i.Raw
	m.name = m.str(i, "name", true)
	m.pieces = m.str(i, "pieces", true)
	m.plen = m.num(i, "piece length", true)
	m.length = m.num(i, "length", false)
	if v := i.D["files"]; v != nil {
		if v[0].K != vben.List {
			m.reject("files is not a list")
		} else {
			for _, f := range v[0].L {
				if f.K != vben.Dict {
					m.reject("files has an element that is not a dictionary")
					continue
				}
				tf := bencode.TorrentFile{Length: int(m.num(f, "length", true))}
				if p := f.D["path"]; p == nil {
					m.reject("required key path is missing")
				} else {
					tf.Path = m.strs(p[0], "path")
				}
				m.files = append(m.files, tf)
			}
		}
	}
	return m
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diff(g *bencode.Metainfo, m *meta) string {
	type c struct {
		name      string
		got, want any
	}
	for _, e := range []c{{"announce", g.Announce, m.announce}, {"length", g.Info.Length, m.length}, {"name", g.Info.Name, m.name},
		{"piece length", g.Info.PieceLength, m.plen}, {"pieces", g.Info.Pieces, m.pieces}, {"comment", g.Comment, m.comment},
		{"created by", g.CreatedBy, m.created}, {"creation date", g.CreationDate, m.date}, {"encoding", g.Encoding, m.encoding},
		{"number of tiers", len(g.AnnounceList), len(m.alist)}, {"number of files", len(g.Info.Files), len(m.files)}} {
		if e.got != e.want {
			return fmt.Sprintf("%s is %.80q instead of %.80q", e.name, fmt.Sprint(e.got), fmt.Sprint(e.want))
		}
	}
	for i := range m.alist {
		if !sameStrs(g.AnnounceList[i], m.alist[i]) {
			return fmt.Sprintf("announce-list tier %d is %q instead of %q", i, g.AnnounceList[i], m.alist[i])
		}
	}
	if !sameStrs(g.UrlList, m.urls) {
		return fmt.Sprintf("url-list is %q instead of %q", g.UrlList, m.urls)
	}
	for i, f := range m.files {
		if !sameStrs(g.Info.Files[i].Path, f.Path) || g.Info.Files[i].Length != f.Length {
			return fmt.Sprintf("file %d is %q/%d instead of %q/%d", i, g.Info.Files[i].Path, g.Info.Files[i].Length, f.Path, f.Length)
		}
	}
	return ""
}

func check(x *vrt.X, b []byte) {
	m := says(b)
	src := append([]byte{}, b...)
	x.NoCrash("decode torrent file", func() {
		var g bencode.Metainfo
		err := bencode.Unmarshal(src, &g)
		if err == nil {
			_ = g.String()
			if s := g.String(); s != g.String() {
				x.Fail("rendering", "rendering of %.300q differs between calls", b)
			}
		}
		x.Outcome(m.verdict, err == nil, m.why)
		switch m.verdict {
		case vben.Reject:
			if err == nil {
				x.Fail("accepted", "%s, yet accepted: %.300q", m.why, b)
			}
			return
		case vben.Accept:
			if err != nil {
				x.Fail("refused", "valid torrent file refused (%v): %.300q", err, b)
			}
		default:
			if err != nil {
				return
			}
		}
		if m.verdict == vben.Accept {
			if d := diff(&g, m); d != "" {
				x.Fail("metadata", "%s, file %.300q", d, b)
			}
			h := sha1.Sum(m.raw)
			if string(g.Hash()) != string(h[:]) {
				x.Fail("info-hash", "info-hash is %x instead of %x (info bytes %.200q), file %.300q", g.Hash(), h, m.raw, b)
			}
			if string(g.Hash()) != string(h[:]) {
				x.Fail("info-hash", "second call differs")
			}
		}
		x.StateH(uint64(len(b))<<32 ^ uint64(h32(b)))
	})
}

func h32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

func info(multi bool) *vben.V {
	d := vben.D()
	if multi {
		d.Set("files", vben.L(
			vben.D().Set("length", vben.I(5)).Set("path", vben.L(vben.S("dir"), vben.S("a.txt"))),
			vben.D().Set("path", vben.L(vben.S("b"))).Set("length", vben.I(0))))
	} else {
		d.Set("length", vben.I(9))
	}
	d.Set("name", vben.S("na:me"))
	d.Set("piece length", vben.I(8))
	d.Set("pieces", vben.S("0123456789abcdefghij\x00\xff23456789abcdefg:ie"))
	return d
}

var opts = []struct {
	k string
	v *vben.V
}{
	{"announce-list", vben.L(vben.L(vben.S("http://a/1"), vben.S("http://a/2")), vben.L(), vben.L(vben.S("udp://b:1")))},
	{"comment", vben.S("a comment")},
	{"created by", vben.S("someone")},
	{"creation date", vben.I(1234567890)},
	{"encoding", vben.S("UTF-8")},
	{"url-list", vben.L(vben.S("http://c/"), vben.S(""))},
}

func reorder(d *vben.V, p []int) *vben.V {
	ks := make([]string, len(p))
	for i, j := range p {
		ks[i] = d.Keys[j]
	}
	d.Keys = ks
	return d
}

// TestOrders: every subset of the optional keys, every order of up to 5 top-level keys and of the info keys.
func TestOrders(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "optional-keys", ShardDepth: 3}, func(x *vrt.X) {
		multi := x.Bool("multi")
		set := x.Choose(64, "optional keys")
		d := vben.D().Set("announce", vben.S("http://t/ann")).Set("info", info(multi))
		for i, o := range opts {
			if set>>i&1 == 1 {
				d.Set(o.k, o.v)
			}
		}
		n := len(d.Keys)
		r := x.Choose(n, "rotate")
		p := make([]int, n)
		rev := x.Bool("reverse")
		for i := range p {
			p[i] = (i + r) % n
			if rev {
				p[i] = n - 1 - p[i]
			}
		}
		reorder(d, p)
		in := d.D["info"][0]
		k := len(in.Keys)
		r = x.Choose(k, "rotate info")
		p = make([]int, k)
		for i := range p {
			p[i] = (i + r) % k
		}
		reorder(in, p)
		check(x, []byte(d.EncSrc()))
	})
	vrt.Explore(t, vrt.Opts{Section: "key-orders", ShardDepth: 3}, func(x *vrt.X) {
		multi := x.Bool("multi")
		d := vben.D().Set("announce", vben.S("http://t/ann")).Set("info", info(multi))
		if vrt.Thorough() {
			for _, o := range opts {
				d.Set(o.k, o.v)
			}
		} else {
			d.Set(opts[0].k, opts[0].v).Set(opts[3].k, opts[3].v).Set("x-info", vben.D().Set("info", vben.D()))
		}
		reorder(d, x.Permutation(len(d.Keys), "order"))
		if !vrt.Thorough() {
			reorder(d.D["info"][0], x.Permutation(len(d.D["info"][0].Keys), "info order"))
		}
		check(x, []byte(d.EncSrc()))
	})
}

// TestUnknownKeys: an extra key at every place, with values that look like other parts of a torrent.
func TestUnknownKeys(t *testing.T) {
	names := []string{"", "a", "inf", "info ", "Info", "infohash", "nodes", "name", "length", "files", "path", "private", "pieces", "source", "publisher", "zz", "md5sum", "announc", "\xff",
		"name.utf-8", "path.utf-8", "comment.utf-8", "announce.utf-8", "pieces.utf-8", "NAME", "piece_length", "piecelength", "announce-lis", "announce list", "urllist", "httpseeds", "profiles", "ed2k", "root hash", "meta version", "file tree", "piece layers"}
	vals := []*vben.V{vben.I(-3), vben.S("4:infod4:name1:xe"), vben.S(""), vben.L(), vben.L(vben.D().Set("info", vben.D().Set("name", vben.S("evil")))), vben.D(), vben.D().Set("info", info(false)).Set("announce", vben.S("http://evil")), vben.S("\x00\xffe")}
	vrt.Explore(t, vrt.Opts{Section: "unknown-keys", ShardDepth: 3}, func(x *vrt.X) {
		multi := x.Bool("multi")
		d := vben.D().Set("announce", vben.S("http://t/ann")).Set("comment", vben.S("c")).Set("info", info(multi)).Set("url-list", vben.L())
		name := names[x.Choose(len(names), "name")]
		val := vals[x.Choose(len(vals), "value")]
		target := d
		switch x.Choose(3, "level") {
		case 1:
			target = d.D["info"][0]
		case 2:
			if !multi {
				return
			}
			target = d.D["info"][0].D["files"][0].L[0]
		}
		if _, dup := target.D[name]; dup {
			return
		}
		target.Set(name, val)
		n := len(target.Keys)
		pos := x.Choose(n, "place")
		ks := append([]string{}, target.Keys[:n-1]...)
		ks = append(ks[:pos:pos], append([]string{name}, ks[pos:]...)...)
		target.Keys = ks
		check(x, []byte(d.EncSrc()))
	})
}

// TestKinds: every known key missing or with a value of every kind.
func TestKinds(t *testing.T) {
	vals := []*vben.V{nil, vben.I(0), vben.I(-1), vben.I(7), vben.I(math.MaxInt64), vben.I(math.MinInt64), vben.S(""), vben.S("text"), vben.S("12"), vben.S("-"), vben.S("9223372036854775808"),
		vben.L(), vben.L(vben.I(1)), vben.L(vben.S("u")), vben.L(vben.L(vben.S("u"))), vben.L(vben.L(vben.L())), vben.L(vben.D()), vben.L(vben.D().Set("length", vben.I(1)).Set("path", vben.L(vben.S("p")))),
		vben.L(vben.D().Set("length", vben.I(1))), vben.L(vben.D().Set("path", vben.L(vben.S("p")))), vben.L(vben.D().Set("length", vben.L()).Set("path", vben.L())), vben.L(vben.D().Set("length", vben.I(2)).Set("path", vben.S("p"))),
		vben.L(vben.D().Set("length", vben.I(2)).Set("path", vben.D())), vben.L(vben.D().Set("length", vben.I(2)).Set("path", vben.L(vben.L()))), vben.L(vben.S("a"), vben.D()), vben.L(vben.L(), vben.S("a")),
		vben.D(), vben.D().Set("name", vben.S("x"))}
	keys := []string{"announce", "announce-list", "url-list", "info", "comment", "created by", "creation date", "encoding", "info/name", "info/length", "info/files", "info/piece length", "info/pieces"}
	vrt.Explore(t, vrt.Opts{Section: "kinds", ShardDepth: 2}, func(x *vrt.X) {
		multi := x.Bool("multi")
		full := x.Bool("with optional keys")
		d := vben.D().Set("announce", vben.S("http://t/ann")).Set("info", info(multi))
		if full {
			for _, o := range opts {
				d.Set(o.k, o.v)
			}
		}
		n := 1 + x.Choose(2, "number of odd keys")
		for i := 0; i < n; i++ {
			k := keys[x.Choose(len(keys), "key")]
			v := vals[x.Choose(len(vals), "value")]
			target := d
			if len(k) > 5 && k[:5] == "info/" {
				if d.D["info"] == nil || d.D["info"][0].K != vben.Dict {
					continue
				}
				target, k = d.D["info"][0], k[5:]
			}
			if v == nil {
				delete(target.D, k)
				for j, kk := range target.Keys {
					if kk == k {
						target.Keys = append(target.Keys[:j:j], target.Keys[j+1:]...)
						break
					}
				}
			} else {
				if v.K == vben.Dict { // not shared between keys
					c := vben.D()
					for _, kk := range v.Keys {
						c.Set(kk, v.D[kk][0])
					}
					v = c
				}
				target.Set(k, v)
			}
		}
		check(x, []byte(d.EncSrc()))
	})
}

// TestTopLevel: files that are no dictionary, or are cut off.
func TestTopLevel(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "mutated-files", ShardDepth: 3}, func(x *vrt.X) {
		multi := x.Bool("multi")
		d := vben.D().Set("announce", vben.S("u")).Set("comment", vben.S("c")).Set("info", info(multi)).Set("creation date", vben.I(10))
		b := []byte(d.EncSrc())
		p := x.Choose(len(b)+1, "position")
		switch x.Choose(4, "change") {
		case 0:
			b = b[:p]
		case 1:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2:
			c := x.Choose(256, "byte")
			if p < len(b) {
				b[p] = byte(c)
			} else {
				b = append(b, byte(c))
			}
		case 3:
			c := vrt.Of(x, "insert", "e", "i1e", "0:", "1:a", "l", "d", "de", "le", "1:ai1e", "-", "0")
			b = append(b[:p:p], append([]byte(c), b[p:]...)...)
		}
		check(x, b)
	})
	tops := []string{"", "i0e", "i1e", "0:", "4:spam", "le", "de", "ld4:infodeee", "l8:announcee", "d4:infodee", "d8:announce1:ue", "d8:announce1:u4:infodee", "d8:announce1:u4:infoi1ee", "d8:announce1:u4:info2:dee", "d8:announce1:u4:infolee", "e", "d", "l", "x", "\x00", "null", "{}"}
	vrt.Explore(t, vrt.Opts{Section: "top-level", ShardDepth: 1}, func(x *vrt.X) {
		check(x, []byte(tops[x.Choose(len(tops), "file")]))
	})
}

// TestManyElements: lists of every length up to 300 and some far beyond, and texts of many lengths.
func TestManyElements(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many-elements", ShardDepth: 2}, func(x *vrt.X) {
		n := x.Choose(306, "n")
		if n > 300 {
			n = []int{1000, 1025, 4097, 10001, 20000}[n-301]
		}
		num := func(i int) string { return strconv.Itoa(i) }
		d := vben.D().Set("announce", vben.S("http://t/ann"))
		in := info(false)
		list := vben.L()
		switch x.Choose(8, "list") {
		case 0: // tiers
			for i := 0; i < n; i++ {
				list.L = append(list.L, vben.L(vben.S("http://a/"+num(i))))
			}
			d.Set("announce-list", list)
		case 1: // trackers of a tier
			for i := 0; i < n; i++ {
				list.L = append(list.L, vben.S("http://a/"+num(i)))
			}
			d.Set("announce-list", vben.L(vben.L(vben.S("x")), list, vben.L(vben.S("y"))))
		case 2:
			for i := 0; i < n; i++ {
				list.L = append(list.L, vben.S("http://u/"+num(i)))
			}
			d.Set("url-list", list)
		case 3: // files
			in = info(true)
			for i := 0; i < n; i++ {
				list.L = append(list.L, vben.D().Set("length", vben.I(int64(i))).Set("path", vben.L(vben.S("f"+num(i)))))
			}
			in.Set("files", list)
		case 4: // directories of a file
			in = info(true)
			for i := 0; i < n; i++ {
				list.L = append(list.L, vben.S("d"+num(i)))
			}
			in.Set("files", vben.L(vben.D().Set("length", vben.I(5)).Set("path", list), vben.D().Set("length", vben.I(6)).Set("path", vben.L(vben.S("b")))))
		case 5: // hashes of pieces
			in.Set("pieces", vben.S(strings.Repeat("0123456789abcdefghi\xff", n)))
		case 6: // texts
			s := strings.Repeat("\xc3\xa9e", n/3) + strings.Repeat("e", n%3)
			in.Set("name", vben.S(s))
			d.Set("comment", vben.S(s)).Set("created by", vben.S(s)).Set("encoding", vben.S(s)).Set("announce", vben.S(s))
		case 7: // keys that mean nothing, before and behind the others
			for i := 0; i < n; i++ {
				d.Set("a"+num(i), vben.I(int64(i)))
				in.Set("z"+num(i), vben.L(vben.I(int64(i))))
			}
		}
		d.Set("info", in)
		check(x, []byte(d.EncSrc()))
	})
}
