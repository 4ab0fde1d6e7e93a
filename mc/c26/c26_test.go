package c26

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C26") }

var bin = filepath.Join(os.Getenv("VERIF_WORK"), "gotit")

// R is one run of the program.
type R struct {
	args     []string
	code     int
	out, err string
	dir      string // scratch directory of this run, also HOME and working directory
}

func (r *R) String() string {
	return fmt.Sprintf("gotit %q: exit %d, stdout %.300q, stderr %.300q", r.args, r.code, r.out, r.err)
}

var crash = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[|SIGSEGV|unexpected fault)`)

// run runs the program; during (optional) is called once it runs.
func run(x *vrt.X, dir string, limit time.Duration, during func(p *os.Process), args ...string) *R {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "TZ=UTC"}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	r := &R{args: args, dir: dir}
	if err := c.Start(); err != nil {
		panic(err)
	}
	if during != nil {
		during(c.Process)
	}
	err := c.Wait()
	r.out, r.err = o.String(), e.String()
	if ctx.Err() != nil {
		x.Fail("hangs", "the program does not end within %v: %v", limit, r)
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	} else if err != nil {
		panic(err)
	}
	if crash.MatchString(r.err) || crash.MatchString(r.out) || r.code < 0 {
		x.Fail("crash", "the program crashes: %v", r)
	}
	if r.code != 0 && strings.TrimSpace(r.err) == "" {
		x.Fail("silent", "failure without a message on standard error: %v", r)
	}
	return r
}

func (r *R) expect(x *vrt.X, ok bool, why string) {
	if ok && r.code != 0 {
		x.Fail("refused", "%s, but the exit status is not 0: %v", why, r)
	}
	if !ok && r.code == 0 {
		x.Fail("accepted", "%s, but the exit status is 0: %v", why, r)
	}
}

func scratch() string {
	d, err := os.MkdirTemp(vrt.Scratch(), "r")
	if err != nil {
		panic(err)
	}
	return d
}

func write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// list of everything below a directory
func list(dir string) string {
	var s []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if p != dir {
			i, _ := os.Lstat(p)
			n := int64(0)
			if i != nil && !i.IsDir() {
				n = i.Size()
			}
			s = append(s, fmt.Sprintf("%s:%d", strings.TrimPrefix(p, dir), n))
		}
		return nil
	})
	return strings.Join(s, " ")
}

var (
	single = &vtor.Layout{Name: "file.bin", Single: true, Files: []vtor.File{{Len: 10}}, PieceLen: 4, Announce: "http://127.0.0.1:1/announce"}
	multi  = &vtor.Layout{Name: "dir", Files: []vtor.File{{"a", 5}, {"e", 0}, {"x/b", 1}, {"x/c", 5}}, PieceLen: 4, Announce: "http://127.0.0.1:1/announce"}
)

// file variants
type variant struct {
	name    string
	data    func() []byte // nil: no file
	decodes bool          // bencode succeeds
	opens   bool          // the download is started
}

func raw(s string) func() []byte { return func() []byte { return []byte(s) } }

func variants() []variant {
	good := single.TorrentFile
	vs := []variant{
		{"good, one file", good, true, true},
		{"good, several files", multi.TorrentFile, true, true},
		{"missing", nil, false, false},
		{"directory", nil, false, false},
		{"empty", raw(""), false, false},
		{"text", raw("this is not a torrent\n"), false, false},
		{"integer", raw("i42e"), false, false},
		{"string", raw("4:spam"), false, false},
		{"list", raw("l4:spami3ee"), false, false},
		{"empty dictionary", raw("de"), false, false},
		{"no info", raw("d8:announce5:http:e"), false, false},
		{"info is a string", raw("d8:announce5:http:4:info1:xe"), false, false},
		{"info is a list", raw("d8:announce5:http:4:infolee"), false, false},
		{"minus", raw("i-e"), false, false},
		{"long number", raw("i99999999999999999999999e"), false, false},
		{"long string", raw("99999999999:x"), false, false},
		{"deep", func() []byte { return bytes.Repeat([]byte("l"), 3_000_000) }, false, false},
		{"deep inside", func() []byte {
			return append([]byte("d8:announce5:http:4:info"), bytes.Repeat([]byte("d1:a"), 2_000_000)...)
		}, false, false},
	}
	g := good()
	for i := 1; i < len(g); i += max(1, len(g)/24) {
		cut := append([]byte{}, g[:len(g)-i]...)
		vs = append(vs, variant{fmt.Sprintf("cut by %d", i), func() []byte { return cut }, false, false})
	}
	mod := func(name string, f func(l *vtor.Layout), hashes int) {
		l := *multi
		l.Files = append([]vtor.File{}, l.Files...)
		f(&l)
		h := l.Hashes()
		h = append(h, make([]byte, 40)...)[:len(h)+hashes]
		d := vben.D().Set("announce", vben.S(l.Announce)).Set("info", l.Info(h))
		b := []byte(d.Enc())
		vs = append(vs, variant{name, func() []byte { return b }, true, false})
	}
	mod("name leads outside", func(l *vtor.Layout) { l.Name = "../up" }, 0)
	mod("name is empty", func(l *vtor.Layout) { l.Name = "" }, 0)
	mod("path leads outside", func(l *vtor.Layout) { l.Files[3].Path = "../../c" }, 0)
	mod("path leads outside late", func(l *vtor.Layout) { l.Files[3].Path = "x/../../../c" }, 0)
	mod("path twice", func(l *vtor.Layout) { l.Files[3].Path = "x/b" }, 0)
	mod("file inside a file", func(l *vtor.Layout) { l.Files[3].Path = "x/b/c" }, 0)
	mod("one hash too many", func(l *vtor.Layout) {}, 20)
	mod("one hash too few", func(l *vtor.Layout) {}, -20)
	mod("half a hash", func(l *vtor.Layout) {}, -10)
	return vs
}

func put(dir string, v variant) string {
	switch {
	case v.name == "directory":
		p := filepath.Join(dir, "in.torrent")
		os.Mkdir(p, 0o755)
		return p
	case v.data == nil:
		return filepath.Join(dir, "in.torrent")
	}
	return write(dir, "in.torrent", v.data())
}

// log flags: value and whether it is advertised (ok), unknown, or free
type flag struct {
	v  string
	ok bool
}

var (
	levels  = []flag{{"info", true}, {"debug", true}, {"trace", true}, {"warning", true}, {"error", true}, {"silent", true}, {"bogus", false}, {"infos", false}, {"7", false}, {"informational", false}, {"err", false}, {"silently", false}}
	formats = []flag{{"text", true}, {"color", true}, {"json", true}, {"bogus", false}, {"xml", false}, {"json-lines", false}, {"colour", false}}
)

// ways to write the flags, before or after the command
func logArgs(x *vrt.X) (pre, post []string, ok bool) {
	ok = true
	l := x.Choose(len(levels)+1, "level")
	f := x.Choose(len(formats)+1, "format")
	how := x.Choose(3, "how")
	var a []string
	if l > 0 {
		v := levels[l-1]
		ok = ok && v.ok
		switch how {
		case 0:
			a = append(a, "--log-level", v.v)
		case 1:
			a = append(a, "--log-level="+v.v)
		case 2:
			a = append(a, "-l", v.v)
		}
	}
	if f > 0 {
		v := formats[f-1]
		ok = ok && v.ok
		if how == 0 {
			a = append(a, "--log-format", v.v)
		} else {
			a = append(a, "--log-format="+v.v)
		}
	}
	if x.Bool("before") {
		return a, nil, ok
	}
	return nil, a, ok
}

func join(a ...[]string) []string {
	var o []string
	for _, p := range a {
		o = append(o, p...)
	}
	return o
}

// The bencode command: every file with every log flag.
func TestBencode(t *testing.T) {
	vs := variants()
	vrt.Explore(t, vrt.Opts{Section: "bencode", ShardDepth: 3}, func(x *vrt.X) {
		v := vs[x.Choose(vrt.Pick(8, len(vs)), "file")]
		pre, post, ok := logArgs(x)
		bencode(x, v, pre, post, ok)
	})
	vrt.Explore(t, vrt.Opts{Section: "bencode, all files", ShardDepth: 2}, func(x *vrt.X) {
		v := vs[x.Choose(len(vs), "file")]
		l := x.Choose(3, "flags")
		bencode(x, v, [][]string{nil, {"-l", "silent"}, {"-l", "debug", "--log-format", "json"}}[l], nil, true)
	})
}

func bencode(x *vrt.X, v variant, pre, post []string, ok bool) {
	d := scratch()
	defer os.RemoveAll(d)
	p := put(d, v)
	r := run(x, d, time.Minute, nil, join(pre, []string{"bencode"}, post, []string{p})...)
	r.expect(x, ok && v.decodes, fmt.Sprintf("file %q, flags good: %v", v.name, ok))
	if r.code == 0 {
		want := []string{"file.bin"}
		if v.name != "good, one file" {
			want = nil
		}
		if v.name == "good, several files" {
			want = []string{"dir"}
		}
		for _, w := range want {
			if !strings.Contains(r.out, w) {
				x.Fail("output", "the metadata is not printed: %v", r)
			}
		}
	}
	x.Outcome(v.name, pre, post, r.code)
}

// What the bencode command prints: every combination of the keys of a torrent file.
func TestPrinted(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "printed metadata", ShardDepth: 3}, func(x *vrt.X) {
		l := &vtor.Layout{Name: "some-name", Single: true, Files: []vtor.File{{Len: 77}}, PieceLen: 123457, Announce: "http://first.example/announce"}
		want := []string{"some-name", "123457", "http://first.example/announce"}
		if x.Bool("files") {
			l.Single = false
			l.Files = []vtor.File{{"file-a", 5}, {"dir-x/file-b", 6}, {"dir-x/dir-y/file-c", 123}}
			want = append(want, "file-a", "dir-x", "file-b", "dir-y", "file-c", "123")
		} else {
			want = append(want, "77")
		}
		d := vben.D().Set("announce", vben.S(l.Announce))
		switch x.Choose(4, "announce list") {
		case 1:
			d.Set("announce-list", vben.L(vben.L(vben.S("http://second.example/"))))
			want = append(want, "http://second.example/")
		case 2:
			d.Set("announce-list", vben.L(vben.L(vben.S("http://second.example/"), vben.S("udp://third.example:1")), vben.L(vben.S("http://fourth.example/"))))
			want = append(want, "http://second.example/", "udp://third.example:1", "http://fourth.example/")
		case 3:
			d.Set("announce-list", vben.L())
		}
		if x.Bool("comment") {
			d.Set("comment", vben.S("a few words"))
			want = append(want, "a few words")
		}
		if x.Bool("created by") {
			d.Set("created by", vben.S("somebody 1.2"))
			want = append(want, "somebody 1.2")
		}
		if x.Bool("creation date") {
			d.Set("creation date", vben.I(1700000000))
			want = append(want, "2023-11-14")
		}
		if x.Bool("url-list") {
			d.Set("url-list", vben.L(vben.S("http://seed1.example/x"), vben.S("http://seed2.example/y")))
			want = append(want, "http://seed1.example/x", "http://seed2.example/y")
		}
		info := l.Info(make([]byte, 20))
		d.Set("info", info)
		h := sha1.Sum([]byte(info.Enc()))
		dir := scratch()
		defer os.RemoveAll(dir)
		r := run(x, dir, time.Minute, nil, "bencode", write(dir, "in.torrent", []byte(d.Enc())))
		r.expect(x, true, "a good torrent file")
		for _, s := range want {
			if !strings.Contains(r.out, s) {
				x.Fail("output", "%q is not printed: %v", s, r)
			}
		}
		if !strings.Contains(r.out, base64.URLEncoding.EncodeToString(h[:])) && !strings.Contains(r.out, base64.StdEncoding.EncodeToString(h[:])) && !strings.Contains(strings.ToLower(r.out), hex.EncodeToString(h[:])) {
			x.Fail("output", "the info-hash is not printed: %v", r)
		}
		x.Outcome(want)
	})
}

// Downloads that are refused: every file, output directory and log flag.
func TestRefused(t *testing.T) {
	vs := variants()
	outs := []string{"dir", "missing", "file", "taken", "none", "empty"}
	vrt.Explore(t, vrt.Opts{Section: "refused downloads", ShardDepth: 3}, func(x *vrt.X) {
		v := vs[x.Choose(len(vs), "file")]
		out := outs[x.Choose(len(outs), "out")]
		lg := x.Choose(5, "log")
		num := x.Choose(3, "num")
		d := scratch()
		defer os.RemoveAll(d)
		args := [][]string{nil, {"-l", "silent"}, {"-l", "debug", "--log-format", "json"}, {"-l", "bogus"}, {"--log-format", "bogus"}}[lg]
		args = append(args, "download")
		args = append(args, [][]string{nil, {"-n", "3", "-p", "7000"}, {"-n", "x"}}[num]...)
		if v.opens && out == "dir" && lg < 3 && num < 2 {
			x.Outcome("accepted") // see the other sections
			return
		}
		o := filepath.Join(d, "out")
		switch out {
		case "dir":
			os.Mkdir(o, 0o755)
			write(o, "keep", []byte("keep"))
			write(o, "zzz", []byte("zzz"))
		case "taken": // the target is a directory
			os.MkdirAll(filepath.Join(o, "file.bin", "x"), 0o755)
			os.MkdirAll(filepath.Join(o, "dir", "a"), 0o755)
		case "file":
			write(d, "out", []byte("file"))
		}
		if out == "empty" {
			args = append(args, "-o", "")
		} else if out != "none" {
			args = append(args, "-o", o)
		}
		p := put(d, v)
		before := list(d)
		r := run(x, d, time.Minute, nil, append(args, p)...)
		r.expect(x, false, fmt.Sprintf("file %q, out %q, log %d, num %d: the download has to be refused", v.name, out, lg, num))
		if after := list(d); after != before && !(v.opens && out == "taken") {
			x.Fail("touched", "a refused download changes files: %s, then %s: %v", before, after, r)
		}
		x.Outcome(v.name, out, lg, num, r.code)
	})
}

// Other command lines.
func TestCommands(t *testing.T) {
	type c struct {
		args []string
		ok   bool
		out  string
	}
	cs := []c{
		{[]string{"version"}, true, "Commit"},
		{[]string{"version", "-l", "debug"}, true, "Commit"},
		{[]string{"help"}, true, "download"},
		{[]string{"--help"}, true, "download"},
		{[]string{"help", "download"}, true, "num-peer"},
		{[]string{"download", "--help"}, true, "num-peer"},
		{[]string{"bencode", "-h"}, true, "bencode"},
		{[]string{"bogus"}, false, ""},
		{[]string{"bencode"}, false, ""},
		{[]string{"bencode", "a", "b"}, false, ""},
		{[]string{"download"}, false, ""},
		{[]string{"download", "-o", "."}, false, ""},
		{[]string{"download", "-o", ".", "a", "b"}, false, ""},
		{[]string{"download", "a"}, false, ""},
		{[]string{"download", "--bogus"}, false, ""},
		{[]string{"bencode", "--bogus", "a"}, false, ""},
		{[]string{"--bogus"}, false, ""},
		{[]string{"download", "-o"}, false, ""},
		{[]string{"bencode", "-l"}, false, ""},
		{[]string{"download", "-o", ".", "-p", "x", "a"}, false, ""},
		{[]string{"bencode", ""}, false, ""},
	}
	vrt.Explore(t, vrt.Opts{Section: "other command lines"}, func(x *vrt.X) {
		k := cs[x.Choose(len(cs), "command")]
		d := scratch()
		defer os.RemoveAll(d)
		r := run(x, d, time.Minute, nil, k.args...)
		r.expect(x, k.ok, "command line")
		if !strings.Contains(r.out, k.out) {
			x.Fail("output", "%q is not printed: %v", k.out, r)
		}
		x.Outcome(k.args, r.code)
	})
	// config files
	vrt.Explore(t, vrt.Opts{Section: "config files"}, func(x *vrt.X) {
		cfg := x.Choose(6, "config")
		home := x.Choose(3, "home")
		cmd := x.Choose(3, "command")
		d := scratch()
		defer os.RemoveAll(d)
		p := write(d, "in.torrent", single.TorrentFile())
		good := cmd == 0
		free := home == 2 // a broken file that was not asked for
		args := [][]string{{"bencode", p}, {"bencode", p + "x"}, {"download", "-o", filepath.Join(d, "no"), p}}[cmd]
		switch cfg {
		case 1:
			args = append(args, "--config", write(d, "c.yaml", []byte("log:\n  level: info\n  format: json\n")))
		case 2:
			args = append(args, "--config", write(d, "c.yaml", []byte("")))
		case 3:
			args = append(args, "--config", filepath.Join(d, "missing.yaml"))
			good = false
		case 4:
			args = append(args, "--config", write(d, "c.yaml", []byte("\tlog: [\n\x00")))
			good = false
		case 5:
			args = append(args, "--config", d)
			good = false
		}
		switch home {
		case 1:
			write(d, ".gotit.yaml", []byte("log:\n  level: error\n"))
		case 2:
			write(d, ".gotit.yaml", []byte("\tlog: [\n\x00"))
		}
		r := run(x, d, time.Minute, nil, args...)
		if !free || !good {
			r.expect(x, good, fmt.Sprintf("config %d, home %d, command %d", cfg, home, cmd))
		}
		x.Outcome(cfg, home, cmd, r.code)
	})
}

// swarm is a real tracker and seed on the loopback interface.
type swarm struct {
	tracker  net.Listener
	peer     net.Listener
	l        *vtor.Layout
	hash     []byte
	asked    chan struct{}
	requests atomic.Int64
	srv      *http.Server
	corrupt  bool
	more     string // more peers, compact
	mu       sync.Mutex
	queries  []url.Values
}

func newSwarm(l *vtor.Layout, seed, corrupt bool, more ...string) *swarm {
	s := &swarm{asked: make(chan struct{}, 100), corrupt: corrupt}
	var err error
	for k := 0; k < 2; k++ {
		ln, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			err = e
			break
		}
		if k == 0 {
			s.tracker = ln
		} else {
			s.peer = ln
		}
	}
	if err != nil {
		panic(err)
	}
	c := *l
	c.Announce = "http://" + s.tracker.Addr().String() + "/announce"
	for _, m := range more {
		c.List = append(c.List, []string{m})
	}
	s.l = &c
	s.hash = c.Meta().Hash()
	port := s.peer.Addr().(*net.TCPAddr).Port
	s.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ps := ""
		if seed {
			ps = string([]byte{127, 0, 0, 1, byte(port >> 8), byte(port)})
		}
		s.mu.Lock()
		s.queries = append(s.queries, r.URL.Query())
		s.mu.Unlock()
		ps += s.more
		w.Write([]byte(vben.D().Set("interval", vben.I(60)).Set("peers", vben.S(ps)).Enc()))
		s.asked <- struct{}{}
	})}
	go s.srv.Serve(s.tracker)
	go func() {
		for {
			c, err := s.peer.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *swarm) serve(c net.Conn) {
	defer c.Close()
	var buf []byte
	b := make([]byte, 4096)
	shaken, greeted := false, false
	for {
		n, err := c.Read(b)
		if err != nil {
			return
		}
		buf = append(buf, b[:n]...)
		if !shaken {
			if len(buf) < 68 {
				continue
			}
			buf = buf[68:]
			shaken = true
			c.Write(vnet.Handshake(s.hash, "-XX0001-remoteremote"))
		}
		var ms []vnet.M
		ms, buf = vnet.Split(buf)
		for _, m := range ms {
			switch {
			case m.Keep:
			case m.ID == 2 && !greeted:
				greeted = true
				bf := make([]byte, (s.l.Pieces()+7)/8)
				for i := range bf {
					bf[i] = 0xff
				}
				c.Write(vnet.Bitfield(bf...))
				c.Write(vnet.Unchoke())
			case m.ID == 6:
				s.requests.Add(1)
				i, o, n := int(m.U(0)), int(m.U(1)), int(m.U(2))
				if i < s.l.Pieces() && o+n <= s.l.PieceSize(i) {
					d := s.l.Piece(i)[o : o+n]
					if s.corrupt {
						d[0] ^= 1
					}
					c.Write(vnet.Piece(m.U(0), m.U(1), d))
				}
			}
		}
	}
}

func (s *swarm) close() { s.srv.Close(); s.peer.Close() }

var (
	ansi  = regexp.MustCompile("\x1b\\[[0-9;]*m")
	lvlRe = regexp.MustCompile(`\b(DEBUG|INFO|WARN|ERROR|DPANIC|PANIC|FATAL)\b`)
)

var rank = map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "DPANIC": 4, "PANIC": 4, "FATAL": 4}

// Real downloads with every log level and format.
func TestDownload(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "downloads"}, func(x *vrt.X) {
		l := x.Choose(7, "level") // 0: default
		f := x.Choose(4, "format")
		lay := []*vtor.Layout{single, multi}[(l+f)%2]
		s := newSwarm(lay, true, false, "gopher://nowhere/")
		defer s.close()
		d := scratch()
		defer os.RemoveAll(d)
		o := filepath.Join(d, "out")
		os.Mkdir(o, 0o755)
		p := write(d, "in.torrent", s.l.TorrentFile())
		level, format := "info", "color"
		var args []string
		if l > 0 {
			level = levels[l-1].v
			args = append(args, "--log-level", level)
		}
		if f > 0 {
			format = formats[f-1].v
			args = append(args, "--log-format", format)
		}
		r := run(x, d, time.Minute, nil, append(args, "download", "-o", o, p)...)
		r.expect(x, true, "a seed offers everything")
		if why := s.l.Verify(o, nil); why != "" {
			x.Fail("content", "the download succeeded, but %s: %v", why, r)
		}
		seen := map[string]int{}
		colored := 0
		n := 0
		for _, line := range strings.Split(strings.TrimSpace(r.err), "\n") {
			if strings.TrimSpace(line) == "" {
				continue
			}
			plain := ansi.ReplaceAllString(line, "")
			lv := lvlRe.FindString(plain)
			if format == "json" {
				var m map[string]any
				if err := json.Unmarshal([]byte(line), &m); err != nil {
					x.Fail("format", "a log line is not JSON: %q: %v", line, r)
				}
				lv, _ = m["level"].(string)
				lv = strings.ToUpper(lv)
			} else if strings.HasPrefix(line, "{") {
				x.Fail("format", "a log line is JSON instead of %s: %q: %v", format, line, r)
			}
			if plain != line {
				colored++
			}
			seen[lv]++
			n++
		}
		if level == "silent" && n > 0 {
			x.Fail("level", "a silent download logs: %v", r)
		}
		min := map[string]int{"debug": 0, "trace": 0, "info": 1, "warning": 2, "error": 3, "silent": 9}[level]
		for lv := range seen {
			if k, ok := rank[lv]; ok && k < min {
				x.Fail("level", "%s messages at level %s: %v", lv, level, r)
			}
		}
		// an unusable tracker is an error, the announce is worth a notice, the requests are details
		if level != "silent" && seen["ERROR"]+seen["WARN"] == 0 || min <= 1 && seen["INFO"] == 0 || min == 0 && seen["DEBUG"] == 0 {
			x.Fail("level", "no messages of level %s: %v", level, r)
		}
		if format == "text" && colored > 0 {
			x.Fail("format", "plain text is coloured: %v", r)
		}
		if format == "color" && n > 0 && colored == 0 {
			x.Fail("format", "coloured text is not coloured: %v", r)
		}
		x.Outcome(level, format, r.code, n > 0)
	})
}

// The port and the number of peers.
func TestNumbers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "port and number of peers"}, func(x *vrt.X) {
		n := x.Choose(4, "num") // 0: default
		pt := x.Choose(4, "port")
		long := x.Bool("long")
		s := newSwarm(multi, true, false)
		defer s.close()
		var others atomic.Int64
		for k := 0; k < 4; k++ { // peers that never offer anything
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			defer ln.Close()
			port := ln.Addr().(*net.TCPAddr).Port
			s.more += string([]byte{127, 0, 0, 1, byte(port >> 8), byte(port)})
			go func() {
				for first := true; ; {
					c, err := ln.Accept()
					if err != nil {
						return
					}
					defer c.Close()
					if first {
						others.Add(1)
						first = false
					}
					c.Write(vnet.Handshake(s.hash, "-XX0001-remoteremote"))
				}
			}()
		}
		d := scratch()
		defer os.RemoveAll(d)
		o := filepath.Join(d, "out")
		os.Mkdir(o, 0o755)
		p := write(d, "in.torrent", s.l.TorrentFile())
		args := []string{"-l", "silent", "download", "-o", o}
		limit, want := int64(30), "6666"
		if n > 0 {
			limit = int64(n)
			args = append(args, [2]string{"-n", "--num-peer"}[b2i(long)], fmt.Sprint(n))
		}
		if pt > 0 {
			want = []string{"", "1", "65535", "40123"}[pt]
			args = append(args, [2]string{"-p", "--port"}[b2i(long)], want)
		}
		r := run(x, d, time.Minute, nil, append(args, p)...)
		r.expect(x, true, "a seed offers everything")
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, q := range s.queries {
			if got := q.Get("port"); got != want {
				x.Fail("port", "port %q is announced instead of %s: %v", got, want, r)
			}
		}
		if got := 1 + others.Load(); got > limit {
			x.Fail("num", "%d peers are connected to, the limit is %d: %v", got, limit, r)
		}
		x.Outcome(n, pt, long, r.code)
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Interrupted downloads fail.
func TestInterrupt(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "interrupted downloads"}, func(x *vrt.X) {
		sig := vrt.Of(x, "signal", syscall.SIGINT, syscall.SIGTERM)
		kind := x.Choose(3, "swarm") // nobody, a corrupt peer, a silent tracker
		lg := x.Choose(2, "log")
		s := newSwarm(single, kind == 1, kind == 1)
		defer s.close()
		d := scratch()
		defer os.RemoveAll(d)
		o := filepath.Join(d, "out")
		os.Mkdir(o, 0o755)
		if kind == 2 { // a tracker that never answers
			u, err := net.ListenPacket("udp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			defer u.Close()
			go func() {
				b := make([]byte, 100)
				if _, _, err := u.ReadFrom(b); err == nil {
					s.asked <- struct{}{}
				}
			}()
			s.l.Announce = "udp://" + u.LocalAddr().String()
		}
		p := write(d, "in.torrent", s.l.TorrentFile())
		r := run(x, d, 2*time.Minute, func(pr *os.Process) {
			select {
			case <-s.asked:
			case <-time.After(30 * time.Second):
			}
			time.Sleep(300 * time.Millisecond)
			pr.Signal(sig)
		}, append([][]string{{"-l", "silent"}, {"-l", "debug"}}[lg], "download", "-o", o, p)...)
		r.expect(x, false, "the download was interrupted before it was complete")
		x.Outcome(sig, kind, lg, r.code)
	})
}

// Torrent files of any size: sizes around the powers of two up to several MB, made of a long
// comment, many pieces, many files or unknown keys, complete or without the last byte.
func TestLarge(t *testing.T) {
	sizes := []int{4 << 10, 32 << 10, 64 << 10, 128 << 10, 256 << 10, 512 << 10, 1 << 20, 2 << 20, 4 << 20, 8 << 20}
	if vrt.Thorough() {
		sizes = append(sizes, 10<<20, 16<<20, 32<<20)
	}
	vrt.Explore(t, vrt.Opts{Section: "large torrent files"}, func(x *vrt.X) {
		size := sizes[x.Choose(len(sizes), "size")]
		kind := x.Choose(4, "made of")
		off := x.Choose(3, "offset") - 1
		cut := x.Bool("cut")
		download := x.Bool("download")
		lay := *single
		d := vben.D()
		pad := "comment"
		switch kind {
		case 1: // pieces of one byte
			lay.PieceLen = 1
			n := size / 21
			if download {
				n = min(n, 3000)
			}
			lay.Files = []vtor.File{{Len: n}}
		case 2: // small files, in directories of 100
			lay = *multi
			lay.Files = nil
			n := size / 50
			if download {
				n = min(n, 300)
			}
			for i := 0; i < n; i++ {
				lay.Files = append(lay.Files, vtor.File{Path: fmt.Sprintf("d%04d/f%07d", i/100, i), Len: i % 3})
			}
			lay.PieceLen = 64
			if !download {
				lay.PieceLen = 1 << 20
			}
		case 3:
			pad = "x-unknown"
		}
		s := newSwarm(&lay, true, false)
		defer s.close()
		info := s.l.Info(s.l.Hashes())
		build := func(n int) string {
			return d.Set("announce", vben.S(s.l.Announce)).Set("info", info).Set(pad, vben.S(strings.Repeat("y", n))).Enc()
		}
		// a file of exactly size+off bytes
		n := size + off - len(build(0))
		var b string
		for n > 0 {
			if b = build(n); len(b) <= size+off {
				break
			}
			n -= len(b) - size - off
		}
		if n <= 0 || len(b) != size+off { // a number that has no such size
			b = build(max(n, 0))
		}
		if cut {
			b = b[:len(b)-1]
		}
		dir := scratch()
		defer os.RemoveAll(dir)
		p := write(dir, "in.torrent", []byte(b))
		if !download {
			r := run(x, dir, 2*time.Minute, nil, "bencode", p)
			r.expect(x, !cut, fmt.Sprintf("a torrent file of %d bytes, cut: %v", len(b), cut))
			if r.code == 0 && !strings.Contains(r.out, s.l.Name) {
				x.Fail("output", "the metadata is not printed: %v", r)
			}
		} else {
			o := filepath.Join(dir, "out")
			os.Mkdir(o, 0o755)
			r := run(x, dir, 2*time.Minute, nil, "-l", "silent", "download", "-o", o, p)
			r.expect(x, !cut, fmt.Sprintf("a torrent file of %d bytes, cut: %v", len(b), cut))
			if cut {
				if got := list(o); got != "" {
					x.Fail("touched", "a refused download writes %.300s: %v", got, r)
				}
			} else if why := s.l.Verify(o, nil); why != "" {
				x.Fail("content", "the download succeeded, but %s: %v", why, r)
			}
		}
		x.Outcome(size, kind, off, cut, download)
	})
}
