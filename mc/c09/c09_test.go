package c09

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C09") }

type verdict int

const (
	open verdict = iota
	refuse
	either
)

// place judges a path below base: a plain path must be opened, one that ends outside or names no
// file must be refused, and an odd one that ends inside may be treated either way.
func place(base string, parts []string) verdict {
	plain := len(parts) > 0
	for _, c := range parts {
		if strings.Contains(c, "\x00") || len(c) > 255 {
			return refuse
		}
		if c == "" || c == "." || c == ".." || strings.Contains(c, "/") {
			plain = false
		}
	}
	p := filepath.Join(append([]string{"/x/y/z/" + base}, parts...)...)
	if !strings.HasPrefix(p, "/x/y/z/"+base+"/") {
		return refuse
	}
	if plain {
		return open
	}
	return either
}

// clash: plain paths that clash must be refused; odd ones may be.
func clash(v verdict) verdict {
	if v == open {
		return refuse
	}
	return v
}

// judge says what must happen, and the files that must exist.
func judge(name string, files [][]string, single bool) (verdict, []string) {
	v := place("out", []string{name})
	worse := func(w verdict) {
		if w == refuse || v == refuse {
			v = refuse
		} else if w == either {
			v = either
		}
	}
	if single {
		return v, []string{name}
	}
	var out []string
	seen := map[string]bool{}
	for _, f := range files {
		worse(place("tor", f))
		p := filepath.Join(append([]string{name}, f...)...)
		if seen[p] {
			worse(clash(v))
		}
		seen[p] = true
		out = append(out, p)
	}
	// a file that is also a directory
	for a := range seen {
		for b := range seen {
			if strings.HasPrefix(b, a+"/") {
				worse(clash(v))
			}
		}
	}
	return v, out
}

type touched struct{ op, path string }

var errContained = errors.New("refused by the harness: outside the scratch directory")

func check(x *vrt.X, name string, files [][]string, single bool, pre map[string]string) {
	root := vtor.TempDir(vrt.Scratch())
	defer func() { os.VerifFSHook = nil; os.RemoveAll(root) }()
	out := filepath.Join(root, "outer", "out")
	if err := os.MkdirAll(out, 0o777); err != nil {
		panic(err)
	}
	sentinels := []string{filepath.Join(root, "victim"), filepath.Join(root, "outer", "victim"), filepath.Join(root, "outer", "out-victim")}
	for _, s := range sentinels {
		os.WriteFile(s, []byte("precious"), 0o666)
	}
	os.WriteFile(filepath.Join(out, "mine"), []byte("precious"), 0o666)
	keep := []string{"mine"}
	for p, c := range pre {
		os.MkdirAll(filepath.Dir(filepath.Join(out, p)), 0o777)
		os.WriteFile(filepath.Join(out, p), []byte(c), 0o666)
		keep = append(keep, p)
	}
	before := vtor.Walk(root)
	var outside []touched
	os.VerifFSHook = func(op, path string, flag int) error {
		if op == "open" && flag&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) == 0 {
			return nil
		}
		abs, _ := filepath.Abs(path)
		if abs != out && !strings.HasPrefix(abs, out+"/") {
			outside = append(outside, touched{op, abs})
			if !strings.HasPrefix(abs, root+"/") {
				return errContained
			}
		}
		return nil
	}
	v, want := judge(name, files, single)
	for _, w := range want {
		for p := range pre {
			if v == open && (strings.HasPrefix(p, w+"/") || strings.HasPrefix(w, p+"/")) {
				v = either // a folder or file of the user is in the way
			}
		}
	}
	m := &bencode.Metainfo{Announce: "http://t/"}
	m.Info.Name = name
	m.Info.PieceLength = 16
	m.Info.Pieces = strings.Repeat("h", 20)
	m.InfoDictRaw = []byte("de")
	if single {
		m.Info.Length = 5
	} else {
		for i, f := range files {
			n := 0
			if i == 0 {
				n = 5
			}
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: f, Length: n})
		}
	}
	desc := fmt.Sprintf("name %q, files %q, single %v", name, files, single)
	var t *torrent.Torrent
	var err error
	x.NoCrash("open torrent ("+desc+")", func() { t, err = torrent.New(m, out, zap.NewNop()) })
	os.VerifFSHook = nil
	x.Outcome(v, err == nil, len(outside))
	x.State(desc, pre, err == nil)
	if len(outside) > 0 {
		x.Fail("outside", "%s: touched outside the output directory: %v", desc, outside)
	}
	for _, s := range sentinels {
		if b, _ := os.ReadFile(s); string(b) != "precious" {
			x.Fail("outside", "%s: %s was changed", desc, s)
		}
	}
	entries := vtor.Walk(root)
	for _, p := range entries {
		if p == root+"/victim" || p == root+"/outer/" || p == root+"/outer/victim" || p == root+"/outer/out-victim" || p == out+"/" {
			continue
		}
		if !strings.HasPrefix(p, out+"/") {
			x.Fail("outside", "%s: created %s", desc, p)
		}
	}
	listed := map[string]bool{}
	for _, w := range want {
		listed[filepath.Join(out, w)] = true
	}
	for _, k := range keep {
		p := filepath.Join(out, k)
		b, e := os.ReadFile(p)
		if !listed[p] && (e != nil || string(b) != contentOf(pre, k)) {
			x.Fail("other-file", "%s: file %q of the user was changed or removed", desc, k)
		}
	}
	if err != nil {
		if v == open {
			x.Fail("refused", "%s is refused: %v", desc, err)
		}
		if now := vtor.Walk(root); v == refuse && !long(name, files) && fmt.Sprint(now) != fmt.Sprint(before) {
			x.Fail("refused-created", "%s is refused, but something was created: %v, before %v", desc, strip(now, out), strip(before, out))
		}
		return
	}
	defer t.Close()
	if v == refuse {
		x.Fail("accepted", "%s is accepted; created %v", desc, strip(entries, out))
	}
	if v == either { // opened: then every listed path exists, with its full path
		for _, w := range want {
			if fi, e := os.Stat(filepath.Join(out, w)); e != nil || fi.IsDir() {
				x.Fail("missing", "%s is accepted, but %q is not there as a file (there is %v)", desc, w, strip(entries, out))
			}
		}
	}
	exp := map[string]bool{}
	for _, w := range append(append([]string{}, want...), keep...) {
		exp[w] = true
		for d := filepath.Dir(w); d != "."; d = filepath.Dir(d) {
			exp[d+"/"] = true
		}
	}
	got := strip(entries, out)
	for _, g := range got {
		if !exp[g] && v == open {
			x.Fail("extra", "%s: created %q, which the torrent does not list (there is %v)", desc, g, got)
		}
	}
	for _, w := range want {
		if b, e := os.ReadFile(filepath.Join(out, w)); e != nil || len(b) != 0 {
			x.Fail("missing", "%s: %q is not there as an empty file (there is %v)", desc, w, got)
		}
	}
}

// long says whether only the file system can tell that a path is too long.
func long(name string, files [][]string) bool {
	for _, f := range files {
		for _, c := range f {
			if len(c) > 255 {
				return true
			}
		}
	}
	return len(name) > 255
}

func contentOf(pre map[string]string, k string) string {
	if c, ok := pre[k]; ok {
		return c
	}
	return "precious"
}

func strip(es []string, out string) []string {
	var r []string
	for _, e := range es {
		if strings.HasPrefix(e, out+"/") && e != out+"/" {
			r = append(r, e[len(out)+1:])
		}
	}
	sort.Strings(r)
	return r
}

var comps = []string{"a", "b", "..", ".", "", "/", "/abs", "a/b", "../x", "a/../../x", "...", "..a", "a..", " ", "é", "\\", "..\\x", "a\x00b", "~", "-", "C:", "mine2", "out", "out-victim", "victim", "../victim", "../../victim", "../out-victim", "..//..//victim", "./../victim", "a/..", "a/.", "../out", "../out/a", strings.Repeat("n", 255), strings.Repeat("n", 256)}

// odd but harmless names, many of them easy to confuse with others
var alike = []string{"a", "A", "a ", " a", "a.", "a..", ".a", "a\t", "a\n", "\n", "\r", "a\r", "\x01", "\x7f", "\x80", "\xff", "\xfe", "a\xff", "a\xfe", "\xc3", "\xc3\x28", "é", "e\u0301", "É", "\u00a0", "\u200b", "a\u200b", "\ufeffa",
	"\u202ea", "日本", "\U0001f642", "\ufffd", "%2e%2e", "%2F", "a%20", "$HOME", "~", "~root", "*", "?", "a?", "a*", "[a]", "a:b", "a|b", "<a>", "\"a\"", "'a'", "`a`", "a;b", "a&b", "-a", "--a", "con", "nul.txt", "aux", "a\\b", "\\", "a~1", "_", "-", "__MACOSX", ".git", "a.part", "a.tmp", "a.!ut", "0", "00", "01", "1"}

// TestAlike: every name and every pair of them, as files, folders and names of torrents.
func TestAlike(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "confusable names", ShardDepth: 2}, func(x *vrt.X) {
		a := alike[x.Choose(len(alike), "a")]
		b := alike[x.Choose(len(alike), "b")]
		if a == b {
			if x.Bool("single") {
				check(x, a, nil, true, nil)
			} else {
				check(x, a, [][]string{{a}}, false, nil)
			}
			return
		}
		switch x.Choose(3, "form") {
		case 0:
			check(x, "tor", [][]string{{a}, {b}}, false, nil)
		case 1:
			check(x, "tor", [][]string{{a, "f"}, {b, "f"}}, false, nil)
		case 2:
			check(x, a, [][]string{{b}}, false, nil)
		}
	})
}

// TestNames: every name of the list, single- and multi-file.
func TestNames(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "names", ShardDepth: 2}, func(x *vrt.X) {
		name := comps[x.Choose(len(comps), "name")]
		switch x.Choose(3, "form") {
		case 0:
			check(x, name, nil, true, nil)
		case 1:
			check(x, name, [][]string{{"f"}}, false, nil)
		case 2:
			check(x, name, [][]string{{"d", "f"}, {"g"}}, false, nil)
		}
	})
}

// TestPaths: every path of up to 3 (4) components of a list, in the first or a later file.
func TestPaths(t *testing.T) {
	cs := []string{"a", "b", "..", ".", "", "/", "/etc", "a/b", "../x", "a/../../../victim", "..a", "x\x00y", "out-victim", "../../victim"}
	max := vrt.Pick(3, 4)
	vrt.Explore(t, vrt.Opts{Section: "paths", ShardDepth: 3}, func(x *vrt.X) {
		var p []string
		for i := 0; i < max; i++ {
			c := x.Choose(len(cs)+1, "component")
			if c == len(cs) {
				break
			}
			p = append(p, cs[c])
		}
		switch x.Choose(3, "place") {
		case 0:
			check(x, "tor", [][]string{p}, false, nil)
		case 1:
			check(x, "tor", [][]string{{"ok"}, p}, false, nil)
		case 2:
			check(x, "tor", [][]string{{"ok", "deep"}, p, {"z"}}, false, nil)
		}
	})
	vrt.Explore(t, vrt.Opts{Section: "one-component", ShardDepth: 2}, func(x *vrt.X) {
		c := comps[x.Choose(len(comps), "component")]
		n := x.Choose(3, "prefix")
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, string(rune('k'+i)))
		}
		p = append(p, c)
		if x.Bool("suffix") {
			p = append(p, "leaf")
		}
		check(x, "tor", [][]string{p}, false, nil)
	})
}

// TestTrees: every set of up to 3 (4) plain files at depth up to 3, over existing files and folders.
func TestTrees(t *testing.T) {
	ps := [][]string{{"a"}, {"b"}, {"c", "a"}, {"c", "b"}, {"c", "d", "a"}, {"e", "d", "a"}, {"A"}, {".hidden"}, {"sp ace", "x.y"}, {"c"}, {"c", "d"}, {"a"}, {"ab"}, {"c", "dd", "a"}}
	max := vrt.Pick(3, 4)
	pres := []map[string]string{nil, {"tor/a": "old content", "tor/c/a": "old", "tor/other": "keep", "tor/c/zz": "keep"}, {"tor/other": "keep"}, {"a": "keep", "c/a": "keep"}}
	vrt.Explore(t, vrt.Opts{Section: "trees", ShardDepth: 3}, func(x *vrt.X) {
		pre := pres[x.Choose(len(pres), "existing")]
		rest := append([][]string{}, ps...)
		var fs [][]string
		for i := 0; i < max; i++ {
			c := x.Choose(len(rest)+1, "file")
			if c == len(rest) {
				break
			}
			fs = append(fs, rest[c])
			rest = append(rest[:c:c], rest[c+1:]...)
		}
		if len(fs) == 0 {
			check(x, "tor", nil, true, map[string]string{"tor": "old", "tor2": "keep"})
			return
		}
		check(x, "tor", fs, false, pre)
	})
}
