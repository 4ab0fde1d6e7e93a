// Package vtor makes torrents: layouts, contents, metadata, and reads back what was stored.
package vtor

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vnet"
)

// File of a layout.
type File struct {
	Path string // with slashes
	Len  int
}

// Layout of a torrent.
type Layout struct {
	Name     string
	Single   bool
	Files    []File // one for a single-file torrent (Path ignored)
	PieceLen int
	Announce string
	List     [][]string
	Same     bool // all pieces have the same content
	Salt     int  // another content
}

// Total length.
func (l *Layout) Total() int {
	n := 0
	for _, f := range l.Files {
		n += f.Len
	}
	return n
}

// Pieces is the number of pieces.
func (l *Layout) Pieces() int { return (l.Total() + l.PieceLen - 1) / l.PieceLen }

// PieceSize is the length of piece i.
func (l *Layout) PieceSize(i int) int { return min(l.PieceLen, l.Total()-i*l.PieceLen) }

// Byte is the content at a position: all short stretches differ.
func (l *Layout) Byte(i int) byte {
	if l.Same {
		return byte(17 + i%l.PieceLen)
	}
	h := uint64(i+l.Salt)*0x9E3779B97F4A7C15 + 0x1234567
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return byte(h) | 1 // never zero: a hole is told from content
}

// Content is the whole content.
func (l *Layout) Content() []byte {
	b := make([]byte, l.Total())
	for i := range b {
		b[i] = l.Byte(i)
	}
	return b
}

// Piece returns the content of piece i.
func (l *Layout) Piece(i int) []byte {
	b := make([]byte, l.PieceSize(i))
	for j := range b {
		b[j] = l.Byte(i*l.PieceLen + j)
	}
	return b
}

// Hashes of all pieces.
func (l *Layout) Hashes() []byte {
	var h []byte
	for i := 0; i < l.Pieces(); i++ {
		s := sha1.Sum(l.Piece(i))
		h = append(h, s[:]...)
	}
	return h
}

// Info is the info dictionary.
func (l *Layout) Info(hashes []byte) *vben.V {
	d := vben.D()
	if l.Single {
		d.Set("length", vben.I(int64(l.Total())))
	} else {
		fs := vben.L()
		for _, f := range l.Files {
			p := vben.L()
			for _, c := range strings.Split(f.Path, "/") {
				p.L = append(p.L, vben.S(c))
			}
			fs.L = append(fs.L, vben.D().Set("length", vben.I(int64(f.Len))).Set("path", p))
		}
		d.Set("files", fs)
	}
	return d.Set("name", vben.S(l.Name)).Set("piece length", vben.I(int64(l.PieceLen))).Set("pieces", vben.S(string(hashes)))
}

// TorrentFile is the encoded torrent file.
func (l *Layout) TorrentFile() []byte {
	d := vben.D().Set("announce", vben.S(l.Announce))
	if l.List != nil {
		al := vben.L()
		for _, t := range l.List {
			tl := vben.L()
			for _, u := range t {
				tl.L = append(tl.L, vben.S(u))
			}
			al.L = append(al.L, tl)
		}
		d.Set("announce-list", al)
	}
	d.Set("info", l.Info(l.Hashes()))
	return []byte(d.Enc())
}

// MetaH is the metadata with given hashes.
func (l *Layout) MetaH(hashes []byte) *bencode.Metainfo {
	m := &bencode.Metainfo{Announce: l.Announce, AnnounceList: l.List}
	m.Info.Name = l.Name
	m.Info.PieceLength = int64(l.PieceLen)
	m.Info.Pieces = string(hashes)
	m.InfoDictRaw = []byte(l.Info(hashes).Enc())
	if l.Single {
		m.Info.Length = int64(l.Total())
	} else {
		for _, f := range l.Files {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: strings.Split(f.Path, "/"), Length: f.Len})
		}
	}
	return m
}

// Meta is the metadata.
func (l *Layout) Meta() *bencode.Metainfo { return l.MetaH(l.Hashes()) }

// Open opens the torrent with the output directory dir.
func (l *Layout) Open(dir string) (*torrent.Torrent, error) {
	return torrent.New(l.Meta(), dir, zap.NewNop())
}

// Msg is the piece message with all of piece i.
func (l *Layout) Msg(i int) *util.PeerMessage { return Msg(uint32(i), 0, l.Piece(i)) }

// Msg is a piece message as it comes from the wire.
func Msg(index, off uint32, data []byte) *util.PeerMessage {
	return util.NewPeerMessage(vnet.Piece(index, off, data)[4:])
}

// Paths returns the path of each file below dir.
func (l *Layout) Paths(dir string) []string {
	if l.Single {
		return []string{filepath.Join(dir, l.Name)}
	}
	var ps []string
	for _, f := range l.Files {
		ps = append(ps, filepath.Join(dir, l.Name, filepath.FromSlash(f.Path)))
	}
	return ps
}

// Verify compares the output directory with the content of the pieces in have (all if nil): a
// missing piece must read as zeros or lie beyond the end of the file. It returns "" or what is wrong.
func (l *Layout) Verify(dir string, have func(i int) bool) string {
	want := map[string]bool{}
	off := 0
	for i, p := range l.Paths(dir) {
		want[p] = true
		b, err := os.ReadFile(p)
		if err != nil {
			return fmt.Sprintf("file %d: %v", i, err)
		}
		n := l.Files[i].Len
		if len(b) > n {
			return fmt.Sprintf("file %d (%s) has %d instead of %d bytes", i, l.Files[i].Path, len(b), n)
		}
		for j := 0; j < n; j++ {
			got := byte(0)
			if j < len(b) {
				got = b[j]
			}
			exp := byte(0)
			if have == nil || have((off+j)/l.PieceLen) {
				exp = l.Byte(off + j)
				if j >= len(b) {
					return fmt.Sprintf("file %d (%s) has only %d bytes, position %d (piece %d) is missing", i, l.Files[i].Path, len(b), j, (off+j)/l.PieceLen)
				}
			}
			if got != exp {
				return fmt.Sprintf("file %d (%s) position %d (piece %d) is %#x instead of %#x", i, l.Files[i].Path, j, (off+j)/l.PieceLen, got, exp)
			}
		}
		off += n
	}
	for _, p := range Walk(dir) {
		if !strings.HasSuffix(p, "/") && !want[p] {
			return "unexpected file " + p
		}
	}
	return ""
}

// Walk lists everything below dir, directories with a slash at the end.
func Walk(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		if fi.IsDir() {
			p += "/"
		}
		out = append(out, p)
		return nil
	})
	sort.Strings(out)
	return out
}

// Snapshot lists everything below dir with the contents.
func Snapshot(dir string) string {
	var b bytes.Buffer
	for _, p := range Walk(dir) {
		fmt.Fprintf(&b, "%s", p[len(dir):])
		if !strings.HasSuffix(p, "/") {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %d %x", len(c), sha1.Sum(c))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// TempDir makes a directory below the scratch directory.
func TempDir(scratch string) string {
	d, err := os.MkdirTemp(scratch, "t")
	if err != nil {
		panic(err)
	}
	return d
}

// Stored tells for each piece whether its place reads as zeros (0), as its content (1) or as
// anything else (2), and "" or what else is wrong with the output directory.
func (l *Layout) Stored(dir string) ([]int, string) {
	st := make([]int, l.Pieces())
	zero, full := make([]int, l.Pieces()), make([]int, l.Pieces())
	want := map[string]bool{}
	off := 0
	for i, p := range l.Paths(dir) {
		want[p] = true
		b, err := os.ReadFile(p)
		if err != nil {
			return st, fmt.Sprintf("file %d: %v", i, err)
		}
		n := l.Files[i].Len
		if len(b) > n {
			return st, fmt.Sprintf("file %d (%s) has %d instead of %d bytes", i, l.Files[i].Path, len(b), n)
		}
		for j := 0; j < n; j++ {
			k := (off + j) / l.PieceLen
			switch {
			case j >= len(b) || b[j] == 0:
				zero[k]++
			case b[j] == l.Byte(off+j):
				full[k]++
			}
		}
		off += n
	}
	for k := range st {
		switch l.PieceSize(k) {
		case zero[k]:
		case full[k]:
			st[k] = 1
		default:
			st[k] = 2
		}
	}
	for _, p := range Walk(dir) {
		if !strings.HasSuffix(p, "/") && !want[p] {
			return st, "unexpected file " + p
		}
	}
	return st, ""
}

// OnWrite installs f to be asked before every write to a file below dir; with an error only the first k
// bytes are written and the write fails. The returned function removes it.
func OnWrite(dir string, f func(name string, b []byte, off int64) (k int, err error)) func() {
	os.VerifWriteHook = func(name string, b []byte, off int64) (int, error) {
		if !strings.HasPrefix(name, dir+"/") {
			return 0, nil
		}
		return f(name, b, off)
	}
	return func() { os.VerifWriteHook = nil }
}
