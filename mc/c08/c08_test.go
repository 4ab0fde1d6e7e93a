package c08

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C08") }

func write(t *torrent.Torrent, total int, msgs ...*util.PeerMessage) {
	ch := make(chan *util.PeerMessage, len(msgs))
	for _, m := range msgs {
		ch <- m
	}
	close(ch)
	t.WritePiece(ch, stats.NewStats(uint64(total)))
}

var names = []string{"a", "b/c", "d/e/f", "g", "b/h"}

func run(x *vrt.X, l *vtor.Layout, msgs []*util.PeerMessage, upTo int) {
	dir := vtor.TempDir(vrt.Scratch())
	defer os.RemoveAll(dir)
	t, err := l.Open(dir)
	if err != nil {
		x.Fail("refused", "torrent with files %v, piece length %d is refused: %v", l.Files, l.PieceLen, err)
	}
	defer t.Close()
	write(t, l.Total(), msgs...)
	if d := l.Verify(dir, nil); d != "" {
		x.Fail("content", "files %v, single %v, piece length %d: after writing all pieces: %s", l.Files, l.Single, l.PieceLen, d)
	}
	before := vtor.Snapshot(dir)
	x.Outcome(before)
	write(t, l.Total(), msgs...)
	if vtor.Snapshot(dir) != before {
		x.Fail("rewrite", "files %v, piece length %d: writing the pieces again changed the files", l.Files, l.PieceLen)
	}
}

// TestLayouts: every layout of up to n files of small sizes with every piece length, every order of
// the pieces (as far as there are few) and pieces in one or in two parts.
func TestLayouts(t *testing.T) {
	maxFiles, maxLen, maxPL := vrt.Pick(3, 4), 4, 6
	vrt.Explore(t, vrt.Opts{Section: "layouts", ShardDepth: 3}, func(x *vrt.X) {
		l := &vtor.Layout{Name: "t", PieceLen: 1 + x.Choose(maxPL, "piece length"), Announce: "http://t/"}
		n := x.Choose(maxFiles+1, "files")
		if n == 0 {
			l.Single = true
			l.Files = []vtor.File{{Path: "", Len: 1 + x.Choose(12, "length")}}
		} else {
			for i := 0; i < n; i++ {
				l.Files = append(l.Files, vtor.File{Path: names[i], Len: x.Choose(maxLen+1, "length")})
			}
		}
		np := l.Pieces()
		if l.Total() == 0 {
			return
		}
		var order []int
		if np <= vrt.Pick(3, 4) {
			order = x.Permutation(np, "order")
		} else {
			r := x.Choose(np, "rotate")
			rev := x.Bool("reverse")
			for i := 0; i < np; i++ {
				j := (i + r) % np
				if rev {
					j = np - 1 - j
				}
				order = append(order, j)
			}
		}
		var msgs []*util.PeerMessage
		split := x.Bool("two parts")
		for _, i := range order {
			p := l.Piece(i)
			if split && len(p) > 1 {
				h := len(p) / 2
				msgs = append(msgs, vtor.Msg(uint32(i), 0, p[:h]), vtor.Msg(uint32(i), uint32(h), p[h:]))
			} else {
				msgs = append(msgs, vtor.Msg(uint32(i), 0, p))
			}
		}
		run(x, l, msgs, np)
	})
}

// TestManyFiles: one piece over many files, runs of empty files at every place.
func TestManyFiles(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many-files", ShardDepth: 2}, func(x *vrt.X) {
		n := vrt.Of(x, "files", 5, 6, 8)
		mask := x.Choose(1<<n, "which files are empty")
		size := vrt.Of(x, "size", 1, 3)
		l := &vtor.Layout{Name: "many", PieceLen: vrt.Of(x, "piece length", 1, 2, 4, 7, 64), Announce: "http://t/"}
		for i := 0; i < n; i++ {
			s := size
			if mask>>i&1 == 1 {
				s = 0
			}
			l.Files = append(l.Files, vtor.File{Path: fmt.Sprintf("f%d", i), Len: s})
		}
		if l.Total() == 0 {
			return
		}
		var msgs []*util.PeerMessage
		rev := x.Bool("reverse")
		for i := 0; i < l.Pieces(); i++ {
			j := i
			if rev {
				j = l.Pieces() - 1 - i
			}
			msgs = append(msgs, l.Msg(j))
		}
		run(x, l, msgs, l.Pieces())
	})
}

// TestRealSizes: real piece lengths and file sizes around their multiples.
func TestRealSizes(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "real-sizes", ShardDepth: 2}, func(x *vrt.X) {
		pl := vrt.Of(x, "piece length", 16384, 65536, 131072)
		a := vrt.Of(x, "first file", 0, 1, pl-1, pl, pl+1, 2*pl)
		b := vrt.Of(x, "second file", 0, 1, pl/2, pl-1, pl)
		c := vrt.Of(x, "third file", 0, 100, pl)
		l := &vtor.Layout{Name: "real", PieceLen: pl, Announce: "http://t/", Files: []vtor.File{{Path: "1", Len: a}, {Path: "2/2", Len: b}, {Path: "3", Len: c}}}
		if l.Total() == 0 {
			return
		}
		var msgs []*util.PeerMessage
		for i := l.Pieces() - 1; i >= 0; i-- {
			msgs = append(msgs, l.Msg(i))
		}
		run(x, l, msgs, l.Pieces())
	})
}

const gib = 1 << 30

// TestLarge: totals beyond 2 and 4 GiB (sparse files): pieces near all boundaries land at their place.
func TestLarge(t *testing.T) {
	layouts := [][]int{{5 * gib}, {2*gib - 1, 3}, {4*gib - 2, 7, gib}, {3 * gib, 0, 3 * gib}, {1, 4 * gib, 1, 1}, {2 * gib, 2 * gib, 2*gib + 5}, {9*gib + 1}}
	vrt.Explore(t, vrt.Opts{Section: "beyond-4GiB", ShardDepth: 2}, func(x *vrt.X) {
		fs := layouts[x.Choose(len(layouts), "layout")]
		pl := vrt.Of(x, "piece length", 1<<20, 1<<22, 128*1024)
		l := &vtor.Layout{Name: "big", PieceLen: pl, Announce: "http://t/", Single: len(fs) == 1}
		if l.Single {
			l.Files = []vtor.File{{Len: fs[0]}}
		} else {
			for i, n := range fs {
				l.Files = append(l.Files, vtor.File{Path: fmt.Sprintf("f%d", i), Len: n})
			}
		}
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		t, err := newBig(l, dir)
		if err != nil {
			x.Fail("refused", "files %v piece length %d refused: %v", fs, pl, err)
		}
		defer t.Close()
		// pieces around every boundary
		set := map[int]bool{0: true, l.Pieces() - 1: true, l.Pieces() / 2: true}
		for _, b := range []int{2 * gib, 4 * gib} {
			for d := -1; d <= 1; d++ {
				set[b/pl+d] = true
			}
		}
		pos := 0
		for _, n := range fs {
			pos += n
			for d := -1; d <= 1; d++ {
				set[pos/pl+d] = true
			}
		}
		// a short stretch of each of these pieces
		type st struct{ piece, off, n int }
		var sts []st
		for i := range l.Pieces() {
			if set[i] {
				sz := l.PieceSize(i)
				for _, o := range []int{0, sz / 2, sz - 1} {
					if o >= 0 && o < sz {
						sts = append(sts, st{i, o, min(64, sz-o)})
					}
				}
				// the stretch over a file boundary
				p := 0
				for _, n := range fs {
					p += n
					if p/pl == i && p%pl > 3 && p+3 < l.Total() && p%pl+3 < sz {
						sts = append(sts, st{i, p%pl - 3, 6})
					}
				}
			}
		}
		var msgs []*util.PeerMessage
		for _, s := range sts {
			b := make([]byte, s.n)
			for j := range b {
				b[j] = l.Byte(s.piece*pl + s.off + j)
			}
			msgs = append(msgs, vtor.Msg(uint32(s.piece), uint32(s.off), b))
		}
		write(t, l.Total(), msgs...)
		// read back: exactly these stretches
		paths := l.Paths(dir)
		total := 0
		readAt := func(p int) byte {
			for i, n := range fs {
				if p < n {
					f, err := os.Open(paths[i])
					if err != nil {
						x.Fail("content", "%v", err)
					}
					defer f.Close()
					b := []byte{0}
					f.ReadAt(b, int64(p))
					return b[0]
				}
				p -= n
			}
			return 0
		}
		for _, s := range sts {
			for _, j := range []int{0, s.n / 2, s.n - 1} {
				p := s.piece*pl + s.off + j
				if g := readAt(p); g != l.Byte(p) {
					x.Fail("content", "files %v piece length %d: position %d (piece %d) is %#x instead of %#x", fs, pl, p, s.piece, g, l.Byte(p))
				}
			}
			total += s.n
		}
		for i, p := range paths {
			fi, err := os.Stat(p)
			if err != nil || fi.Size() > int64(fs[i]) {
				x.Fail("size", "files %v: file %d has size %d", fs, i, fi.Size())
			}
		}
		// nothing but the stretches was written: count the non-zero bytes of the allocated parts
		got := 0
		for _, p := range paths {
			got += nonZero(p)
		}
		want := map[int]bool{}
		for _, s := range sts {
			for j := 0; j < s.n; j++ {
				want[s.piece*pl+s.off+j] = true
			}
		}
		if got != len(want) {
			x.Fail("elsewhere", "files %v piece length %d: %d bytes are set, %d were written", fs, pl, got, len(want))
		}
		x.Outcome(fs, pl, got)
	})
}

func newBig(l *vtor.Layout, dir string) (*torrent.Torrent, error) {
	m := l.MetaH(bytes.Repeat([]byte("h"), 20*l.Pieces()))
	return torrent.New(m, dir, nop)
}

// TestStale: files that are there already, longer or shorter, are rebuilt all the same.
func TestStale(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "existing files", ShardDepth: 2}, func(x *vrt.X) {
		l := &vtor.Layout{Name: "t", PieceLen: 1 + x.Choose(5, "piece length"), Announce: "http://t/"}
		n := x.Choose(4, "files")
		if n == 0 {
			l.Single = true
			l.Files = []vtor.File{{Len: 1 + x.Choose(6, "length")}}
		}
		for i := 0; i < n; i++ {
			l.Files = append(l.Files, vtor.File{Path: names[i], Len: x.Choose(4, "length")})
		}
		if l.Total() == 0 {
			return
		}
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		for i, p := range l.Paths(dir) {
			k := x.Choose(4, "old length")
			if k == 0 {
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0o777)
			if err := os.WriteFile(p, bytes.Repeat([]byte{0xee}, l.Files[i].Len+[]int{0, -1, 1, 9}[k]+1), 0o666); err != nil {
				panic(err)
			}
		}
		t, err := l.Open(dir)
		if err != nil {
			x.Fail("refused", "torrent with files %v, piece length %d is refused over existing files: %v", l.Files, l.PieceLen, err)
		}
		defer t.Close()
		var msgs []*util.PeerMessage
		for i := 0; i < l.Pieces(); i++ {
			msgs = append(msgs, l.Msg(i))
		}
		write(t, l.Total(), msgs...)
		if d := l.Verify(dir, nil); d != "" {
			x.Fail("content", "files %v, single %v, piece length %d over existing files: after writing all pieces: %s", l.Files, l.Single, l.PieceLen, d)
		}
		x.Outcome(l.PieceLen, vtor.Snapshot(dir))
	})
}
