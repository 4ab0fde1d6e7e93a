package c13

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C13") }

type rig struct {
	x     *vrt.X
	l     *vtor.Layout
	dir   string
	t     *torrent.Torrent
	st    *stats.Stats
	have  []bool
	trace string
	full  *os.File
}

func open(x *vrt.X, l *vtor.Layout) *rig {
	r := &rig{x: x, l: l, dir: vtor.TempDir(vrt.Scratch()), st: stats.NewStats(uint64(l.Total())), have: make([]bool, l.Pieces())}
	t, err := l.Open(r.dir)
	if err != nil {
		x.Fail("open", "a consistent torrent is refused: %v", err)
	}
	r.t = t
	return r
}

func (r *rig) drop() {
	r.t.Close()
	if r.full != nil {
		r.full.Close()
	}
	os.RemoveAll(r.dir)
}

// check compares the reported completion with what was written.
func (r *rig) check() {
	all := true
	for _, h := range r.have {
		all = all && h
	}
	if got := r.t.Done(); got != all {
		if got {
			r.x.Fail("early", "completion is reported, written are %v (%s)", r.have, r.trace)
		}
		r.x.Fail("lost", "everything is written but completion is not reported (%s)", r.trace)
	}
}

// spans tells which non-empty files hold piece i.
func spans(l *vtor.Layout, i int) []int {
	var s []int
	off := 0
	for k, f := range l.Files {
		if off < i*l.PieceLen+l.PieceSize(i) && off+f.Len > i*l.PieceLen && f.Len > 0 {
			s = append(s, k)
		}
		off += f.Len
	}
	return s
}

// breakFile makes every write to file k fail: the disk is full, or the file was closed.
func (r *rig) breakFile(k int, closed bool) (restore func()) {
	old := r.t.OsFiles[k]
	if closed {
		f, err := os.Open(old.Name())
		if err != nil {
			panic(err)
		}
		f.Close()
		r.t.OsFiles[k] = f
	} else {
		if r.full == nil {
			f, err := os.OpenFile("/dev/full", os.O_RDWR, 0)
			if err != nil {
				panic(err)
			}
			r.full = f
		}
		r.t.OsFiles[k] = r.full
	}
	return func() { r.t.OsFiles[k] = old }
}

func (r *rig) write(ms ...*util.PeerMessage) {
	ch := make(chan *util.PeerMessage, len(ms))
	for _, m := range ms {
		ch <- m
	}
	close(ch)
	r.t.WritePiece(ch, r.st)
}

var layouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 3}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 9}}, PieceLen: 4},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 12}}, PieceLen: 4},
	{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 4}}, PieceLen: 3},
	{Name: "t", Files: []vtor.File{{"a", 5}, {"b", 1}, {"c", 2}}, PieceLen: 4},
	{Name: "t", Files: []vtor.File{{"a", 1}, {"b", 1}, {"c", 5}}, PieceLen: 3},
}

// All sequences of deliveries, each written, repeated or failing in any of the files it touches.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of deliveries"}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		closed := x.Bool("fault")
		r := open(x, l)
		defer r.drop()
		n := l.Pieces()
		r.check()
		for k := 0; k < vrt.Pick(n+2, n+3); k++ {
			i := x.Choose(n, "piece")
			sp := spans(l, i)
			f := x.Choose(1+len(sp), "failing file")
			restore := func() {}
			if f > 0 {
				restore = r.breakFile(sp[f-1], closed)
				r.trace += fmt.Sprintf("%d fails in file %d; ", i, sp[f-1])
			} else {
				r.trace += fmt.Sprintf("%d; ", i)
			}
			r.write(l.Msg(i))
			restore()
			if f == 0 {
				r.have[i] = true
			}
			r.check()
		}
		// the rest arrives after all
		for i := range r.have {
			if !r.have[i] {
				r.check()
				r.write(l.Msg(i))
				r.have[i] = true
				r.trace += fmt.Sprintf("%d; ", i)
			}
		}
		r.check()
		if w := l.Verify(r.dir, nil); w != "" {
			x.Fail("content", "completion is reported but: %s (%s)", w, r.trace)
		}
		x.Outcome(l, r.trace)
	})
}

// perm is the k-th order of n things: all orders for n <= 4, rotations and reversals beyond.
func perm(x *vrt.X, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n <= 4 {
		for i := 0; i < n-1; i++ {
			j := i + x.Choose(n-i, "order")
			p[i], p[j] = p[j], p[i]
		}
		return p
	}
	rot, rev := x.Choose(min(n, 6), "rotation"), x.Bool("reversed")
	if rot == 5 {
		rot = n - 1
	}
	for i := range p {
		p[i] = (i + rot) % n
		if rev {
			p[i] = n - 1 - p[i]
		}
	}
	return p
}

// Every small geometry, pieces in every order, one writer that lives through all of it.
func TestGeometry(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "geometries", Bubble: true, ShardDepth: 3}, func(x *vrt.X) {
		pl := 1 + x.Choose(vrt.Pick(5, 8), "piece length")
		total := 1 + x.Choose(vrt.Pick(12, 20), "total")
		cut := x.Choose(3, "files")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: total}}, PieceLen: pl}
		if cut > 0 {
			a := min(total, cut*pl-1)
			l = &vtor.Layout{Name: "t", Files: []vtor.File{{"a", a}, {"b", total - a}}, PieceLen: pl}
		}
		r := open(x, l)
		defer r.drop()
		ord := perm(x, l.Pieces())
		ch := make(chan *util.PeerMessage, 1024)
		end := make(chan struct{})
		go func() { r.t.WritePiece(ch, r.st); close(end) }()
		for _, i := range ord {
			synctest.Wait()
			r.check()
			ch <- l.Msg(i)
			r.trace += fmt.Sprintf("%d; ", i)
			synctest.Wait()
			r.have[i] = true
			r.check()
			ch <- l.Msg(ord[0])
			synctest.Wait()
			r.check()
		}
		close(ch)
		<-end
		r.check()
		x.Outcome(pl, total, cut, r.trace)
	})
}

// Many pieces, around machine words, each of them missing last.
func TestMany(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many pieces"}, func(x *vrt.X) {
		n := vrt.Of(x, "pieces", 5, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 192, 193)
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 3*n - 1}}, PieceLen: 3}
		last := x.Choose(n, "last")
		r := open(x, l)
		defer r.drop()
		for i := 0; i < n; i++ {
			if i == last {
				continue
			}
			r.write(l.Msg(i))
			r.have[i] = true
			if r.t.Done() {
				x.Fail("early", "%d pieces, completion is reported without piece %d", n, last)
			}
		}
		restore := r.breakFile(0, false)
		r.write(l.Msg(last))
		restore()
		r.check()
		r.write(l.Msg(last))
		r.have[last] = true
		r.check()
		x.Outcome(n, last)
	})
}

// Torrents of thousands of pieces, each of some pieces missing last.
func TestThousands(t *testing.T) {
	sizes := []int{255, 256, 257, 1023, 1025, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 66001}
	if vrt.Thorough() {
		sizes = append(sizes, 131071, 131073)
	}
	vrt.Explore(t, vrt.Opts{Section: "thousands of pieces"}, func(x *vrt.X) {
		n := sizes[x.Choose(len(sizes), "pieces")]
		lasts := []int{0, 255, n / 2, n - 257, n - 2, n - 1}
		last := lasts[x.Choose(len(lasts), "last")]
		if last < 0 || last >= n {
			x.Outcome("none")
			return
		}
		falling := x.Bool("falling")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: n}}, PieceLen: 1}
		if x.Bool("files") {
			l = &vtor.Layout{Name: "t", Files: []vtor.File{{"a", n / 3}, {"b", 0}, {"c", n - n/3}}, PieceLen: 1}
		}
		r := open(x, l)
		defer r.drop()
		ch := make(chan *util.PeerMessage)
		end := make(chan struct{})
		go func() { r.t.WritePiece(ch, r.st); close(end) }()
		for k := 0; k < n; k++ {
			i := k
			if falling {
				i = n - 1 - k
			}
			if i == last {
				continue
			}
			ch <- l.Msg(i)
			if r.t.Done() {
				x.Fail("early", "%d pieces, completion is reported without piece %d", n, last)
			}
		}
		for k := 0; k < 3; k++ { // repeated ones do not count
			ch <- l.Msg((last + 1 + k) % n)
		}
		close(ch)
		<-end
		if r.t.Done() {
			x.Fail("early", "%d pieces, completion is reported without piece %d", n, last)
		}
		r.write(l.Msg(last))
		if !r.t.Done() {
			x.Fail("lost", "%d pieces are written but completion is not reported (%d last)", n, last)
		}
		if w := l.Verify(r.dir, nil); w != "" {
			x.Fail("content", "completion is reported but: %s (%d pieces)", w, n)
		}
		x.Outcome(n, last, falling)
	})
}

const kb = 1024

// Piece lengths around multiples of a block with last pieces around them.
func TestBlocks(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "real piece lengths"}, func(x *vrt.X) {
		pl := vrt.Of(x, "piece length", 16*kb, 32*kb, 64*kb, 128*kb, 128*kb+1, 192*kb, 256*kb, 384*kb)
		last := vrt.Of(x, "last piece", 1, 16*kb, 64*kb, 128*kb-1, 128*kb, 128*kb+1, 256*kb, pl-1, pl)
		if last > pl {
			x.Outcome("none")
			return
		}
		full := x.Choose(3, "full pieces")
		l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: full*pl + last}}, PieceLen: pl}
		r := open(x, l)
		defer r.drop()
		for _, i := range perm(x, l.Pieces()) {
			r.check()
			r.write(l.Msg(i))
			r.trace += fmt.Sprintf("%d; ", i)
			r.have[i] = true
			r.check()
			r.write(l.Msg(i))
			r.check()
		}
		x.Outcome(pl, last, full, r.trace)
	})
}

// Whole sessions: completion is reported exactly when everything asked for is verified and stored.
func TestSessions(t *testing.T) {
	ls := []*vtor.Layout{
		{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 4},
		{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 5}}, PieceLen: 3},
		{Name: "t", Single: true, Files: []vtor.File{{Len: 128*kb + 5}}, PieceLen: 256 * kb},
		{Name: "t", Files: []vtor.File{{"a", 130 * kb}, {"b", 66 * kb}}, PieceLen: 129 * kb},
	}
	hs := make([][]byte, len(ls))
	for i := range ls {
		hs[i] = ls[i].Hashes()
	}
	vrt.Explore(t, vrt.Opts{Section: "sessions", Bubble: true}, func(x *vrt.X) {
		k := x.Choose(len(ls), "layout")
		l := ls[k]
		kind := x.Choose(6, "answer")
		s := vsess.NewH(x, l, hs[k])
		defer s.Drop()
		s.Begin()
		s.Push(append(s.All(), vnet.Unchoke()...))
		trace := ""
		done := false
		judge := func() {
			st, w := l.Stored(s.Dir)
			if w != "" {
				x.Fail("files", "%s (%s)", w, trace)
			}
			all := true
			for _, v := range st {
				all = all && v == 1
			}
			d := s.T.Done()
			if d && !all {
				x.Fail("early", "completion is reported, stored are %v (%s)", st, trace)
			}
			if !d && all {
				x.Fail("lost", "every piece is stored but completion is not reported (%s)", trace)
			}
			if done && !d {
				x.Fail("taken-back", "completion is taken back (%s)", trace)
			}
			done = d
		}
		judge()
		for step := 0; step < 6 && !s.Ended; step++ {
			if step > 0 && step < vrt.Pick(3, 4) {
				kind = x.Choose(6, "answer")
			} else if step > 0 {
				kind = 0
			}
			rs := s.Requests()
			if len(rs) == 0 {
				break
			}
			q := rs[len(rs)-1]
			b := s.Answer(q.M)
			switch kind {
			case 1:
				b[len(b)-1] ^= 4
			case 2:
				b = append(b, b...)
			case 3: // the other piece first
				o := (q.U(0) + 1) % uint32(l.Pieces())
				b = append(vnet.Piece(o, 0, l.Piece(int(o))), b...)
			case 4: // choked instead
				b = append(vnet.Choke(), vnet.Unchoke()...)
			case 5: // only a part
				b = vnet.Piece(q.U(0), q.U(1), b[13:len(b)-1])
			}
			trace += fmt.Sprintf("answer %d for piece %d offset %d; ", kind, q.U(0), q.U(1))
			s.Push(b)
			judge()
			s.Sleep(200 * time.Millisecond)
			judge()
		}
		s.Finish()
		judge()
		x.Outcome(l.PieceLen, trace, done)
	})
}

// Interleavings: one or two writers, completion queried and recorded at any moment.
func TestThreads(t *testing.T) {
	l := &vtor.Layout{Name: "t", Files: []vtor.File{{"a", 1}, {"b", 2}}, PieceLen: 2}
	progs := [][]int{{0, 1}, {1, 0}, {0, 0, 1}, {1, 1, 0}, {-1, 0, 1}, {1, -1, 0}}
	vrt.Explore(t, vrt.Opts{Section: "interleavings", Bubble: true, DevBound: vrt.Pick(2, 3), ShardDepth: 2}, func(x *vrt.X) {
		prog := progs[x.Choose(len(progs), "deliveries")]
		writers := 1 + x.Choose(2, "writers")
		readers := 1 + x.Choose(2, "readers")
		set := x.Bool("a piece is recorded from elsewhere")
		if set && writers+readers > 2 && !vrt.Thorough() {
			x.Outcome("left out")
			return
		}
		r := open(x, l)
		defer r.drop()
		// negative entries: piece -k-1, whose write fails (position beyond the files)
		chs := make([]chan *util.PeerMessage, writers)
		for i := range chs {
			chs[i] = make(chan *util.PeerMessage, 8)
		}
		for i, k := range prog {
			m := vtor.Msg(uint32(100), 0, []byte{1, 2})
			if k >= 0 {
				m = l.Msg(k)
			}
			chs[i%writers] <- m
		}
		s := vsched.New(x, vsched.Opts{Delay: writers+readers > 2})
		left := writers
		for i := range chs {
			close(chs[i])
			s.Spawn(fmt.Sprintf("writer %d", i), func() { r.t.WritePiece(chs[i], r.st); left-- })
		}
		stored := func() bool {
			st, _ := l.Stored(r.dir)
			return (set || st[0] == 1) && st[1] == 1
		}
		seen := make([]string, readers)
		for i := 0; i < readers; i++ {
			s.Spawn(fmt.Sprintf("reader %d", i), func() {
				was := false
				for q := 0; q < 2; q++ {
					d := r.t.Done()
					if d && !stored() {
						x.Fail("early", "completion is reported while pieces are missing on disk (%v)", prog)
					}
					if was && !d {
						x.Fail("taken-back", "completion is taken back (%v)", prog)
					}
					was = d
					seen[i] += fmt.Sprint(d, " ")
				}
			})
		}
		if set {
			s.Spawn("recorder", func() { r.t.SetDownloaded(0) })
		}
		s.Run(nil)
		s.Stop()
		if !r.t.Done() {
			x.Fail("lost", "everything is written but completion is not reported (%v, %d writers)", prog, writers)
		}
		x.Outcome(prog, writers, seen, set)
	})
}
