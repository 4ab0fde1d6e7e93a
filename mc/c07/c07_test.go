package c07

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsess"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C07") }

// judge compares the files with what was sent: a piece may be there only if right data for it came.
func judge(x *vrt.X, s *vsess.S, sent map[int]bool, trace string) {
	st, w := s.L.Stored(s.Dir)
	if w != "" {
		x.Fail("files", "%s (%s)", w, trace)
	}
	all := true
	for i, k := range st {
		switch {
		case k == 2:
			x.Fail("wrong-bytes", "the place of piece %d holds bytes that are not its content (%s)", i, trace)
		case k == 1 && !sent[i]:
			x.Fail("invented", "piece %d is stored although nothing right was sent for it (%s)", i, trace)
		}
		all = all && k == 1
	}
	if s.T.Done() && !all {
		x.Fail("done", "the torrent counts as complete, stored is %v (%s)", st, trace)
	}
}

func flip(b []byte, bit int) []byte {
	c := append([]byte{}, b...)
	if len(c) > 0 {
		c[bit/8%len(c)] ^= 1 << (bit % 8)
	}
	return c
}

var layouts = []*vtor.Layout{
	{Name: "t", Single: true, Files: []vtor.File{{Len: 11}}, PieceLen: 4},
	{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 10}}, PieceLen: 5},
	{Name: "t", Files: []vtor.File{{"a", 1}, {"b", 2}, {"c", 5}}, PieceLen: 2},
	{Name: "t", Single: true, Files: []vtor.File{{Len: 12}}, PieceLen: 4, Same: true},
}

// All sequences of answers of every kind.
func TestAnswers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences of answers", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		s := vsess.New(x, l)
		defer s.Drop()
		n := l.Pieces()
		sent := map[int]bool{}
		trace := ""
		kind := x.Choose(12, "answer")
		s.Begin()
		s.Push(append(s.All(), vnet.Unchoke()...))
		right := true
		for step := 0; step < vrt.Pick(3, 4) && !s.Ended; step++ {
			if step > 0 {
				kind = x.Choose(12, "answer")
			}
			rs := s.Requests()
			i := 0
			if len(rs) > 0 {
				i = int(rs[len(rs)-1].U(0))
			}
			other := (i + 1) % n
			p := l.Piece(i)
			var b []byte
			var label int = i
			switch kind {
			case 0:
				b = vnet.Piece(uint32(i), 0, p)
			case 1:
				b = vnet.Piece(uint32(i), 0, flip(p, 0))
			case 2:
				b = vnet.Piece(uint32(i), 0, flip(p, 8*len(p)-1))
			case 3:
				b = vnet.Piece(uint32(i), 0, p[:len(p)-1])
			case 4:
				b = vnet.Piece(uint32(i), 0, append(append([]byte{}, p...), 7))
			case 5: // right data, wrong label
				label = other
				b = vnet.Piece(uint32(other), 0, p)
			case 6: // right data, wrong place
				b = vnet.Piece(uint32(i), 1, p)
			case 7:
				b = vnet.Piece(uint32(i), uint32(l.PieceLen), p)
			case 8: // another piece's data
				b = vnet.Piece(uint32(i), 0, l.Piece(other))
			case 9: // nobody asked
				label = other
				b = vnet.Piece(uint32(other), 0, l.Piece(other))
			case 10:
				b = vnet.Piece(uint32(n), 0, p)
			case 11: // the rest of the torrent in one piece
				var all []byte
				for k := i; k < n; k++ {
					all = append(all, l.Piece(k)...)
				}
				b = vnet.Piece(uint32(i), 0, all)
				if i == n-1 {
					sent[i] = true
				}
			}
			m, _ := vnet.Split(b)
			if m[0].U(1) == 0 && string(m[0].Payload[8:]) == string(l.Piece(label)) && kind != 10 {
				sent[label] = true
			}
			right = right && kind == 0
			trace += fmt.Sprintf("answer %d for piece %d; ", kind, i)
			s.Push(b)
			s.Sleep(200 * time.Millisecond)
			judge(x, s, sent, trace)
		}
		if right && !s.T.Done() && len(sent) == n {
			x.Fail("lost", "everything was answered right but the torrent is not complete (%s)", trace)
		}
		s.Finish()
		judge(x, s, sent, trace)
		st, _ := l.Stored(s.Dir)
		x.Outcome(l.PieceLen, trace, st)
	})
}

// Every bit of every piece flipped, on its own.
func TestFlips(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "every bit of the data", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(3, "layout")]
		i := x.Choose(l.Pieces(), "piece")
		bit := x.Choose(8*l.PieceSize(i), "bit")
		s := vsess.New(x, l)
		defer s.Drop()
		s.Begin()
		s.Push(append(vnet.Have(uint32(i)), vnet.Unchoke()...))
		s.Push(vnet.Piece(uint32(i), 0, flip(l.Piece(i), bit)))
		s.Sleep(200 * time.Millisecond)
		judge(x, s, nil, fmt.Sprintf("bit %d of piece %d flipped", bit, i))
		s.Finish()
		judge(x, s, nil, fmt.Sprintf("bit %d of piece %d flipped", bit, i))
		x.Outcome(l.PieceLen, i, bit)
	})
}

// Every bit of every listed hash flipped, on its own: the right data is now wrong.
func TestHashBits(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "every bit of the hashes", Bubble: true}, func(x *vrt.X) {
		l := layouts[x.Choose(3, "layout")]
		i := x.Choose(l.Pieces(), "piece")
		bit := x.Choose(160, "bit")
		h := l.Hashes()
		h[20*i+bit/8] ^= 1 << (bit % 8)
		s := vsess.NewH(x, l, h)
		defer s.Drop()
		s.Begin()
		s.Push(append(vnet.Have(uint32(i)), vnet.Unchoke()...))
		s.Push(vnet.Piece(uint32(i), 0, l.Piece(i)))
		s.Sleep(200 * time.Millisecond)
		s.Finish()
		judge(x, s, nil, fmt.Sprintf("bit %d of the hash of piece %d flipped", bit, i))
		x.Outcome(l.PieceLen, i, bit)
	})
}

const block = 128 * 1024

// Pieces of two and three blocks.
func TestBlocks(t *testing.T) {
	l := &vtor.Layout{Name: "t", Files: []vtor.File{{"a", block - 1}, {"b", block + 9}, {"c", block + 3}}, PieceLen: 2*block + 4}
	hs := l.Hashes()
	ps := [][]byte{l.Piece(0), l.Piece(1)}
	vrt.Explore(t, vrt.Opts{Section: "blocks", Bubble: true}, func(x *vrt.X) {
		k0 := x.Choose(11, "block")
		k1 := x.Choose(11, "block")
		s := vsess.NewH(x, l, hs)
		defer s.Drop()
		s.Begin()
		s.Push(append(s.All(), vnet.Unchoke()...))
		gotB := map[[2]int]bool{} // right blocks sent
		trace := ""
		for step := 0; step < 5 && !s.Ended; step++ {
			k := 0
			switch step {
			case 0:
				k = k0
			case 1:
				k = k1
			case 2:
				k = x.Choose(vrt.Pick(1, 11), "block")
			}
			rs := s.Requests()
			if len(rs) == 0 {
				break
			}
			r := rs[len(rs)-1]
			i, o, n := int(r.U(0)), int(r.U(1)), int(r.U(2))
			d := ps[i][o : o+n]
			var b []byte
			mk := func(i, o int, d []byte) []byte { return vnet.Piece(uint32(i), uint32(o), d) }
			switch k {
			case 0:
				b = mk(i, o, d)
				gotB[[2]int{i, o}] = true
			case 1:
				b = mk(i, o, flip(d, 0))
			case 2:
				b = mk(i, o, flip(d, 8*n-1))
			case 3:
				b = mk(i, o, flip(d, 4*n))
			case 4: // shorter
				b = mk(i, o, d[:n-1])
			case 5: // the next bytes too
				b = mk(i, o, ps[i][o:min(o+n+1, len(ps[i]))])
			case 6: // another offset
				b = mk(i, (o+block)%(3*block), d)
			case 7: // another piece
				b = mk(1-i, o, d)
			case 8: // twice
				b = append(mk(i, o, d), mk(i, o, d)...)
				gotB[[2]int{i, o}] = true
			case 9: // data of another block
				q := (o + block) % len(ps[i])
				e := append(append([]byte{}, ps[i][q:]...), ps[i]...)
				b = mk(i, o, e[:n])
			case 10: // the whole piece at once
				b = mk(i, 0, ps[i])
				for q := 0; q < len(ps[i]); q += block {
					gotB[[2]int{i, q}] = true
				}
			}
			if k == 5 && o+n == len(ps[i]) {
				gotB[[2]int{i, o}] = true
			}
			trace += fmt.Sprintf("block %d of piece %d: answer %d; ", o/block, i, k)
			s.Push(b)
			s.Sleep(100 * time.Millisecond)
		}
		sent := map[int]bool{}
		for i := range ps {
			ok := true
			for q := 0; q < len(ps[i]); q += block {
				ok = ok && gotB[[2]int{i, q}]
			}
			sent[i] = ok
		}
		s.Sleep(300 * time.Millisecond)
		judge(x, s, sent, trace)
		s.Finish()
		judge(x, s, sent, trace)
		if (k0 == 0 || k0 == 8) && (k1 == 0 || k1 == 8) && !vrt.Thorough() && !s.T.Done() {
			x.Fail("lost", "everything was answered right but the torrent is not complete (%s)", trace)
		}
		x.Outcome(trace)
	})
}

// The check itself: data of every wrong length, order and place, for every label.
func TestCheck(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "the check alone", ShardDepth: 2}, func(x *vrt.X) {
		l := layouts[x.Choose(len(layouts), "layout")]
		label := x.Choose(l.Pieces()+3, "label") - 1
		from := x.Choose(l.Pieces(), "data of")
		dir := vtor.TempDir(vrt.Scratch())
		defer os.RemoveAll(dir)
		t, err := l.Open(dir)
		if err != nil {
			x.Fail("refused", "%v", err)
		}
		defer t.Close()
		d := append([]byte{}, l.Piece(from)...)
		what := x.Choose(6, "change")
		switch what {
		case 1: // shorter
			d = d[:x.Choose(len(d), "length")]
		case 2: // longer
			d = append(d, bytes.Repeat([]byte{vrt.Of(x, "more", byte(0), 0xff, d[0])}, 1+x.Choose(20, "by"))...)
		case 3: // starts earlier
			d = append([]byte{vrt.Of(x, "before", byte(0), 0xff, d[len(d)-1])}, d...)
		case 4: // turned
			k := x.Choose(len(d), "turned by")
			d = append(append([]byte{}, d[k:]...), d[:k]...)
		case 5: // followed by the next piece
			d = append(d, l.Piece((from+1)%l.Pieces())...)
		}
		want := false
		if label >= 0 && label < l.Pieces() {
			h := sha1.Sum(d)
			want = bytes.Equal(h[:], l.Hashes()[20*label:20*label+20])
		}
		var got bool
		x.NoCrash("check", func() { got = t.CheckPiece(d, label) })
		if got != want {
			x.Fail("check", "%d bytes (those of piece %d, change %d) are judged %v as piece %d", len(d), from, what, got, label)
		}
		x.Outcome(l.PieceLen, label, from, what, len(d), got)
	})
}
