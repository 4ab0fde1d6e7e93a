package c07

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

// Pieces are checked for two peers at the same time, also those of two torrents.
func TestChecksAtOnce(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "checks at the same time", Bubble: true, DevBound: vrt.Pick(2, 4), ShardDepth: 3}, func(x *vrt.X) {
		l := layouts[vrt.Of(x, "layout", 0, 3)]
		n := vrt.Pick(1, 2)
		var what [2][2]int
		for k := range what {
			for i := 0; i < n; i++ {
				what[k][i] = x.Choose(4, "data")
			}
		}
		two := x.Bool("two torrents")
		var dirs []string
		open := func() interface{ CheckPiece([]byte, int) bool } {
			d := vtor.TempDir(vrt.Scratch())
			dirs = append(dirs, d)
			t, err := l.Open(d)
			if err != nil {
				x.Fail("refused", "%v", err)
			}
			t.Close()
			return t
		}
		defer func() {
			for _, d := range dirs {
				os.RemoveAll(d)
			}
		}()
		ts := []interface{ CheckPiece([]byte, int) bool }{open(), nil}
		ts[1] = ts[0]
		if two {
			ts[1] = open()
		}
		s := vsched.New(x, vsched.Opts{})
		for k := range what {
			s.Spawn(fmt.Sprint(k), func() {
				for i := 0; i < n; i++ {
					label, want := (k+i)%2, true
					d := append([]byte{}, l.Piece(label)...)
					switch what[k][i] {
					case 1:
						d, want = flip(d, 9), false
					case 2:
						d, want = l.Piece(1-label), l.Same
					case 3: // the piece the other one checks
						label = (k + i + 1) % 2
						d = append([]byte{}, l.Piece(label)...)
					}
					if got := ts[k].CheckPiece(d, label); got != want {
						x.Fail("check", "thread %d: data %d are judged %v as piece %d while others are checked (%v, two torrents %v)", k, what[k][i], got, label, what, two)
					}
				}
			})
		}
		s.Run(nil)
		s.Stop()
		x.Outcome(l.Name, what, two)
	})
}

// Two peers of which at least one sends wrong data, with the steps of everybody in other orders: every
// write carries right data to its place.
func TestPeersAtOnce(t *testing.T) {
	kinds := []vswarm.Bad{{Name: "corrupt answer"}, {Name: "pushes corrupt data"}, {Name: "pushes everything"}, {Name: "everything twice"}, {Name: "another piece"}, {Name: "wrong offset"}, {Name: "all corrupt"}}
	const kb = 1 << 10
	ls := []*vtor.Layout{layouts[1], layouts[3], {Name: "t", Files: []vtor.File{{Path: "a", Len: 130 * kb}, {Path: "b", Len: 20 * kb}}, PieceLen: 140 * kb}}
	hs := [][]byte{ls[0].Hashes(), ls[1].Hashes(), ls[2].Hashes()}
	vrt.Explore(t, vrt.Opts{Section: "two peers at the same time", Bubble: true, DevBound: 1, ShardDepth: 3}, func(x *vrt.X) {
		k := x.Choose(len(ls), "layout")
		a := kinds[x.Choose(vrt.Pick(4, len(kinds)), "first peer")]
		bn := x.Choose(len(kinds)+1, "second peer")
		l := *ls[k]
		l.Announce = "udp://10.0.0.9:1"
		w := vswarm.NewH(x, &l, hs[k], 2)
		rand.Seed(1)
		what := fmt.Sprintf("%+v, peers %v and %d", l.Files, a, bn)
		content := l.Content()
		defer vtor.OnWrite(w.Dir, func(name string, b []byte, off int64) (int, error) {
			pos := int(off)
			for i, p := range l.Paths(w.Dir) {
				if filepath.Clean(p) == filepath.Clean(name) {
					break
				}
				pos += l.Files[i].Len
			}
			if pos+len(b) > len(content) || string(content[pos:pos+len(b)]) != string(b) {
				x.Fail("written", "%d bytes that are not the content are written at %d (%s)", len(b), pos, what)
			}
			return 0, nil
		})()
		a.Install(w.Peer("10.5.0.1:1"))
		r := w.Peer("10.5.0.2:1")
		if bn > 0 {
			kinds[bn-1].Install(r)
		}
		w.UDP("10.0.0.9:1", func(int) vswarm.UReply {
			return vswarm.UReply{Interval: 1000, Addrs: []string{"10.5.0.1:1", "10.5.0.2:1"}}
		})
		s := vsched.New(x, vsched.Opts{Delay: true})
		s.Spawn("download", func() { w.Err = w.M.Download(w.Ctx); close(w.Done) })
		stop := time.AfterFunc(8*time.Second, w.Cancel)
		s.Run(w.Finished)
		stop.Stop()
		s.Stop()
		done := w.T.Done()
		w.End()
		x.Outcome(k, a, bn, done)
	})
}
