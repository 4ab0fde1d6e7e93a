package c13

import (
	"errors"
	"fmt"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vswarm"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

// Deliveries of which one write, the first or a later one, fails after any number of bytes, once or for a while.
func TestTorn(t *testing.T) {
	ls := append([]*vtor.Layout{}, layouts...)
	ls = append(ls, &vtor.Layout{Name: "t", Files: []vtor.File{{"a", 1}, {"b", 1}, {"c", 1}, {"d", 2}}, PieceLen: 5},
		&vtor.Layout{Name: "t", Files: []vtor.File{{"a", 300 * kb}, {"b", 20 * kb}}, PieceLen: 160 * kb})
	vrt.Explore(t, vrt.Opts{Section: "torn writes"}, func(x *vrt.X) {
		l := ls[x.Choose(len(ls), "layout")]
		err := vrt.Of(x, "error", error(syscall.ENOSPC), error(syscall.EIO), error(syscall.EINTR), errors.New("short"))
		r := open(x, l)
		defer r.drop()
		n := l.Pieces()
		bad, call := -1, 0 // the write that fails
		k := 0
		torn := false
		defer vtor.OnWrite(r.dir, func(name string, b []byte, off int64) (int, error) {
			call++
			if call-1 != bad {
				return 0, nil
			}
			k = 0
			if len(b) > 1 {
				k = min(vrt.Of(x, "bytes", 0, 1, len(b)-1), len(b)-1)
			}
			torn = true
			return k, &os.PathError{Op: "write", Path: name, Err: err}
		})()
		for step := 0; step < vrt.Pick(min(n+1, 3), n+1); step++ {
			i := x.Choose(n, "piece")
			call, torn = 0, false
			bad = x.Choose(1+len(spans(l, i)), "failing write") - 1
			was := r.t.Done()
			r.write(l.Msg(i))
			r.trace += fmt.Sprintf("%d (write %d fails after %d); ", i, bad, k)
			if !torn {
				r.have[i] = true
			} else if r.t.Done() && !was {
				x.Fail("early", "completion is reported after a write failed (%s)", r.trace)
			}
			if was && !r.t.Done() {
				x.Fail("lost", "completion is taken back (%s)", r.trace)
			}
			r.check()
			st, w := l.Stored(r.dir)
			if w != "" {
				x.Fail("files", "%s (%s)", w, r.trace)
			}
			for j, h := range r.have {
				if h && st[j] != 1 {
					x.Fail("damaged", "piece %d was written but is not intact (%s)", j, r.trace)
				}
			}
		}
		bad = -1
		for i := range r.have {
			if !r.have[i] {
				r.check()
				r.write(l.Msg(i))
				r.have[i] = true
			}
		}
		r.check()
		if w := l.Verify(r.dir, nil); w != "" {
			x.Fail("content", "completion is reported but: %s (%s)", w, r.trace)
		}
		x.Outcome(l, r.trace)
	})
}

// Whole downloads while the disk fails: success is never reported unless everything is stored.
func TestFailingDisk(t *testing.T) {
	ls := []*vtor.Layout{
		{Name: "t", Single: true, Files: []vtor.File{{Len: 7}}, PieceLen: 2, Announce: "udp://10.0.0.9:1"},
		{Name: "t", Files: []vtor.File{{"a", 3}, {"d/b", 0}, {"c", 5}}, PieceLen: 3, Announce: "udp://10.0.0.9:1"},
		{Name: "t", Files: []vtor.File{{"a", 130 * kb}, {"b", 66 * kb}}, PieceLen: 129 * kb, Announce: "udp://10.0.0.9:1"},
	}
	hs := make([][]byte, len(ls))
	for i := range ls {
		hs[i] = ls[i].Hashes()
	}
	vrt.Explore(t, vrt.Opts{Section: "whole downloads on a failing disk", Bubble: true}, func(x *vrt.X) {
		k := x.Choose(len(ls), "layout")
		l := ls[k]
		bad := x.Choose(8, "failing write")
		times := x.Choose(3, "times") // once, twice, always
		torn := x.Choose(3, "bytes")
		peers := 1 + x.Choose(2, "peers")
		kind := x.Choose(3, "tracker")
		w := vswarm.NewH(x, l, hs[k], 2)
		calls, failed := 0, 0
		defer vtor.OnWrite(w.Dir, func(name string, b []byte, off int64) (int, error) {
			calls++
			if calls-1 < bad || times < 2 && calls-1 > bad+times {
				return 0, nil
			}
			failed++
			return []int{0, len(b) / 2, max(len(b)-1, 0)}[torn], syscall.ENOSPC
		})()
		var as []string
		for i := 0; i < peers; i++ {
			a := fmt.Sprintf("10.6.0.%d:6881", i+1)
			as = append(as, a)
			w.Peer(a)
		}
		w.UDP("10.0.0.9:1", func(n int) vswarm.UReply {
			if kind == 1 && n > 1 {
				return vswarm.UReply{Interval: 45}
			}
			return vswarm.UReply{Interval: uint32([]int{45, 45, 5}[kind]), Addrs: as}
		})
		w.Go()
		what := fmt.Sprintf("write %d fails after %d", bad, torn)
		done := false
		judge := func() {
			st, why := l.Stored(w.Dir)
			if why != "" {
				x.Fail("files", "%s (%s)", why, what)
			}
			all := true
			for _, v := range st {
				all = all && v == 1
			}
			if w.T.Done() && !all {
				x.Fail("early", "completion is reported, stored are %v (%s)", st, what)
			}
			if done && w.Err == nil && !all {
				x.Fail("early", "the download succeeds, stored are %v (%s)", st, what)
			}
		}
		for i := 0; i < 20 && !done; i++ {
			done = w.Wait(10 * time.Second)
			judge()
		}
		if failed == 0 && (!done || w.Err != nil) {
			x.Fail("lost", "no write failed and the download does not succeed (%s)", what)
		}
		if !done { // a cancelled download returns no error
			w.Cancel()
			w.Wait(10 * time.Minute)
			judge()
		}
		w.End()
		x.Outcome(l.PieceLen, bad, times, torn, done, w.Err == nil)
	})
}
