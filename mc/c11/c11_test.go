package c11

import (
	"fmt"
	"os"
	"testing"

	"github.com/bits-and-blooms/bitset"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/verifmc/vrt"
	"github.com/anivanovic/gotit/verifmc/vsched"
	"github.com/anivanovic/gotit/verifmc/vtor"
)

func TestMain(m *testing.M) { vrt.Main(m, "C11") }

func open(x *vrt.X, n int) (*torrent.Torrent, func()) {
	l := &vtor.Layout{Name: "t", Single: true, Files: []vtor.File{{Len: 2*n - 1}}, PieceLen: 2}
	dir := vtor.TempDir(vrt.Scratch())
	t, err := l.Open(dir)
	if err != nil {
		x.Fail("open", "%v", err)
	}
	return t, func() { t.Close(); os.RemoveAll(dir) }
}

func set(n int, mask int) *bitset.BitSet {
	b := bitset.New(uint(n))
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			b.Set(uint(i))
		}
	}
	return b
}

// Claims one after the other, every sequence of peers with every set of advertised pieces.
func TestSequences(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "sequences"}, func(x *vrt.X) {
		n := 1 + x.Choose(3, "pieces")
		tor, drop := open(x, n)
		defer drop()
		claimed := 0
		trace := ""
		for k := 0; k < n+vrt.Pick(1, 2); k++ {
			have := x.Choose(1<<n, "advertised")
			i, ok := tor.Next(set(n, have))
			trace += fmt.Sprintf("%b:%d,%v ", have, i, ok)
			free := have &^ claimed
			switch {
			case ok && (int(i) >= n || have>>i&1 == 0):
				x.Fail("not-advertised", "a piece is handed out that the peer did not advertise (%s)", trace)
			case ok && claimed>>i&1 == 1:
				x.Fail("twice", "a piece is handed out twice (%s)", trace)
			case !ok && free != 0:
				x.Fail("refused", "an advertised piece is free but the claim fails (%s)", trace)
			}
			if ok {
				claimed |= 1 << i
			}
		}
		x.Outcome(trace)
	})
}

// Piece counts around machine words: each piece alone, all but one, in rising and falling order.
func TestWords(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "many pieces"}, func(x *vrt.X) {
		n := vrt.Of(x, "pieces", 7, 8, 9, 63, 64, 65, 127, 128, 129, 200)
		mode := x.Choose(5, "order")
		small := x.Bool("set of another size") // the set of the peer may be shorter or longer than the torrent
		tor, drop := open(x, n)
		defer drop()
		claimed := make([]bool, n)
		count := 0
		mk := func(f func(i int) bool) *bitset.BitSet {
			b := bitset.New(uint(n))
			if small {
				b = bitset.New(0)
			}
			for i := 0; i < n; i++ {
				if f(i) {
					b.Set(uint(i))
				}
			}
			return b
		}
		try := func(f func(i int) bool) {
			i, ok := tor.Next(mk(f))
			free := false
			for k := 0; k < n; k++ {
				free = free || (f(k) && !claimed[k])
			}
			if ok != free {
				x.Fail("refused", "%d pieces: claim says %v, a free advertised piece exists: %v", n, ok, free)
			}
			if ok {
				if int(i) >= n || !f(int(i)) {
					x.Fail("not-advertised", "piece %d was not advertised", i)
				}
				if claimed[i] {
					x.Fail("twice", "piece %d is handed out twice", i)
				}
				claimed[i] = true
				count++
			}
		}
		for k := 0; k < n; k++ {
			switch mode {
			case 0:
				try(func(i int) bool { return i == k })
			case 1:
				try(func(i int) bool { return i == n-1-k })
			case 2:
				try(func(i int) bool { return true })
			case 3:
				try(func(i int) bool { return i >= n-1-k })
			case 4:
				try(func(i int) bool { return (i*31)%n == k })
			}
		}
		for k := 0; k < n+1; k++ {
			try(func(i int) bool { return true })
		}
		if count != n {
			x.Fail("coverage", "%d of %d pieces were handed out", count, n)
		}
		x.Outcome(n, mode)
	})
}

// Torrents of thousands of pieces: two peers in turn, each with some of them, until nothing is left.
func TestThousands(t *testing.T) {
	sizes := []int{255, 256, 257, 1023, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}
	if vrt.Thorough() {
		sizes = append(sizes, 131071, 131073)
	}
	vrt.Explore(t, vrt.Opts{Section: "thousands of pieces"}, func(x *vrt.X) {
		n := sizes[x.Choose(len(sizes), "pieces")]
		fs := []func(i int) bool{
			func(i int) bool { return true },
			func(i int) bool { return i == n-1 || i == 0 },
			func(i int) bool { return i > n-40 },
			func(i int) bool { return i < n/2 },
			func(i int) bool { return false },
			func(i int) bool { return i%2 == 1 },
			func(i int) bool { return i >= n/2 },
		}
		if n > 5000 { // a claim may take time proportional to the number of pieces
			fs = fs[:5]
		}
		who := [2]int{x.Choose(len(fs), "first"), x.Choose(len(fs), "second")}
		tor, drop := open(x, n)
		defer drop()
		have := [2]*bitset.BitSet{}
		union := 0
		for p, w := range who {
			have[p] = bitset.New(uint(n))
			for i := 0; i < n; i++ {
				if fs[w](i) {
					have[p].Set(uint(i))
				}
			}
		}
		for i := 0; i < n; i++ {
			if fs[who[0]](i) || fs[who[1]](i) {
				union++
			}
		}
		claimed := make([]bool, n)
		count := 0
		end := [2]bool{}
		for p := 0; !end[0] || !end[1]; p = 1 - p {
			if end[p] {
				continue
			}
			i, ok := tor.Next(have[p])
			if !ok {
				end[p] = true
				for k := 0; k < n; k++ {
					if fs[who[p]](k) && !claimed[k] {
						x.Fail("refused", "%d pieces: peer %d is refused although piece %d is free and advertised", n, p, k)
					}
				}
				continue
			}
			if int(i) >= n || !fs[who[p]](int(i)) {
				x.Fail("not-advertised", "%d pieces: piece %d was not advertised by peer %d", n, i, p)
			}
			if claimed[i] {
				x.Fail("twice", "%d pieces: piece %d is handed out twice", n, i)
			}
			claimed[i] = true
			count++
		}
		if count != union {
			x.Fail("coverage", "%d of %d pieces were handed out", count, union)
		}
		x.Outcome(n, who)
	})
}

// All interleavings of peers that claim until nothing is left for them.
func TestThreads(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "interleavings", Bubble: true, DevBound: vrt.Pick(2, 3), ShardDepth: 3}, func(x *vrt.X) {
		n := 1 + x.Choose(3, "pieces")
		nt := 2 + x.Choose(2, "peers")
		masks := make([]int, nt)
		for i := range masks {
			masks[i] = x.Choose(1<<n-1, "advertised") + 1
			if nt == 3 && n == 3 && i > 0 && masks[i] != 7 && masks[i] != 6 && masks[i] != 1 && !vrt.Thorough() {
				x.Outcome("left out")
				return
			}
			if i > 0 && masks[i] < masks[i-1] {
				x.Outcome("symmetric")
				return
			}
		}
		tor, drop := open(x, n)
		defer drop()
		claimed := make([]int, n)
		s := vsched.New(x, vsched.Opts{})
		trace := ""
		for k, m := range masks {
			s.Spawn(fmt.Sprint(k), func() {
				have := set(n, m)
				for tries := 0; ; tries++ {
					i, ok := tor.Next(have)
					if !ok {
						trace += fmt.Sprintf("[%d: none] ", k)
						return
					}
					trace += fmt.Sprintf("[%d: %d] ", k, i)
					if int(i) >= n || m>>i&1 == 0 {
						x.Fail("not-advertised", "peer %d (%b) was given piece %d", k, m, i)
					}
					if claimed[i] > 0 {
						x.Fail("twice", "piece %d is handed out twice (%s)", i, trace)
					}
					claimed[i]++
					if tries > n {
						x.Fail("twice", "more claims succeed than there are pieces")
					}
				}
			})
		}
		s.Run(nil)
		s.Stop()
		all := 0
		for _, m := range masks {
			all |= m
		}
		for p := 0; p < n; p++ {
			if want := all >> p & 1; claimed[p] != want {
				x.Fail("coverage", "piece %d was advertised by %d and claimed %d times (%v, %s)", p, want, claimed[p], masks, trace)
			}
		}
		x.Outcome(masks, trace)
	})
}
