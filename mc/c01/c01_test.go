package c01

import (
	"math"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vrt"
)

func TestMain(m *testing.M) { vrt.Main(m, "C01") }

// shows says what of v is missing in its rendering, where everything has to appear in order.
func shows(v *vben.V, rend string) (rest, missing string) {
	take := func(s string) bool {
		i := strings.Index(rend, s)
		if i < 0 {
			missing = s
			return false
		}
		rend = rend[i+len(s):]
		return true
	}
	switch v.K {
	case vben.Int:
		take(strconv.FormatInt(v.I, 10))
	case vben.Str:
		take(v.S)
	case vben.List:
		for _, e := range v.L {
			if rend, missing = shows(e, rend); missing != "" {
				break
			}
		}
	case vben.Dict:
		ks := slices.Clone(v.Keys)
		slices.Sort(ks)
		for _, k := range slices.Compact(ks) {
			if !take(k) {
				break
			}
			es := v.D[k]
			if rend, missing = shows(es[len(es)-1], rend); missing != "" {
				break
			}
		}
	}
	return rend, missing
}

func check(x *vrt.X, v *vben.V, calls int) {
	want := v.Enc()
	x.NoCrash("encode", func() {
		b := vben.Build(v)
		for i := 0; i < calls; i++ {
			if got := b.Encode(); got != want {
				x.Fail("encoding", "value (canonical %.200q) encodes to %.200q", want, got)
			}
		}
		rend := b.String()
		for i := 0; i < calls; i++ {
			if s := b.String(); s != rend {
				x.Fail("rendering", "%.200q renders as %q and as %q", want, rend, s)
			}
		}
		if _, m := shows(v, rend); m != "" {
			x.Fail("rendering", "%.200q renders as %.500q, which does not show %.100q", want, rend, m)
		}
		p, err := bencode.Parse([]byte(want))
		if err != nil {
			x.Fail("roundtrip", "canonical bytes %.200q are refused: %v", want, err)
		}
		if d := vben.Same(p, v, false); d != "" {
			x.Fail("roundtrip", "canonical bytes %.200q decode differently: %s", want, d)
		}
		for i := 0; i < calls; i++ {
			if got := p.Encode(); got != want {
				x.Fail("reencoding", "decoded %.200q encodes to %.200q", want, got)
			}
		}
		rend = p.String()
		for i := 0; i < calls; i++ {
			if s := p.String(); s != rend {
				x.Fail("rendering", "decoded %.200q renders as %q and as %q", want, rend, s)
			}
		}
		if _, m := shows(v, rend); m != "" {
			x.Fail("rendering", "decoded %.200q renders as %.500q, which does not show %.100q", want, rend, m)
		}
		x.Outcome(want)
	})
}

var ints = []int64{0, 1, -1, 7, 9, 10, -10, 99, 100, 1 << 31, -(1 << 31), 1<<32 + 5, 1<<53 + 1, 999999999999999999, 1000000000000000000,
	math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, -922337203685477580, 922337203685477580, 922337203685477581}

// TestIntegers: every boundary and every power of two and ten and its neighbours.
func TestIntegers(t *testing.T) {
	var all []int64
	all = append(all, ints...)
	for s := 0; s < 63; s++ {
		for d := int64(-2); d <= 2; d++ {
			all = append(all, int64(1)<<s+d, -(int64(1)<<s)+d)
		}
	}
	for p := int64(1); p < 1000000000000000000; p *= 10 {
		for d := int64(-2); d <= 2; d++ {
			all = append(all, p+d, -p+d)
		}
	}
	for i := int64(-1200); i <= 1200; i++ {
		all = append(all, i)
	}
	vrt.Explore(t, vrt.Opts{Section: "integers", ShardDepth: 1}, func(x *vrt.X) {
		i := vrt.Of(x, "int", all...)
		switch x.Choose(3, "where") {
		case 0:
			check(x, vben.I(i), 2)
		case 1:
			check(x, vben.L(vben.I(i), vben.S("x")), 2)
		case 2:
			check(x, vben.D().Set("k", vben.I(i)), 2)
		}
	})
}

// TestStrings: every byte, every pair of bytes, every length around the digit boundaries.
func TestStrings(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "strings", ShardDepth: 2}, func(x *vrt.X) {
		var s string
		switch x.Choose(3, "form") {
		case 0:
			b := x.Choose(257, "byte")
			if b < 256 {
				s = string([]byte{byte(b)})
			}
		case 1:
			a := x.Choose(256, "a")
			b := vrt.Of(x, "b", byte(0), 1, '0', '9', ':', 'a', 'd', 'e', 'i', 'l', '-', 0x7f, 0x80, 0xc3, 0xa9, 0xff)
			s = string([]byte{byte(a), b})
		case 2:
			n := vrt.Of(x, "len", 9, 10, 11, 19, 20, 99, 100, 101, 255, 256, 999, 1000, 1001, 9999, 10000, 65535, 65536, 99999, 100000, 1000000)
			s = strings.Repeat(vrt.Of(x, "fill", "a", "e", ":", "\x00", "\xff"), n)
		}
		switch x.Choose(3, "where") {
		case 0:
			check(x, vben.S(s), 2)
		case 1:
			check(x, vben.L(vben.S(s), vben.I(1)), 2)
		case 2:
			check(x, vben.D().Set(s, vben.S(s)), 2)
		}
	})
}

var keys = []string{"", "\x00", "0", "1", "10", "2", "A", "B", "a", "aa", "ab", "b", "é", "\x7f", "\x80", "\xff", "piece length", "pieces"}

// TestKeys: every insertion order of every small set of keys.
func TestKeys(t *testing.T) {
	max := vrt.Pick(3, 4)
	vrt.Explore(t, vrt.Opts{Section: "dictionary-keys", ShardDepth: 2}, func(x *vrt.X) {
		rest := append([]string{}, keys...)
		d := vben.D()
		for i := 0; i < max; i++ {
			j := x.Choose(len(rest)+1, "key")
			if j == len(rest) {
				break
			}
			d.Set(rest[j], vben.I(int64(i)))
			rest = append(rest[:j:j], rest[j+1:]...)
		}
		check(x, d, 12)
	})
}

// TestManyKeys: large dictionaries (an order that is right by chance is not), rotated insertion.
func TestManyKeys(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "large-dictionaries", ShardDepth: 1}, func(x *vrt.X) {
		n := vrt.Of(x, "n", 5, 8, 9, 16, 17, 40)
		rot := x.Choose(n, "rotation")
		rev := x.Bool("reverse")
		d := vben.D()
		for i := 0; i < n; i++ {
			j := (i + rot) % n
			if rev {
				j = n - 1 - j
			}
			d.Set(strings.Repeat("k", j%3)+string(rune('!'+j)), vben.I(int64(j)))
		}
		check(x, d, 4)
	})
}

// TestLongKeys: keys that agree in their first bytes, for every length of what they share up to 300 and some beyond.
func TestLongKeys(t *testing.T) {
	ends := [][]string{{"b", "a"}, {"b", "", "a"}, {"\xff", "\x00", "a"}, {"10", "2", "1"}, {"z", "aa", "a"}}
	vrt.Explore(t, vrt.Opts{Section: "long-keys", ShardDepth: 2}, func(x *vrt.X) {
		n := 1 + x.Choose(304, "shared bytes")
		if n > 300 {
			n = []int{1000, 4096, 65536, 70000}[n-301]
		}
		e := vrt.Of(x, "ends", ends...)
		fill := vrt.Of(x, "fill", "k", "\xff")
		d := vben.D()
		for i, j := range x.Permutation(len(e), "order") {
			d.Set(strings.Repeat(fill, n)+e[j], vben.I(int64(i)))
		}
		check(x, d, 4)
	})
}

// TestWide: values with many elements.
func TestWide(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "wide", ShardDepth: 2}, func(x *vrt.X) {
		n := vrt.Of(x, "n", 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 3000)
		kind := x.Choose(4, "kind")
		l, d := vben.L(), vben.D()
		for i := 0; i < n; i++ {
			var e *vben.V
			switch kind {
			case 0:
				e = vben.I(int64(i))
			case 1:
				e = vben.S(strings.Repeat("x", i%7))
			case 2:
				e = vben.L(vben.I(int64(i)))
			case 3:
				e = vben.D().Set("k", vben.I(int64(-i)))
			}
			l.L = append(l.L, e)
			d.Set(strconv.Itoa(i), e)
		}
		if x.Bool("dictionary") {
			check(x, d, 2)
		} else {
			check(x, l, 2)
		}
	})
}

// TestTrees: every tree with up to n nodes over few leaves.
func TestTrees(t *testing.T) {
	max := vrt.Pick(6, 7)
	vrt.Explore(t, vrt.Opts{Section: "trees", ShardDepth: 4}, func(x *vrt.X) {
		left := max
		var gen func(depth int) *vben.V
		gen = func(depth int) *vben.V {
			left--
			switch x.Choose(6, "node") {
			case 0:
				return vben.I(-7)
			case 1:
				return vben.S("")
			case 2:
				return vben.S("ei1e")
			case 3:
				return vben.I(0)
			case 4:
				l := vben.L()
				for left > 0 && x.Bool("more") {
					l.L = append(l.L, gen(depth+1))
				}
				return l
			default:
				d := vben.D()
				ks := []string{"b", "a", "", "ab"}
				for left > 0 && len(ks) > 0 && x.Bool("more") {
					k := x.Choose(min(2, len(ks)), "key")
					key := ks[k]
					ks = append(ks[:k:k], ks[k+1:]...)
					d.Set(key, gen(depth+1))
				}
				return d
			}
		}
		check(x, gen(0), 3)
	})
}

// TestDeep: nesting.
func TestDeep(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "nesting", ShardDepth: 1}, func(x *vrt.X) {
		n := vrt.Of(x, "depth", 2, 3, 10, 63, 64, 65, 100, 255, 256, 500)
		kind := x.Choose(3, "kind")
		v := vben.S("x")
		for i := 0; i < n; i++ {
			if kind == 0 || kind == 2 && i%2 == 0 {
				v = vben.L(v, vben.I(int64(i)))
			} else {
				v = vben.D().Set("z", v).Set("a", vben.I(int64(i)))
			}
		}
		check(x, v, 3)
	})
}
