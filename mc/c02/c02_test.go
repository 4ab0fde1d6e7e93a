package c02

import (
	"fmt"
	"hash/maphash"
	"strconv"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vrt"
)

func TestMain(m *testing.M) { vrt.Main(m, "C02") }

var seed = maphash.MakeSeed()

func check(x *vrt.X, in []byte) {
	want, _, verdict := vben.Decode(in)
	src := append([]byte{}, in...)
	x.NoCrash("decode", func() {
		got, err := bencode.Parse(src)
		if err != nil {
			if verdict == vben.Accept {
				x.Fail("refused", "well-formed %.200q is refused: %v", in, err)
			}
			return
		}
		if verdict == vben.Reject {
			x.Fail("accepted", "malformed %.200q is accepted as %T %.100q", in, got, got.Encode())
		}
		if d := vben.Same(got, want, true); d != "" {
			x.Fail("value", "%.200q decodes wrongly: %s", in, d)
		}
		if string(src) != string(in) {
			x.Fail("source", "decoding changed its input %.200q", in)
		}
		if verdict == vben.Accept && len(in) < 1<<16 { // no other keys than those of the source
			e := got.Encode()
			if v, n, _ := vben.Decode([]byte(e)); v == nil || n != len(e) || v.Enc() != want.Enc() {
				x.Fail("value", "%.200q decodes to a value that encodes as %.200q", in, e)
			}
		}
	})
	x.StateH(maphash.Bytes(seed, in))
}

// TestAllStrings: every byte string up to a length over the bytes the grammar tells apart.
func TestAllStrings(t *testing.T) {
	alpha := []byte("ield:-0129a")
	max := vrt.Pick(6, 7)
	vrt.Explore(t, vrt.Opts{Section: "all-strings", ShardDepth: 3}, func(x *vrt.X) {
		buf := make([]byte, 0, max)
		for len(buf) < max {
			c := x.Choose(len(alpha)+1, "byte")
			if c == 0 {
				break
			}
			buf = append(buf, alpha[c-1])
		}
		check(x, buf)
	})
}

// TestTokens: every sequence of tokens.
func TestTokens(t *testing.T) {
	toks := []string{"l", "d", "e", "i0e", "i-5e", "0:", "1:a", "1:b", "2:e:", "i", "i12", "3:a", "7", "-", ":"}
	max := vrt.Pick(5, 6)
	vrt.Explore(t, vrt.Opts{Section: "token-sequences", ShardDepth: 3}, func(x *vrt.X) {
		var b []byte
		for i := 0; i < max; i++ {
			c := x.Choose(len(toks)+1, "token")
			if c == 0 {
				break
			}
			b = append(b, toks[c-1]...)
		}
		check(x, b)
	})
}

var docs = []string{
	"i-9223372036854775808e", "12:hello world!", "l4:spami-42el1:aee", "d1:ad1:bi1ee3:listl0:i0eee",
	"d8:announce14:http://a.b/ann4:infod6:lengthi5e4:name1:f12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee",
	"d5:filesld6:lengthi1e4:pathl1:x1:yeed6:lengthi2e4:pathl1:zeeee",
	"d0:0:1:\x000:1:\xff1:\xffe",
}

// TestMutations: every single-byte change, removal, insertion and truncation of valid documents,
// alone and followed by other bytes.
func TestMutations(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "one-byte-mutations", ShardDepth: 3}, func(x *vrt.X) {
		d := []byte(docs[x.Choose(len(docs), "document")])
		p := x.Choose(len(d)+1, "position")
		kind := x.Choose(5, "kind")
		var b []byte
		switch kind {
		case 0: // cut
			b = append(b, d[:p]...)
		case 1: // remove
			b = append(b, d[:p]...)
			if p < len(d) {
				b = append(b, d[p+1:]...)
			}
		case 2: // change
			c := x.Choose(256, "to")
			b = append(b, d...)
			if p < len(d) {
				b[p] = byte(c)
			} else {
				b = append(b, byte(c))
			}
		case 3: // insert
			c := x.Choose(256, "ins")
			b = append(b, d[:p]...)
			b = append(b, byte(c))
			b = append(b, d[p:]...)
		case 4: // double a stretch
			n := 1 + x.Choose(6, "stretch")
			e := min(len(d), p+n)
			b = append(b, d[:e]...)
			b = append(b, d[p:]...)
		}
		check(x, b)
	})
}

// TestNumbers: numbers around every size limit, as integers and as string lengths, in every context.
func TestNumbers(t *testing.T) {
	nums := []string{"", "0", "00", "01", "007", "1", "3", "4", "5", "9", "10", "11", "99", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967299",
		"922337203685477579", "922337203685477580", "922337203685477581", "999999999999999999", "1000000000000000000",
		"9223372036854775799", "9223372036854775800", "9223372036854775801", "9223372036854775802", "9223372036854775803", "9223372036854775804", "9223372036854775805", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "9223372036854775817", "9999999999999999999",
		"10000000000000000000", "18446744073709551610", "18446744073709551612", "18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551619", "18446744073709551620", "36893488147419103232", "36893488147419103235", "99999999999999999999", "184467440737095516160", "184467440737095516163", "340282366920938463463374607431768211456", "340282366920938463463374607431768211459",
		strings.Repeat("9", 50), strings.Repeat("9", 5000), "1" + strings.Repeat("0", 64), "1" + strings.Repeat("0", 3000)}
	ctx := [][2]string{{"", ""}, {"l", "e"}, {"d1:k", "e"}, {"li1e", "i2ee"}, {"d1:al", "ee"}}
	vrt.Explore(t, vrt.Opts{Section: "number-limits", ShardDepth: 1}, func(x *vrt.X) {
		n := nums[x.Choose(len(nums), "number")]
		c := ctx[x.Choose(len(ctx), "context")]
		var b string
		switch x.Choose(7, "use") {
		case 0:
			b = "i" + n + "e"
		case 1:
			b = "i-" + n + "e"
		case 2:
			b = n + ":"
		case 3:
			b = n + ":abc"
		case 4:
			b = n + ":abcde"
		case 5:
			b = "d" + n + ":abci1ee"
		case 6:
			b = "i" + n
		}
		check(x, []byte(c[0]+b+c[1]))
	})
}

// TestLongNumbers: numbers of 17 to 22 digits with every leading triple, three fillings and every last digit,
// so that every way of wrapping around 64 bits occurs.
func TestLongNumbers(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "long-numbers", ShardDepth: 2}, func(x *vrt.X) {
		size := 17 + x.Choose(6, "digits")
		lead := 100 + x.Choose(900, "lead")
		fill := vrt.Of(x, "fill", "0", "5", "9")
		last := x.Choose(10, "last")
		n := strconv.Itoa(lead) + strings.Repeat(fill, size-4) + strconv.Itoa(last)
		check(x, []byte(vrt.Of(x, "use", "i"+n+"e", "i-"+n+"e", n+":abcdefghij")))
	})
}

// TestNesting: deep and unclosed nesting. Beyond 1000 levels refusing is allowed, crashing is not.
func TestNesting(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "nesting", ShardDepth: 1}, func(x *vrt.X) {
		n := vrt.Of(x, "depth", 1, 2, 3, 64, 100, 128, 255, 256, 500, 512, 999, 1000, 10000, 1000000, 20000000)
		open := vrt.Of(x, "open", "l", "d0:", "ld1:a")
		depth := n * strings.Count(strings.ReplaceAll(open, "ld", "xx"), "x")
		if depth == 0 {
			depth = n
		}
		b := strings.Repeat(open, n)
		var cl string
		switch x.Choose(3, "end") {
		case 0:
			cl = ""
		case 1:
			cl = "i1e" + strings.Repeat("e", depth)
		case 2:
			cl = "i1e" + strings.Repeat("e", depth-1)
		}
		in := []byte(b + cl)
		if depth <= 1000 {
			check(x, in)
			return
		}
		x.NoCrash("decode", func() {
			v, err := bencode.Parse(in)
			if err == nil && len(cl) < depth+3 {
				x.Fail("accepted", "%d levels of %q with %d closed accepted", depth, open, len(cl))
			}
			if err == nil && len(v.Raw()) != len(in) {
				x.Fail("source", "%d levels: kept %d of %d source bytes", depth, len(v.Raw()), len(in))
			}
		})
		x.Outcome(depth, open, cl == "")
	})
}

// TestWide: many elements next to each other, complete, cut short and with a wrong one at the end.
func TestWide(t *testing.T) {
	vrt.Explore(t, vrt.Opts{Section: "wide", ShardDepth: 2}, func(x *vrt.X) {
		n := vrt.Of(x, "n", 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 9998, 9999, 10000, 10001, 20000, 33000, 66000, 100001)
		elem := vrt.Of(x, "element", "i7e", "1:a", "le", "de", "ll1:aeld1:ki1eeee", "d1:ald0:leeee")
		dict := x.Bool("dictionary")
		var b strings.Builder
		if dict {
			b.WriteString("d")
		} else {
			b.WriteString("l")
		}
		for i := 0; i < n; i++ {
			if dict {
				fmt.Fprintf(&b, "6:%06d", i)
			}
			b.WriteString(elem)
		}
		b.WriteString(vrt.Of(x, "end", "e", "", "ie", "ee", "l"))
		check(x, []byte(b.String()))
	})
}
