package c27

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/verifmc/vben"
	"github.com/anivanovic/gotit/verifmc/vrt"
)

func TestMain(m *testing.M) { vrt.Main(m, "C27") }

type (
	myStr   string
	myInt   int16
	myUint  uint32
	myBytes []byte
	myByte  uint8
	myList  []string
	myMap   map[string]int
	inner   struct {
		N int    `ben:"n"`
		S string `ben:"s,optional"`
	}
	node struct {
		V    int     `ben:"v"`
		Next *node   `ben:"next,optional"`
		More []*node `ben:"more,optional"`
	}
	embedding struct {
		inner2 `ben:"in"`
		X      int `ben:"x,optional"`
	}
	inner2 struct {
		N int `ben:"n"`
	}
	Inner3 struct {
		N int `ben:"n"`
	}
	embedded struct {
		Inner3 `ben:"in"`
		X      int `ben:"x,optional"`
	}
	noTags struct {
		A, B int
	}
)

type verdict int

const (
	must   verdict = iota // the value has to be taken exactly
	either                // taken (somehow) or refused
	never                 // refused
)

func worst(a, b verdict) verdict { return max(a, b) }

// conv says what a field of type t holds after value v was put into it.
func conv(t reflect.Type, v *vben.V) (reflect.Value, verdict) {
	z := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		switch v.K {
		case vben.Str:
			z.SetString(v.S)
			return z, must
		case vben.Int: // its digits, or refused
			return z, either
		}
		return z, never
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch v.K {
		case vben.Int:
			if z.OverflowInt(v.I) {
				return z, never
			}
			z.SetInt(v.I)
			return z, must
		case vben.Str: // numeric text may be taken
			if digits(v.S) {
				return z, either
			}
		}
		return z, never
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch v.K {
		case vben.Int:
			if v.I < 0 || z.OverflowUint(uint64(v.I)) {
				return z, never
			}
			z.SetUint(uint64(v.I))
			return z, must
		case vben.Str:
			if digits(v.S) {
				return z, either
			}
		}
		return z, never
	case reflect.Pointer:
		if t.Elem().Kind() == reflect.Pointer { // pointers to pointers may be refused
			return z, either
		}
		e, w := conv(t.Elem(), v)
		if w == must {
			z.Set(reflect.New(t.Elem()))
			z.Elem().Set(e)
		}
		return z, w
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if t.Elem() != reflect.TypeFor[uint8]() {
				return z, either
			}
			switch v.K {
			case vben.Str:
				z.SetBytes([]byte(v.S))
				return z, must
			case vben.Int:
				return z, either
			}
			z.SetBytes([]byte(v.EncSrc()))
			return z, must
		}
		if v.K != vben.List {
			return z, never
		}
		z.Set(reflect.MakeSlice(t, len(v.L), len(v.L)))
		r := must
		for i, e := range v.L {
			k, w := conv(t.Elem(), e)
			r = worst(r, w)
			if w == must {
				z.Index(i).Set(k)
			}
		}
		return z, r
	case reflect.Map:
		if v.K != vben.Dict {
			return z, never
		}
		r := must
		z.Set(reflect.MakeMap(t))
		for _, k := range v.Keys {
			e, w := conv(t.Elem(), v.D[k][0])
			r = worst(r, w)
			if w == must && t.Key().Kind() == reflect.String {
				z.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), e)
			}
		}
		if t.Key().Kind() != reflect.String {
			if len(v.Keys) > 0 {
				return z, never
			}
			return z, worst(r, either)
		}
		if t.Key() != reflect.TypeFor[string]() {
			r = worst(r, either)
		}
		return z, r
	case reflect.Struct:
		if v.K != vben.Dict {
			if tagged(t) == 0 {
				return z, either
			}
			return z, never
		}
		r := fill(z, v)
		return z, r
	}
	return z, never // bool, float, interface, array, func, chan
}

func tagged(t reflect.Type) int {
	n := 0
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Tag.Get("ben") != "" && t.Field(i).IsExported() {
			n++
		}
	}
	return n
}

// fill sets the tagged fields of z, which keeps what it holds elsewhere.
func fill(z reflect.Value, v *vben.V) verdict {
	r := must
	for i := 0; i < z.NumField(); i++ {
		f := z.Type().Field(i)
		name, opt, _ := strings.Cut(f.Tag.Get("ben"), ",")
		if name == "" || !f.IsExported() {
			continue
		}
		e, ok := v.D[name]
		if !ok {
			if !slices.Contains(strings.Split(opt, ","), "optional") {
				r = worst(r, never)
			}
			continue
		}
		if f.Type.Kind() == reflect.Struct && e[0].K == vben.Dict { // optional fields in it keep what they hold
			r = worst(r, fill(z.Field(i), e[0]))
			continue
		}
		if f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct && !z.Field(i).IsNil() && e[0].K == vben.Dict {
			c := reflect.New(f.Type.Elem())
			c.Elem().Set(z.Field(i).Elem())
			r = worst(r, fill(c.Elem(), e[0]))
			z.Field(i).Set(c)
			continue
		}
		k, w := conv(f.Type, e[0])
		r = worst(r, w)
		if w == must {
			z.Field(i).Set(k)
		}
	}
	return r
}

// digits says whether text may be taken as a number by anybody.
func digits(s string) bool { return strings.ContainsAny(s, "0123456789") }

// same compares; nil and empty slices and maps are the same.
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if e := b.MapIndex(k); !e.IsValid() || !same(a.MapIndex(k), e) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Interface, reflect.Func, reflect.Chan:
		return a.IsNil() == b.IsNil()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.IsZero() == b.IsZero()
}

var bases = []reflect.Type{
	reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
	reflect.TypeFor[uint](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](), reflect.TypeFor[[]byte](), reflect.TypeFor[uint8](),
	reflect.TypeFor[inner](), reflect.TypeFor[node](), reflect.TypeFor[myStr](), reflect.TypeFor[myInt](), reflect.TypeFor[myUint](), reflect.TypeFor[myBytes](), reflect.TypeFor[myList](), reflect.TypeFor[myMap](),
	reflect.TypeFor[embedding](), reflect.TypeFor[embedded](), reflect.TypeFor[noTags](), reflect.TypeFor[struct{}](),
	// unusual ones
	reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[any](), reflect.TypeFor[[2]int](), reflect.TypeFor[chan int](), reflect.TypeFor[func()](),
	reflect.TypeFor[map[int]string](), reflect.TypeFor[map[myStr]int](), reflect.TypeFor[[]myByte](), reflect.TypeFor[[3]byte](), reflect.TypeFor[complex128](), reflect.TypeFor[uintptr](), reflect.TypeFor[error](),
}

func field(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = reflect.StructTag(fmt.Sprintf("ben:%q", tag))
	}
	if name[0] >= 'a' {
		f.PkgPath = "x"
	}
	return f
}

// wrap makes a larger type.
func wrap(t reflect.Type, k int) reflect.Type {
	switch k {
	case 0:
		return reflect.PointerTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		return reflect.MapOf(reflect.TypeFor[string](), t)
	case 3:
		return reflect.StructOf([]reflect.StructField{field("A", t, "a")})
	default:
		return reflect.StructOf([]reflect.StructField{field("A", t, "a,optional"), field("B", reflect.TypeFor[int8](), "b,optional")})
	}
}

const wraps = 5

var ints = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

var texts = []string{"", "a", "abc", "7", "-7", "i7e", "0x10", "le", "de", "\x00\xff", "žluť", "1e3", " 1", "true", strings.Repeat("z", 300)}

// leaves: every kind of value, the interesting ones of it.
func leaves() []*vben.V {
	var vs []*vben.V
	for _, i := range ints {
		vs = append(vs, vben.I(i))
	}
	for _, s := range texts {
		vs = append(vs, vben.S(s))
	}
	n := func(i int64) *vben.V { return vben.D().Set("n", vben.I(i)) }
	return append(vs, vben.L(), vben.D(), vben.L(vben.I(1)), vben.L(vben.S("x"), vben.S("yy")), vben.L(vben.I(5), vben.S("x")), vben.L(vben.L()), vben.L(vben.D()),
		n(7), n(1<<40), n(3).Set("s", vben.S("t")), n(3).Set("s", vben.L()), vben.D().Set("n", vben.S("x")), vben.D().Set("s", vben.S("t")), n(4).Set("zz", vben.L(vben.I(4))),
		vben.D().Set("v", vben.I(1)), vben.D().Set("v", vben.I(1)).Set("next", vben.D().Set("v", vben.I(2)).Set("next", vben.D().Set("v", vben.I(-3)))),
		vben.D().Set("v", vben.I(1)).Set("next", vben.D()), vben.D().Set("v", vben.I(1)).Set("more", vben.L(vben.D().Set("v", vben.I(5)), vben.D().Set("v", vben.I(6)).Set("next", vben.D().Set("v", vben.I(9))))),
		vben.D().Set("v", vben.I(1)).Set("more", vben.L(vben.I(1))),
		vben.D().Set("in", n(8)), vben.D().Set("in", n(8)).Set("x", vben.I(2)), vben.D().Set("in", vben.I(2)), vben.D().Set("k", vben.I(1)), vben.D().Set("k", vben.I(1)).Set("", vben.I(70000)).Set("l", vben.I(-5)), vben.D().Set("k", vben.S("v")), vben.D().Set("1", vben.S("v")))
}

// put calls Unmarshal for a struct type and judges the result.
func put(x *vrt.X, t reflect.Type, pre reflect.Value, src string, v *vben.V) {
	target := reflect.New(t)
	want := reflect.New(t).Elem()
	if pre.IsValid() {
		target.Elem().Set(pre)
		want.Set(pre)
	}
	w := fill(want, v)
	what := func() string { return fmt.Sprintf("%v from %.300q", t, src) }
	in := []byte(src)
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				x.Fail("crash", "%s: %v", what(), p)
			}
		}()
		return bencode.Unmarshal(in, target.Interface())
	}()
	if string(in) != src {
		x.Fail("input", "%s: the input is changed", what())
	}
	switch {
	case w == must && err != nil:
		x.Fail("refused", "%s: %v", what(), err)
	case w == never && err == nil:
		x.Fail("accepted", "%s: accepted as %.300q", what(), fmt.Sprintf("%+v", target.Elem()))
	case w == must && !same(target.Elem(), want):
		x.Fail("value", "%s: %.300q instead of %.300q", what(), fmt.Sprintf("%+v", target.Elem()), fmt.Sprintf("%+v", want))
	}
	x.Outcome(t.String(), w, err == nil)
}

// Every type of a grammar with every value, and values wrapped like the type.
func TestTypes(t *testing.T) {
	ls := leaves()
	vrt.Explore(t, vrt.Opts{Section: "types and values"}, func(x *vrt.X) {
		ty := bases[x.Choose(len(bases), "base")]
		depth := x.Choose(vrt.Pick(3, 4), "depth")
		ks := make([]int, depth)
		for i := range ks {
			ks[i] = x.Choose(wraps, "wrap")
			ty = wrap(ty, ks[i])
		}
		v := ls[x.Choose(len(ls), "value")]
		for _, k := range ks { // the same way around the value, or one step left out
			switch k {
			case 1:
				switch x.Choose(3, "list") {
				case 0:
					v = vben.L(v)
				case 1:
					v = vben.L(v, vben.I(1), v)
				}
			case 2:
				switch x.Choose(3, "dict") {
				case 0:
					v = vben.D().Set("key", v)
				case 1:
					v = vben.D().Set("z", v).Set("", v).Set("a", vben.S("q"))
				}
			case 3:
				switch x.Choose(3, "struct") {
				case 0:
					v = vben.D().Set("a", v)
				case 1:
					v = vben.D().Set("c", v).Set("A", v)
				}
			case 4:
				switch x.Choose(4, "struct") {
				case 0:
					v = vben.D().Set("a", v)
				case 1:
					v = vben.D().Set("a", v).Set("b", vben.I(-128))
				case 2:
					v = vben.D().Set("b", v)
				}
			}
		}
		st := reflect.StructOf([]reflect.StructField{field("F", ty, "f")})
		d := vben.D().Set("f", v)
		put(x, st, reflect.Value{}, d.EncSrc(), d)
	})
}

// Structs of several fields: required, optional, untagged, unexported and repeated tags, every subset of keys in
// several orders, targets that hold something already, text after the value.
func TestStructs(t *testing.T) {
	tags := []string{"a", "a,optional", "b", "b,optional", "key with blanks", "a,bogus,optional", "a,bogus", "A", "", "b,optional,bogus", "optional", "optional,optional"}
	types := []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[int16](), reflect.TypeFor[uint64](), reflect.TypeFor[[]byte](), reflect.TypeFor[*int32](), reflect.TypeFor[[]string](), reflect.TypeFor[map[string]int](), reflect.TypeFor[inner](), reflect.TypeFor[*inner]()}
	good := func(t reflect.Type) *vben.V {
		switch t.Kind() {
		case reflect.Int16, reflect.Uint64:
			return vben.I(12)
		case reflect.Slice:
			if t.Elem().Kind() == reflect.Uint8 {
				return vben.D().Set("x", vben.I(1)).Set("b", vben.L())
			}
			return vben.L(vben.S("q"), vben.S(""))
		case reflect.Map:
			return vben.D().Set("p", vben.I(4))
		case reflect.Struct:
			return vben.D().Set("n", vben.I(4))
		case reflect.Pointer:
			if t.Elem().Kind() == reflect.Struct {
				return vben.D().Set("n", vben.I(4))
			}
			return vben.I(12)
		}
		return vben.S("text")
	}
	pre := func(t reflect.Type) reflect.Value {
		switch t.Kind() {
		case reflect.Int16:
			return reflect.ValueOf(int16(99))
		case reflect.Uint64:
			return reflect.ValueOf(uint64(99))
		case reflect.String:
			return reflect.ValueOf("before")
		case reflect.Slice:
			if t.Elem().Kind() == reflect.Uint8 {
				return reflect.ValueOf([]byte("some bytes before"))
			}
			return reflect.ValueOf([]string{"a", "b", "c", "d"})
		case reflect.Map:
			return reflect.ValueOf(map[string]int{"before": 3, "p": 2})
		case reflect.Struct:
			return reflect.ValueOf(inner{N: 9, S: "before"})
		case reflect.Pointer:
			if t.Elem().Kind() == reflect.Int32 {
				n := int32(77)
				return reflect.ValueOf(&n)
			}
			return reflect.ValueOf(&inner{N: 9, S: "before"})
		}
		return reflect.Zero(t)
	}
	vrt.Explore(t, vrt.Opts{Section: "structs"}, func(x *vrt.X) {
		n := 1 + x.Choose(vrt.Pick(2, 3), "fields")
		var fs []reflect.StructField
		prefill := x.Bool("prefilled")
		for i := 0; i < n; i++ {
			ty := types[x.Choose(len(types), "type")]
			tag := tags[x.Choose(len(tags), "tag")]
			fs = append(fs, field(string(rune('A'+i)), ty, tag))
		}
		hidden := x.Choose(3, "hidden")
		switch hidden {
		case 1:
			fs = append(fs, field("hidden", reflect.TypeFor[string](), "a"))
		case 2:
			fs = append([]reflect.StructField{field("hidden", reflect.TypeFor[int](), "required")}, fs...)
		}
		ty := reflect.StructOf(fs)
		p := reflect.New(ty).Elem()
		if prefill {
			for i := range fs {
				if fs[i].IsExported() {
					p.Field(i).Set(pre(fs[i].Type))
				}
			}
		}
		d := vben.D()
		mask := x.Choose(1<<n, "present")
		rev := x.Bool("reversed")
		for k := range fs {
			i := k
			if rev {
				i = len(fs) - 1 - k
			}
			f := fs[i]
			name, _, _ := strings.Cut(f.Tag.Get("ben"), ",")
			if name != "" && f.IsExported() && mask>>int(f.Name[0]-'A')&1 == 1 && d.D[name] == nil {
				d.Set(name, good(f.Type))
			}
		}
		switch x.Choose(4, "more") {
		case 1:
			d.Set("other", vben.L(vben.D()))
		case 2:
			d.Set("hidden", vben.I(3))
			d.Set("", vben.S("x"))
		case 3:
			d.Set("AA", vben.S("x"))
		}
		src := d.EncSrc()
		if x.Bool("text after") {
			src += "trailing"
		}
		put(x, ty, p, src, d)
	})
	// deep nesting: a list of nodes as long as nesting allows
	vrt.Explore(t, vrt.Opts{Section: "deep structs"}, func(x *vrt.X) {
		n := []int{1, 2, 10, 100, 990, 5000, 9990, 20000, 1000000}[x.Choose(9, "depth")]
		by := x.Choose(2, "by")
		var b strings.Builder
		end := ""
		if by == 1 {
			end = "e"
		}
		for i := 0; i < n; i++ {
			if by == 0 {
				b.WriteString("d4:next")
			} else {
				b.WriteString("d4:morel")
			}
		}
		b.WriteString("d1:vi7ee")
		for i := 0; i < n; i++ {
			b.WriteString(end + "1:vi8ee")
		}
		var got node
		err := bencode.Unmarshal([]byte(b.String()), &got)
		if err != nil && n < 400 {
			x.Fail("refused", "%d levels: %v", n, err)
		}
		if err == nil {
			p := &got
			for i := 0; i < n; i++ {
				if p.V != 8 {
					x.Fail("value", "level %d holds %d", i, p.V)
				}
				if by == 0 {
					p = p.Next
				} else {
					p = p.More[0]
				}
			}
			if p.V != 7 || p.Next != nil || len(p.More) > 0 {
				x.Fail("value", "the last level holds %d", p.V)
			}
		}
		x.Outcome(n, by, err == nil)
	})
}

// Targets that are no pointers to structs are refused.
func TestTargets(t *testing.T) {
	type s struct {
		A int `ben:"a"`
	}
	i, str, sl, m := 1, "x", []int{1}, map[string]int{}
	ps := &s{}
	var np *s
	var ni *int
	var e error
	ts := []any{nil, 1, "x", s{}, []int{}, map[string]int{}, &i, &str, &sl, &m, &ps, np, ni, &e, func() {}, struct{}{}, ps}
	vals := []string{"", "i1e", "1:a", "le", "de", "d1:ai1ee", "d1:ai1e", "d1:a1:xe", "x", "d1:ali1eee", "d1:ai1ee1:x", "d1:ai-e"}
	vrt.Explore(t, vrt.Opts{Section: "targets"}, func(x *vrt.X) {
		k := x.Choose(len(ts), "target")
		v := x.Choose(len(vals), "value")
		*ps = s{5}
		err := func() (err error) {
			defer func() {
				if p := recover(); p != nil {
					x.Fail("crash", "target %d (%T), %q: %v", k, ts[k], vals[v], p)
				}
			}()
			return bencode.Unmarshal([]byte(vals[v]), ts[k])
		}()
		good := k == len(ts)-1 && (v == 5 || v == 10)
		if good != (err == nil) {
			x.Fail("target", "target %d (%T), %q: %v", k, ts[k], vals[v], err)
		}
		if good && ps.A != 1 {
			x.Fail("value", "%q gives %d", vals[v], ps.A)
		}
		if !good && k != len(ts)-1 && ps.A != 5 {
			x.Fail("touched", "target %d, %q", k, vals[v])
		}
		x.Outcome(k, v)
	})
}
