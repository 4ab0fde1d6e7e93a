package vben

import (
	"bytes"
	"fmt"

	"github.com/anivanovic/gotit/pkg/bencode"
)

// Same compares a value of the code under test with a reference value; it returns "" or
// what differs. With raw, the kept source bytes of lists and dictionaries are compared too.
func Same(got bencode.Bencode, want *V, raw bool) string {
	switch want.K {
	case Int:
		g, ok := got.(bencode.IntElement)
		if !ok || int64(g) != want.I {
			return fmt.Sprintf("got %T %v instead of integer %d", got, got, want.I)
		}
	case Str:
		g, ok := got.(bencode.StringElement)
		if !ok || string(g) != want.S {
			return fmt.Sprintf("got %T %.60q instead of string %.60q", got, fmt.Sprint(got), want.S)
		}
	case List:
		var vals []bencode.Bencode
		switch g := got.(type) {
		case *bencode.ListElement:
			vals = g.Value
		case bencode.ListElement:
			vals = g.Value
		default:
			return fmt.Sprintf("got %T instead of a list", got)
		}
		if len(vals) != len(want.L) {
			return fmt.Sprintf("list of %d instead of %d elements", len(vals), len(want.L))
		}
		for i, v := range vals {
			if s := Same(v, want.L[i], raw); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
		if raw && !bytes.Equal(got.Raw(), want.Raw) {
			return fmt.Sprintf("list source bytes %.60q instead of %.60q", got.Raw(), want.Raw)
		}
	case Dict:
		var val func(string) bencode.Bencode
		switch g := got.(type) {
		case *bencode.DictElement:
			val = g.Value
		case bencode.DictElement:
			val = g.Value
		default:
			return fmt.Sprintf("got %T instead of a dictionary", got)
		}
		for _, k := range want.Keys {
			v := val(k)
			if v == nil {
				return fmt.Sprintf("key %q missing", k)
			}
			ok, last := false, ""
			for _, w := range want.D[k] {
				if last = Same(v, w, raw); last == "" {
					ok = true
					break
				}
			}
			if !ok {
				return fmt.Sprintf("[%q]: %s", k, last)
			}
		}
		if raw && !bytes.Equal(got.Raw(), want.Raw) {
			return fmt.Sprintf("dictionary source bytes %.60q instead of %.60q", got.Raw(), want.Raw)
		}
	}
	return ""
}

// Build makes the value with the constructors of the code under test, adding dictionary keys in
// the order of v.Keys.
func Build(v *V) bencode.Bencode {
	switch v.K {
	case Int:
		return bencode.Integer(int(v.I))
	case Str:
		return bencode.String(v.S)
	case List:
		var vs []bencode.Bencode
		for _, e := range v.L {
			vs = append(vs, Build(e))
		}
		return bencode.List(vs...)
	}
	b := bencode.NewDictBuilder()
	for _, k := range v.Keys {
		b = b.Add(k, Build(v.D[k][0]))
	}
	return b.Generate()
}
