// Package vben is an independent bencode reference: values, canonical encoder and a strict
// decoder that also says where the specification leaves a choice.
package vben

import (
	"bytes"
	"math/big"
	"sort"
	"strconv"
)

type Kind int

const (
	Int Kind = iota
	Str
	List
	Dict
)

// V is a value.
type V struct {
	K    Kind
	I    int64
	S    string
	L    []*V
	Keys []string // in source order
	D    map[string][]*V
	Raw  []byte
}

func I(i int64) *V  { return &V{K: Int, I: i} }
func S(s string) *V { return &V{K: Str, S: s} }
func L(vs ...*V) *V { return &V{K: List, L: vs} }
func D() *V         { return &V{K: Dict, D: map[string][]*V{}} }
func (v *V) Set(k string, e *V) *V {
	if _, ok := v.D[k]; !ok {
		v.Keys = append(v.Keys, k)
	}
	v.D[k] = []*V{e}
	return v
}

// Enc is the canonical encoding.
func (v *V) Enc() string {
	var b bytes.Buffer
	v.enc(&b, true)
	return b.String()
}

// EncSrc encodes with the dictionary keys in the order they were added.
func (v *V) EncSrc() string {
	var b bytes.Buffer
	v.enc(&b, false)
	return b.String()
}

func (v *V) enc(b *bytes.Buffer, sorted bool) {
	switch v.K {
	case Int:
		b.WriteByte('i')
		b.WriteString(strconv.FormatInt(v.I, 10))
		b.WriteByte('e')
	case Str:
		encS(b, v.S)
	case List:
		b.WriteByte('l')
		for _, e := range v.L {
			e.enc(b, sorted)
		}
		b.WriteByte('e')
	case Dict:
		b.WriteByte('d')
		ks := append([]string{}, v.Keys...)
		if sorted {
			sort.Slice(ks, func(i, j int) bool { return bytes.Compare([]byte(ks[i]), []byte(ks[j])) < 0 })
		}
		for _, k := range ks {
			encS(b, k)
			vs := v.D[k]
			vs[len(vs)-1].enc(b, sorted)
		}
		b.WriteByte('e')
	}
}

func encS(b *bytes.Buffer, s string) {
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
}

// Verdict of the reference decoder.
type Verdict int

const (
	Reject Verdict = iota
	Accept
	Either // well formed apart from superfluous zeros, a negative zero or repeated keys
)

type dec struct {
	b      []byte
	p      int
	either bool
}

// Decode decodes the value the bytes begin with.
func Decode(b []byte) (*V, int, Verdict) {
	d := &dec{b: b}
	v := d.value()
	if v == nil {
		return nil, 0, Reject
	}
	if d.either {
		return v, d.p, Either
	}
	return v, d.p, Accept
}

func (d *dec) at() int {
	if d.p < len(d.b) {
		return int(d.b[d.p])
	}
	return -1
}

func (d *dec) digits() (string, bool) {
	s := d.p
	for d.at() >= '0' && d.at() <= '9' {
		d.p++
	}
	t := string(d.b[s:d.p])
	if len(t) > 1 && t[0] == '0' {
		d.either = true
	}
	return t, len(t) > 0
}

func (d *dec) str() (string, bool) {
	t, ok := d.digits()
	if !ok || d.at() != ':' {
		return "", false
	}
	d.p++
	n := new(big.Int)
	n.SetString(t, 10)
	if n.Cmp(big.NewInt(int64(len(d.b)-d.p))) > 0 {
		return "", false
	}
	s := string(d.b[d.p : d.p+int(n.Int64())])
	d.p += int(n.Int64())
	return s, true
}

func (d *dec) value() *V {
	start := d.p
	switch c := d.at(); {
	case c == 'i':
		d.p++
		neg := false
		if d.at() == '-' {
			neg = true
			d.p++
		}
		t, ok := d.digits()
		if !ok || d.at() != 'e' {
			return nil
		}
		d.p++
		n := new(big.Int)
		n.SetString(t, 10)
		if neg {
			if n.Sign() == 0 {
				d.either = true
			}
			n.Neg(n)
		}
		if !n.IsInt64() {
			return nil
		}
		return I(n.Int64())
	case c >= '0' && c <= '9':
		s, ok := d.str()
		if !ok {
			return nil
		}
		return S(s)
	case c == 'l':
		d.p++
		v := L()
		for d.at() != 'e' {
			e := d.value()
			if e == nil {
				return nil
			}
			v.L = append(v.L, e)
		}
		d.p++
		v.Raw = d.b[start:d.p]
		return v
	case c == 'd':
		d.p++
		v := D()
		for d.at() != 'e' {
			k, ok := d.str()
			if !ok {
				return nil
			}
			e := d.value()
			if e == nil {
				return nil
			}
			if _, dup := v.D[k]; dup {
				d.either = true
			} else {
				v.Keys = append(v.Keys, k)
			}
			v.D[k] = append(v.D[k], e)
		}
		d.p++
		v.Raw = d.b[start:d.p]
		return v
	}
	return nil
}
