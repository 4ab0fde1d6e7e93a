package vnet

import (
	"encoding/binary"
	"fmt"
)

// Msg encodes a peer message.
func Msg(id byte, payload ...byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(1+len(payload)))
	return append(append(b, id), payload...)
}

// U32 appends big-endian words.
func U32(v ...uint32) []byte {
	var b []byte
	for _, e := range v {
		b = binary.BigEndian.AppendUint32(b, e)
	}
	return b
}

func Choke() []byte                 { return Msg(0) }
func Unchoke() []byte               { return Msg(1) }
func Interested() []byte            { return Msg(2) }
func NotInterested() []byte         { return Msg(3) }
func Have(i uint32) []byte          { return Msg(4, U32(i)...) }
func Bitfield(b ...byte) []byte     { return Msg(5, b...) }
func Request(i, o, l uint32) []byte { return Msg(6, U32(i, o, l)...) }
func Piece(i, o uint32, d []byte) []byte {
	return Msg(7, append(U32(i, o), d...)...)
}
func Cancel(i, o, l uint32) []byte { return Msg(8, U32(i, o, l)...) }
func KeepAlive() []byte            { return []byte{0, 0, 0, 0} }

// Handshake is a BEP 3 handshake.
func Handshake(hash []byte, id string) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 0)
	b = append(b, hash...)
	return append(b, fmt.Sprintf("%-20.20s", id)...)
}

// M is a decoded message.
type M struct {
	Keep    bool
	ID      byte
	Payload []byte
}

func (m M) U(i int) uint32 { return binary.BigEndian.Uint32(m.Payload[4*i:]) }

func (m M) String() string {
	if m.Keep {
		return "keep-alive"
	}
	names := []string{"choke", "unchoke", "interested", "not-interested", "have", "bitfield", "request", "piece", "cancel"}
	if int(m.ID) < len(names) {
		if m.ID == 6 && len(m.Payload) == 12 {
			return fmt.Sprintf("request(%d,%d,%d)", m.U(0), m.U(1), m.U(2))
		}
		return names[m.ID]
	}
	return fmt.Sprintf("message %d", m.ID)
}

// Split cuts a byte stream into messages; rest is what does not form a message.
func Split(b []byte) (ms []M, rest []byte) {
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if len(b)-4 < n {
			break
		}
		if n == 0 {
			ms = append(ms, M{Keep: true})
		} else {
			ms = append(ms, M{ID: b[4], Payload: b[5 : 4+n]})
		}
		b = b[4+n:]
	}
	return ms, b
}
