package vswarm

import (
	"fmt"
	"time"

	"github.com/anivanovic/gotit/verifmc/vnet"
)

// Bad is a behaviour of a peer that is not the seed.
type Bad struct {
	Name string
	K    int
}

// Bads are all of them.
var Bads []Bad

func init() {
	one := func(names ...string) {
		for _, n := range names {
			Bads = append(Bads, Bad{n, 0})
		}
	}
	one("refuses", "black hole", "wrong hash", "no handshake", "half a handshake", "handshake only", "never unchokes",
		"flapping choke", "all corrupt", "nothing to offer", "blocks our writes", "chatters", "huge prefix", "ends in a piece",
		"drips", "pushes everything", "pushes corrupt data", "everything twice", "junk besides", "one piece only", "answers in 29 s", "answers in 31 s")
	for k := 0; k < 3; k++ {
		for _, n := range []string{"silent after answer", "chokes after answer", "corrupt answer", "short answer", "long answer", "empty answer",
			"wrong index", "wrong offset", "another piece", "ends after request", "resets after request"} {
			Bads = append(Bads, Bad{n, k})
		}
	}
	for k := 0; k < 5; k++ {
		Bads = append(Bads, Bad{"ends after message", k}, Bad{"resets after message", k})
	}
}

func (b Bad) String() string { return fmt.Sprintf("%s %d", b.Name, b.K) }

func flip(b []byte) []byte {
	c := append([]byte{}, b...)
	c[len(c)-1] ^= 4
	return c
}

// Install makes r behave badly.
func (b Bad) Install(r *Remote) {
	w := r.W
	switch b.Name {
	case "refuses":
		r.Accept = func(*RC) error { return vnet.ErrRefused }
		return
	case "black hole":
		r.Accept = func(*RC) error { return vnet.ErrBlackhole }
		return
	case "wrong hash":
		r.Hello = func(rc *RC) { rc.C.Push(vnet.Handshake(make([]byte, 20), "x")); rc.C.Push(w.Bitfield()) }
		return
	case "no handshake":
		r.Hello = func(*RC) {}
		return
	case "half a handshake":
		r.Hello = func(rc *RC) { rc.C.Push(vnet.Handshake(w.T.Hash, "x")[:30]) }
		return
	case "blocks our writes":
		r.Hello = func(rc *RC) { rc.Hello(); rc.C.Push(w.Bitfield()); rc.C.Push(vnet.Unchoke()); rc.C.Stall(true) }
		return
	}
	send := func(rc *RC, m []byte) {
		if rc.Closed {
			return
		}
		if (b.Name == "ends after message" || b.Name == "resets after message") && rc.sentB == b.K {
			if b.Name == "ends after message" {
				rc.Drop()
			} else {
				rc.Closed = true
				rc.C.Reset()
			}
			return
		}
		rc.sentB++
		rc.Send(m)
	}
	r.Msg = func(rc *RC, m vnet.M) {
		if m.Keep {
			return
		}
		switch m.ID {
		case 2:
			if rc.Greet {
				return
			}
			rc.Greet = true
			switch b.Name {
			case "handshake only":
				return
			case "never unchokes":
				send(rc, w.Bitfield())
				return
			case "nothing to offer":
				send(rc, vnet.Unchoke())
				return
			case "one piece only":
				send(rc, vnet.Have(uint32(w.L.Pieces()-1)))
				send(rc, vnet.Unchoke())
				return
			case "huge prefix":
				send(rc, w.Bitfield())
				send(rc, vnet.Unchoke())
				send(rc, []byte{0x7f, 0xff, 0xff, 0xff, 7})
				return
			}
			send(rc, w.Bitfield())
			send(rc, vnet.Unchoke())
			switch b.Name {
			case "pushes everything":
				for i := 0; i < w.L.Pieces(); i++ {
					send(rc, vnet.Piece(uint32(i), 0, w.L.Piece(i)))
				}
			case "pushes corrupt data":
				for i := 0; i < w.L.Pieces(); i++ {
					send(rc, vnet.Piece(uint32(i), 0, flip(w.L.Piece(i))))
				}
			}
		case 6:
			n := rc.Reqs
			rc.Reqs++
			a := w.Answer(m)
			if a == nil {
				return
			}
			data := append([]byte{}, a[13:]...)
			i, o := m.U(0), m.U(1)
			if n == b.K {
				switch b.Name {
				case "corrupt answer":
					send(rc, flip(a))
					return
				case "short answer":
					send(rc, vnet.Piece(i, o, data[:len(data)-1]))
					return
				case "long answer":
					send(rc, vnet.Piece(i, o, append(data, 0)))
					return
				case "empty answer":
					send(rc, vnet.Piece(i, o, nil))
					return
				case "wrong index":
					send(rc, vnet.Piece((i+1)%uint32(w.L.Pieces()), o, data))
					return
				case "wrong offset":
					send(rc, vnet.Piece(i, o+1, data))
					return
				case "another piece":
					j := (i + 1) % uint32(w.L.Pieces())
					send(rc, vnet.Piece(j, 0, w.L.Piece(int(j))))
					return
				case "ends after request":
					rc.Drop()
					return
				case "resets after request":
					rc.Closed = true
					rc.C.Reset()
					return
				}
			}
			if n >= b.K {
				switch b.Name {
				case "silent after answer":
					return
				case "chokes after answer":
					if n == b.K {
						send(rc, vnet.Choke())
					}
					return
				}
			}
			switch b.Name {
			case "flapping choke":
				send(rc, vnet.Choke())
				time.AfterFunc(time.Second, func() { send(rc, vnet.Unchoke()) })
				return
			case "all corrupt":
				send(rc, flip(a))
				return
			case "chatters":
				var f func()
				n := 0
				f = func() {
					send(rc, vnet.KeepAlive())
					if n++; n < 400 && !rc.C.IsClosed() {
						time.AfterFunc(700*time.Millisecond, f)
					}
				}
				f()
				return
			case "ends in a piece":
				send(rc, a[:len(a)-1])
				rc.Drop()
				return
			case "drips":
				rc.C.Push(a[:13])
				var f func()
				j := 13
				f = func() {
					if j < len(a)-1 && j < 13+2000 && !rc.C.IsClosed() {
						rc.C.Push(a[j : j+1])
						j++
						time.AfterFunc(900*time.Millisecond, f)
					}
				}
				f()
				return
			case "everything twice":
				send(rc, a)
				send(rc, a)
				return
			case "junk besides":
				send(rc, vnet.Msg(20, 1, 2, 3))
				send(rc, vnet.Request(0, 0, 4))
				send(rc, vnet.Msg(9, 1))
				send(rc, a)
				send(rc, vnet.Interested())
				return
			case "answers in 29 s", "answers in 31 s":
				d := 29 * time.Second
				if b.Name == "answers in 31 s" {
					d = 31 * time.Second
				}
				time.AfterFunc(d, func() { send(rc, a) })
				return
			}
			send(rc, a)
		}
	}
}

// Seeds are behaviours of seeds: all of them answer every request of an unchoked client rightly within 1/2 s
var Seeds = []string{"prompt", "400 ms", "haves", "greets first", "unchokes late", "chokes for a while", "repeats its haves", "in parts", "bitfield late"}

// InstallSeed makes r a seed.
func InstallSeed(r *Remote, kind string) {
	w := r.W
	answer := func(rc *RC, m vnet.M) {
		if m.ID == 6 && !m.Keep {
			if a := w.Answer(m); a != nil {
				rc.Send(a)
			}
		}
	}
	first := func(rc *RC, m vnet.M) bool {
		if m.Keep || m.ID != 2 || rc.Greet {
			return false
		}
		rc.Greet = true
		return true
	}
	switch kind {
	case "400 ms":
		r.Hello = func(rc *RC) { time.AfterFunc(400*time.Millisecond, rc.Hello) }
		r.Msg = func(rc *RC, m vnet.M) { time.AfterFunc(400*time.Millisecond, func() { rc.Seed(m) }) }
	case "haves":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				for i := w.L.Pieces() - 1; i >= 0; i-- {
					rc.Send(vnet.Have(uint32(i)))
				}
				rc.Send(vnet.Unchoke())
			}
			answer(rc, m)
		}
	case "greets first":
		r.Hello = func(rc *RC) {
			rc.Hello()
			rc.Greet = true
			rc.Send(w.Bitfield())
			rc.Send(vnet.Unchoke())
		}
	case "unchokes late":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				rc.Send(w.Bitfield())
				time.AfterFunc(15*time.Second, func() { rc.Send(vnet.Unchoke()) })
			}
			answer(rc, m)
		}
	case "bitfield late":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				rc.Send(vnet.Unchoke())
				time.AfterFunc(3*time.Second, func() { rc.Send(w.Bitfield()) })
			}
			answer(rc, m)
		}
	case "chokes for a while":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				rc.Send(w.Bitfield())
				rc.Send(vnet.Unchoke())
			}
			if m.ID == 6 && !m.Keep {
				rc.Reqs++
				if rc.Reqs == 2 {
					rc.Send(vnet.Choke())
					time.AfterFunc(5*time.Second, func() { rc.Send(vnet.Unchoke()) })
					return
				}
			}
			answer(rc, m)
		}
	case "repeats its haves":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				rc.Send(w.Bitfield())
				rc.Send(vnet.Unchoke())
			}
			rc.Send(vnet.Have(0))
			rc.Send(vnet.KeepAlive())
			answer(rc, m)
			rc.Send(vnet.Unchoke())
		}
	case "in parts":
		r.Msg = func(rc *RC, m vnet.M) {
			if first(rc, m) {
				rc.Send(w.Bitfield())
				rc.Send(vnet.Unchoke())
			}
			if m.ID == 6 && !m.Keep {
				if a := w.Answer(m); a != nil {
					rc.C.Push(a[:7])
					rc.C.PushAfter(200*time.Millisecond, a[7:14])
					rc.C.PushAfter(400*time.Millisecond, a[14:])
				}
			}
		}
	}
}

// Ats are the moments at which a chatty seed says something besides.
var Ats = []string{"after the handshake", "before the unchoke", "after the unchoke", "before answer 0", "before answer 1", "before answer 2",
	"after answer 0", "after answer 1", "after answer 2", "before every answer", "after every answer", "every 700 ms"}

// InstallChatty makes r a seed that says m besides at the given moments.
func InstallChatty(r *Remote, says map[string][]byte) {
	w := r.W
	say := func(rc *RC, at string) {
		if m := says[at]; m != nil {
			rc.Send(m)
		}
	}
	r.Hello = func(rc *RC) {
		rc.Hello()
		say(rc, "after the handshake")
		if says["every 700 ms"] != nil {
			n := 0
			var f func()
			f = func() {
				if n++; n < 200 && !rc.C.IsClosed() {
					say(rc, "every 700 ms")
					time.AfterFunc(700*time.Millisecond, f)
				}
			}
			f()
		}
	}
	r.Msg = func(rc *RC, m vnet.M) {
		if m.Keep {
			return
		}
		switch m.ID {
		case 2:
			if !rc.Greet {
				rc.Greet = true
				rc.Send(w.Bitfield())
				say(rc, "before the unchoke")
				rc.Send(vnet.Unchoke())
				say(rc, "after the unchoke")
			}
		case 6:
			n := rc.Reqs
			rc.Reqs++
			if a := w.Answer(m); a != nil {
				say(rc, fmt.Sprint("before answer ", n))
				say(rc, "before every answer")
				rc.Send(a)
				say(rc, fmt.Sprint("after answer ", n))
				say(rc, "after every answer")
			}
		}
	}
}
