// Package vnet is a network inside the process: every dial of the code under test ends here, the
// remote side is a script, time is the virtual time of the bubble, and everything is recorded.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"sync"
	"syscall"
	"time"
)

// AfterBlock is called by a goroutine of the code under test after it was blocked in the network.
var AfterBlock = func() {}

// BeforeOp is called by a goroutine of the code under test before every network operation.
var BeforeOp = func(op string) {}

// Write is one write of the client.
type Write struct {
	At   time.Time
	Data []byte
}

// Conn is one connection; the client's side implements net.Conn.
type Conn struct {
	Net      *Net
	Network  string
	Addr     string
	Opened   time.Time
	ClosedAt time.Time
	N        int // number of the connection to this address, from 0

	// OnData is called after every write of the client, by the client's goroutine.
	OnData func(c *Conn, b []byte)
	// OnClose is called when the client closes the connection.
	OnClose func(c *Conn)

	mu       sync.Mutex
	in       [][]byte
	eof      bool
	reset    error
	closed   bool
	failed   bool
	closes   int
	rdl, wdl time.Time
	note     chan struct{}
	writes   []Write
	stall    bool
	werr     error
	werrOnce bool
	reads    int
	inRead   bool
	sched    time.Time
	consumed int
	datagram bool
}

func (c *Conn) wake() {
	close(c.note)
	c.note = make(chan struct{})
}

// Push makes bytes available to the client as one segment or datagram.
func (c *Conn) Push(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, append([]byte{}, b...))
	c.wake()
	c.mu.Unlock()
}

// PushAfter pushes after a while.
func (c *Conn) PushAfter(d time.Duration, b []byte) {
	b = append([]byte{}, b...)
	c.mu.Lock()
	at := time.Now().Add(d)
	if !at.After(c.sched) { // pushes never overtake each other
		at = c.sched.Add(time.Nanosecond)
	}
	c.sched = at
	c.mu.Unlock()
	time.AfterFunc(time.Until(at), func() { c.Push(b) })
}

// EOF ends the stream from the remote side after what was pushed.
func (c *Conn) EOF() {
	c.mu.Lock()
	c.eof = true
	c.wake()
	c.mu.Unlock()
}

// Reset breaks the connection: pending bytes are lost, reads and writes fail.
func (c *Conn) Reset() {
	c.mu.Lock()
	c.reset = &net.OpError{Op: "read", Net: c.Network, Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	c.in = nil
	c.wake()
	c.mu.Unlock()
}

// Stall makes writes of the client block until their deadline.
func (c *Conn) Stall(on bool) { c.mu.Lock(); c.stall = on; c.mu.Unlock() }

// FailWrites makes writes fail.
func (c *Conn) FailWrites(err error) { c.mu.Lock(); c.werr, c.werrOnce = err, false; c.mu.Unlock() }

// FailWrite makes the next write fail.
func (c *Conn) FailWrite(err error) { c.mu.Lock(); c.werr, c.werrOnce = err, true; c.mu.Unlock() }

// Writes returns what the client wrote.
func (c *Conn) Writes() []Write {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Write{}, c.writes...)
}

// Sent returns all bytes the client wrote.
func (c *Conn) Sent() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	var b []byte
	for _, w := range c.writes {
		b = append(b, w.Data...)
	}
	return b
}

// Gone says whether the client has closed the connection or never got it.
func (c *Conn) Gone() bool {
	c.mu.Lock()
	f := c.failed
	c.mu.Unlock()
	return f || c.IsClosed()
}

// Pending returns the number of pushed segments the client has not read.
func (c *Conn) Pending() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.in) }

// Consumed returns the number of bytes the client has read.
func (c *Conn) Consumed() int { c.mu.Lock(); defer c.mu.Unlock(); return c.consumed }

// InRead says whether the client is blocked in a read.
func (c *Conn) InRead() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.inRead }

// IsClosed says whether the client closed the connection.
func (c *Conn) IsClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *Conn) timeout(op string) error {
	return &net.OpError{Op: op, Net: c.Network, Err: os.ErrDeadlineExceeded}
}

func (c *Conn) Read(b []byte) (int, error) {
	BeforeOp("read")
	blocked := false
	defer func() {
		if blocked {
			AfterBlock()
		}
	}()
	for {
		c.mu.Lock()
		c.inRead = false
		if c.closed {
			c.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: c.Network, Err: net.ErrClosed}
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			c.mu.Unlock()
			return 0, c.timeout("read")
		}
		if c.reset != nil {
			err := c.reset
			c.mu.Unlock()
			return 0, err
		}
		if len(c.in) > 0 {
			s := c.in[0]
			n := copy(b, s)
			c.consumed += n
			if n < len(s) && !c.datagram {
				c.in[0] = s[n:]
			} else {
				c.in[0] = nil
				c.in = c.in[1:]
			}
			if !(n == 0 && !c.datagram) {
				c.mu.Unlock()
				return n, nil
			}
			c.mu.Unlock()
			continue
		}
		if c.eof {
			c.mu.Unlock()
			return 0, io.EOF
		}
		note, dl := c.note, c.rdl
		c.inRead = true
		c.mu.Unlock()
		blocked = true
		if dl.IsZero() {
			<-note
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-note:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	BeforeOp("write")
	blocked := false
	defer func() {
		if blocked {
			AfterBlock()
		}
	}()
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, &net.OpError{Op: "write", Net: c.Network, Err: net.ErrClosed}
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			c.mu.Unlock()
			return 0, c.timeout("write")
		}
		if c.reset != nil {
			c.mu.Unlock()
			return 0, &net.OpError{Op: "write", Net: c.Network, Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if c.werr != nil {
			err := c.werr
			if c.werrOnce {
				c.werr = nil
			}
			c.mu.Unlock()
			return 0, err
		}
		if c.stall {
			note, dl := c.note, c.wdl
			c.mu.Unlock()
			blocked = true
			if dl.IsZero() {
				<-note
				continue
			}
			t := time.NewTimer(time.Until(dl))
			select {
			case <-note:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		d := append([]byte{}, b...)
		c.writes = append(c.writes, Write{time.Now(), d})
		f := c.OnData
		c.mu.Unlock()
		if f != nil {
			f(c, d)
		}
		return len(b), nil
	}
}

func (c *Conn) Close() error {
	BeforeOp("close")
	c.mu.Lock()
	c.closes++
	if c.closed {
		c.mu.Unlock()
		return &net.OpError{Op: "close", Net: c.Network, Err: net.ErrClosed}
	}
	c.closed = true
	c.ClosedAt = time.Now()
	c.wake()
	f := c.OnClose
	c.mu.Unlock()
	c.Net.closed(c)
	if f != nil {
		f(c)
	}
	return nil
}

type addr struct{ n, s string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.s }

func mkAddr(network, s string) net.Addr {
	ap, err := netip.ParseAddrPort(s)
	if err != nil {
		return addr{network, s}
	}
	if network == "udp" {
		return net.UDPAddrFromAddrPort(ap)
	}
	return net.TCPAddrFromAddrPort(ap)
}

func (c *Conn) LocalAddr() net.Addr  { return mkAddr(c.Network, "10.0.0.1:40000") }
func (c *Conn) RemoteAddr() net.Addr { return mkAddr(c.Network, c.Addr) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "set", Net: c.Network, Err: net.ErrClosed}
	}
	c.rdl, c.wdl = t, t
	c.wake()
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "set", Net: c.Network, Err: net.ErrClosed}
	}
	c.rdl = t
	c.wake()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "set", Net: c.Network, Err: net.ErrClosed}
	}
	c.wdl = t
	c.wake()
	return nil
}

// Dial is one dial attempt.
type Dial struct {
	Network, Addr string
	At            time.Time
	Conn          *Conn // nil if it failed
}

// Net is one network.
type Net struct {
	mu      sync.Mutex
	hosts   map[string]func(c *Conn) error
	Fallbck func(c *Conn) error
	conns   []*Conn
	dials   []*Dial
	open    map[string]int
	nconn   map[string]int
	MaxOpen map[string]int
	// OnOpen sees the set of open TCP connections after each successful dial.
	OnOpen func(total int, c *Conn)
	tcp    int
}

// New makes a network and routes every dial of the process to it.
func New() *Net {
	n := &Net{hosts: map[string]func(*Conn) error{}, open: map[string]int{}, nconn: map[string]int{}, MaxOpen: map[string]int{}}
	net.VerifDialHook = n.dial
	return n
}

// Host registers the script of an address; it is called for each connection, and may refuse it.
func (n *Net) Host(addr string, f func(c *Conn) error) {
	n.mu.Lock()
	n.hosts[canon(addr)] = f
	n.mu.Unlock()
}

// canon is the one spelling of an address.
func canon(addr string) string {
	if ap, err := netip.ParseAddrPort(addr); err == nil {
		return netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port()).String()
	}
	return addr
}

// Errors a script may return.
var (
	ErrRefused   = errors.New("refused")
	ErrBlackhole = errors.New("black hole")
)

func (n *Net) dial(ctx context.Context, network, address string) (net.Conn, error) {
	BeforeOp("dial")
	n.mu.Lock()
	d := &Dial{Network: network, Addr: address, At: time.Now()}
	n.dials = append(n.dials, d)
	h := n.hosts[canon(address)]
	if h == nil {
		h = n.Fallbck
	}
	c := &Conn{Net: n, Network: network, Addr: address, Opened: time.Now(), note: make(chan struct{}), datagram: len(network) >= 3 && network[:3] == "udp", N: n.nconn[address]}
	n.nconn[address]++
	n.mu.Unlock()
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr{network, address}, Err: err}
	}
	if err := ctx.Err(); err != nil {
		return fail(err)
	}
	if h == nil {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	if err := h(c); err != nil {
		c.mu.Lock()
		c.failed = true
		c.mu.Unlock()
		if errors.Is(err, ErrBlackhole) {
			<-ctx.Done()
			AfterBlock()
			if errors.Is(ctx.Err(), context.DeadlineExceeded) {
				return fail(os.ErrDeadlineExceeded)
			}
			return fail(ctx.Err())
		}
		if errors.Is(err, ErrRefused) {
			err = os.NewSyscallError("connect", syscall.ECONNREFUSED)
		}
		return fail(err)
	}
	n.mu.Lock()
	d.Conn = c
	n.conns = append(n.conns, c)
	n.open[address]++
	if n.open[address] > n.MaxOpen[address] {
		n.MaxOpen[address] = n.open[address]
	}
	if c.Network != "udp" {
		n.tcp++
	}
	f, total := n.OnOpen, n.tcp
	n.mu.Unlock()
	if f != nil {
		f(total, c)
	}
	return c, nil
}

func (n *Net) closed(c *Conn) {
	n.mu.Lock()
	n.open[c.Addr]--
	if c.Network != "udp" {
		n.tcp--
	}
	n.mu.Unlock()
}

// Conns returns the connections made so far.
func (n *Net) Conns() []*Conn { n.mu.Lock(); defer n.mu.Unlock(); return append([]*Conn{}, n.conns...) }

// Dials returns the dial attempts so far.
func (n *Net) Dials() []*Dial { n.mu.Lock(); defer n.mu.Unlock(); return append([]*Dial{}, n.dials...) }

// Touch makes room for the records of an address.
func (n *Net) Touch(addr string) {
	n.mu.Lock()
	n.open[addr], n.nconn[addr], n.MaxOpen[addr] = 0, 0, 0
	n.mu.Unlock()
}

// Forget drops what is over from the records.
func (n *Net) Forget() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.dials = nil
	k := 0
	for _, c := range n.conns {
		if !c.IsClosed() {
			n.conns[k] = c
			k++
			c.mu.Lock()
			c.writes = nil
			c.mu.Unlock()
			continue
		}
		c.mu.Lock()
		c.in, c.writes = nil, nil
		c.mu.Unlock()
	}
	clear(n.conns[k:])
	n.conns = n.conns[:k]
}

// Open returns the connections the client has not closed.
func (n *Net) Open() []*Conn {
	var o []*Conn
	for _, c := range n.Conns() {
		if !c.IsClosed() {
			o = append(o, c)
		}
	}
	return o
}

// CloseAll ends everything from the harness side (cleanup).
func (n *Net) CloseAll() {
	for _, c := range n.Conns() {
		c.mu.Lock()
		c.OnData, c.OnClose = nil, nil
		c.mu.Unlock()
		c.Close()
	}
}

func (c *Conn) String() string { return fmt.Sprintf("%s %s #%d", c.Network, c.Addr, c.N) }
