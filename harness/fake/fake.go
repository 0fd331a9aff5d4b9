// Package fake provides the environment of the code under test: an in-memory
// net.Conn and net.Listener whose behaviour (chunking, partial writes,
// timeouts, errors) is chosen by the harness. It runs natively and under the
// symbolic engine.
package fake

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"verifh/sym"
)

// Errors returned by the fakes.
var (
	ErrClosed  = errors.New("fake: use of closed connection")
	ErrReset   = errors.New("fake: connection reset")
	ErrRefused = errors.New("fake: connection refused")
)

// TimeoutErr is the inner error of a timed out operation.
type TimeoutErr struct{}

func (TimeoutErr) Error() string   { return "i/o timeout" }
func (TimeoutErr) Timeout() bool   { return true }
func (TimeoutErr) Temporary() bool { return true }

// OpErr wraps err as the net package does.
func OpErr(op string, err error) error { return &net.OpError{Op: op, Net: "fake", Err: err} }

// Addr is the address of every fake connection.
type Addr struct{}

func (Addr) Network() string { return "fake" }
func (Addr) String() string  { return "fake" }

// Conn is an in-memory connection.
type Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	Name   string
	in     []byte
	out    []byte
	eof    bool
	rerr   error
	closed bool
	peer   *Conn
	writes [][]byte

	// NClose counts Close calls.
	NClose int
	// Chunks lists the sizes of the next reads (then unlimited).
	Chunks []int
	// OneByte makes every read return one byte.
	OneByte bool
	// OnWrite decides how much of b a write accepts (nil: everything).
	OnWrite func(b []byte) (int, error)
	// Hold makes writes block until released (backpressure).
	Hold bool
	// Room is how many bytes are accepted all the same.
	Room int
	// NWrite counts calls of Write.
	NWrite int
	// ReadsStarted counts calls of Read.
	ReadsStarted int
	// OnClosed is run (once) by the first Close.
	OnClosed func()
	// Deadlines makes reads and writes honour their deadlines.
	Deadlines bool
	rdl, wdl  time.Time
	rdlGen    int
	wdlGen    int
	// Options set on the connection; OptErr is returned when setting one.
	RBuf, WBuf      int
	KeepAlive       bool
	KeepAlivePeriod time.Duration
	OptErr          error
}

// NewConn is an unconnected fake: the harness plays the peer.
func NewConn() *Conn {
	c := &Conn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Pipe is a connected pair.
func Pipe() (*Conn, *Conn) {
	a, b := NewConn(), NewConn()
	a.peer, b.peer = b, a
	return a, b
}

// Feed makes bytes available to the reader.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

// EOF ends the input after the bytes fed so far.
func (c *Conn) EOF() {
	c.mu.Lock()
	c.eof = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailRead makes reads fail after the bytes fed so far.
func (c *Conn) FailRead(err error) {
	c.mu.Lock()
	c.rerr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Out is a copy of the bytes written so far.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

// Writes is the list of Write calls (accepted parts).
func (c *Conn) Writes() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.writes...)
}

// Unread is the number of fed bytes not read yet.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

// Closed reports whether the code under test closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Release lets held writes continue.
func (c *Conn) Release() {
	c.mu.Lock()
	c.Hold = false
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ReadsStarted++
	if len(b) == 0 {
		return 0, nil
	}
	for len(c.in) == 0 && !c.eof && c.rerr == nil && !c.closed && !c.late() {
		c.cond.Wait()
	}
	if c.closed {
		return 0, OpErr("read", ErrClosed)
	}
	if c.late() {
		return 0, OpErr("read", TimeoutErr{})
	}
	if len(c.in) == 0 {
		if c.rerr != nil {
			return 0, OpErr("read", c.rerr)
		}
		return 0, io.EOF
	}
	n := len(c.in)
	if c.OneByte {
		n = 1
	} else if len(c.Chunks) > 0 {
		if c.Chunks[0] < n {
			n = c.Chunks[0]
		}
		c.Chunks[0] -= n
		if c.Chunks[0] <= 0 {
			c.Chunks = c.Chunks[1:]
		}
	}
	if n > len(b) {
		n = len(b)
	}
	if n < 1 {
		n = 1
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.NWrite++
	some := 0
	if c.Hold && c.Room > 0 && !c.closed && !c.wlate() {
		some = len(b)
		if some > c.Room {
			some = c.Room
		}
		c.Room -= some
		c.accept(b[:some])
		b = b[some:]
		if len(b) == 0 {
			return some, nil
		}
	}
	for c.Hold && !c.closed && !c.wlate() {
		c.cond.Wait()
	}
	if c.closed {
		return some, OpErr("write", ErrClosed)
	}
	if c.wlate() {
		return some, OpErr("write", TimeoutErr{})
	}
	n := len(b)
	var err error
	if c.OnWrite != nil {
		n, err = c.OnWrite(b)
	}
	c.accept(b[:n])
	return some + n, err
}

func (c *Conn) accept(b []byte) {
	c.out = append(c.out, b...)
	c.writes = append(c.writes, append([]byte(nil), b...))
	if c.peer != nil {
		p := c.peer
		p.mu.Lock()
		p.in = append(p.in, b...)
		p.cond.Broadcast()
		p.mu.Unlock()
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	c.NClose++
	if c.closed {
		c.mu.Unlock()
		return OpErr("close", ErrClosed)
	}
	c.closed = true
	c.cond.Broadcast()
	f := c.OnClosed
	c.mu.Unlock()
	if p := c.peer; p != nil {
		p.mu.Lock()
		p.eof = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	if f != nil {
		f()
	}
	return nil
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return Addr{} }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return Addr{} }

// late tells whether the read deadline has passed.
func (c *Conn) late() bool {
	return c.Deadlines && !c.rdl.IsZero() && !time.Now().Before(c.rdl)
}

// wlate tells whether the write deadline has passed.
func (c *Conn) wlate() bool {
	return c.Deadlines && !c.wdl.IsZero() && time.Now().After(c.wdl)
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if !c.Deadlines {
		return nil
	}
	c.mu.Lock()
	c.rdl = t
	c.rdlGen++
	gen := c.rdlGen
	c.cond.Broadcast()
	c.mu.Unlock()
	if !t.IsZero() {
		go func() {
			time.Sleep(time.Until(t))
			c.mu.Lock()
			if c.rdlGen == gen {
				c.cond.Broadcast()
			}
			c.mu.Unlock()
		}()
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if !c.Deadlines {
		return nil
	}
	c.mu.Lock()
	c.wdl = t
	c.wdlGen++
	gen := c.wdlGen
	held := c.Hold
	c.mu.Unlock()
	if held && !t.IsZero() {
		go func() {
			time.Sleep(time.Until(t) + time.Millisecond)
			c.mu.Lock()
			if c.wdlGen == gen {
				c.cond.Broadcast()
			}
			c.mu.Unlock()
		}()
	}
	return nil
}

// Listener is an in-memory net.Listener.
type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []net.Conn
	errs   []error
	closed bool
	// Accepts counts successful Accept calls, Calls all of them.
	Accepts, Calls, NClose int
	// CloseErr is returned by the first Close.
	CloseErr error
}

// NewListener is an idle listener.
func NewListener() *Listener {
	l := &Listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

// Dial queues a connection for Accept.
func (l *Listener) Dial(c net.Conn) {
	l.mu.Lock()
	l.q = append(l.q, c)
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Fail queues an Accept error.
func (l *Listener) Fail(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err)
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Calls++
	for len(l.q) == 0 && len(l.errs) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, OpErr("accept", ErrClosed)
	}
	if len(l.errs) > 0 {
		e := l.errs[0]
		l.errs = l.errs[1:]
		return nil, e
	}
	c := l.q[0]
	l.q = l.q[1:]
	l.Accepts++
	return c, nil
}

// Accepted is the number of connections handed out.
func (l *Listener) Accepted() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.Accepts
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.NClose++
	if l.closed {
		return OpErr("close", ErrClosed)
	}
	l.closed = true
	l.cond.Broadcast()
	return l.CloseErr
}

// IsClosed reports whether the listener was closed.
func (l *Listener) IsClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return Addr{} }

// ---- the wire format, written independently of the code under test ----

// F is a frame on the wire.
type F struct {
	ID      uint64
	Flags   uint8
	Cmd     uint32
	Payload []byte
}

// Enc encodes a frame by the documented format.
func Enc(f F) []byte {
	n := len(f.Payload) + 12
	b := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n),
		byte(f.ID >> 56), byte(f.ID >> 48), byte(f.ID >> 40), byte(f.ID >> 32), byte(f.ID >> 24), byte(f.ID >> 16), byte(f.ID >> 8), byte(f.ID),
		f.Flags, byte(f.Cmd >> 16), byte(f.Cmd >> 8), byte(f.Cmd)}
	return append(b, f.Payload...)
}

// EncAll concatenates frames.
func EncAll(fs ...F) []byte {
	var b []byte
	for _, f := range fs {
		b = append(b, Enc(f)...)
	}
	return b
}

// Dec splits bytes into frames; ok is false unless they are whole frames.
func Dec(b []byte) (fs []F, ok bool) {
	for len(b) > 0 {
		if len(b) < 16 {
			return fs, false
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		n = sym.Concrete(n)
		if n < 12 || len(b) < 4+n {
			return fs, false
		}
		var id uint64
		for i := 4; i < 12; i++ {
			id = id<<8 | uint64(b[i])
		}
		fs = append(fs, F{ID: id, Flags: b[12], Cmd: uint32(b[13])<<16 | uint32(b[14])<<8 | uint32(b[15]), Payload: b[16 : 4+n]})
		b = b[4+n:]
	}
	return fs, true
}
